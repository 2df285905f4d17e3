#include "expr.h"
#include <algorithm>
#include <quadmath.h>
using namespace std;

vector<Expr *> g_nodes;
struct Key {
  uint8_t op, fn, w; Expr *a, *b, *c; long long i;
  bool operator==(const Key &o) const { return op == o.op && fn == o.fn && w == o.w && a == o.a && b == o.b && c == o.c && i == o.i; }
};
struct KeyH {
  size_t operator()(const Key &k) const {
    size_t h = k.op * 1315423911u + k.fn * 77 + k.w;
    auto mix = [&](size_t v) { h ^= v + 0x9e3779b97f4a7c15UL + (h << 6) + (h >> 2); };
    mix((size_t)k.a >> 4); mix((size_t)k.b >> 4); mix((size_t)k.c >> 4); mix((size_t)k.i);
    return h;
  }
};
static unordered_map<Key, Expr *, KeyH> g_cons;

static const i128 IMAX = ((i128)1 << 100);
static inline i128 clampi(i128 v) { return v > IMAX ? IMAX : v < -IMAX ? -IMAX : v; }
static inline void widen(double &lo, double &hi) {
  if (lo == hi && lo == 0) return;
  double m = max(fabs(lo), fabs(hi)) * 4e-16;
  lo -= m; hi += m;
}
static void imulr(double al, double ah, double bl, double bh, double &lo, double &hi) {
  double p[4] = {al * bl, al * bh, ah * bl, ah * bh};
  for (double &x : p) if (std::isnan(x)) x = 0; // 0*inf
  lo = *min_element(p, p + 4); hi = *max_element(p, p + 4);
}

Expr *mk(uint8_t op, uint8_t sort, uint8_t fn, uint8_t width, Expr *a, Expr *b, Expr *c, long long iv) {
  Key k{op, fn, width, a, b, c, iv};
  auto it = g_cons.find(k);
  if (it != g_cons.end()) return it->second;
  Expr *e = new Expr();
  e->op = op; e->sort = sort; e->fn = fn; e->width = width; e->a = a; e->b = b; e->c = c; e->i = iv;
  e->id = g_nodes.size(); e->refs = 0;
  e->lo = -INFINITY; e->hi = INFINITY; e->ilo = -IMAX; e->ihi = IMAX;
  if (a) a->refs++;
  if (b) b->refs++;
  if (c) c->refs++;
  switch (op) {
    case RCONST: e->lo = e->hi = e->d; break;
    case RADD: e->lo = a->lo + b->lo; e->hi = a->hi + b->hi; widen(e->lo, e->hi); break;
    case RSUB: e->lo = a->lo - b->hi; e->hi = a->hi - b->lo; widen(e->lo, e->hi); break;
    case RNEG: e->lo = -a->hi; e->hi = -a->lo; break;
    case RMUL:
      if (a == b) {
        double x = fabs(a->lo), y = fabs(a->hi);
        e->hi = max(x, y) * max(x, y);
        e->lo = (a->lo <= 0 && a->hi >= 0) ? 0 : min(x, y) * min(x, y);
        widen(e->lo, e->hi); if (e->lo < 0) e->lo = 0;
      } else { imulr(a->lo, a->hi, b->lo, b->hi, e->lo, e->hi); widen(e->lo, e->hi); }
      break;
    case RDIV:
      if (b->lo > 0 || b->hi < 0) {
        imulr(a->lo, a->hi, 1 / b->hi, 1 / b->lo, e->lo, e->hi); widen(e->lo, e->hi);
      }
      break;
    case RITE: e->lo = min(b->lo, c->lo); e->hi = max(b->hi, c->hi); break;
    case RFROMINT: e->lo = (double)a->ilo; e->hi = (double)a->ihi; break;
    case RFN:
      switch (fn) {
        case F_SIN: case F_COS: e->lo = -1; e->hi = 1; break;
        case F_EXP: e->lo = exp(a->lo); e->hi = exp(a->hi); widen(e->lo, e->hi); if (e->lo < 0) e->lo = 0; break;
        case F_LOG: if (a->lo > 0) { e->lo = log(a->lo); e->hi = log(a->hi); double m = 1e-14 * (1 + max(fabs(e->lo), fabs(e->hi))); e->lo -= m; e->hi += m; } break;
        case F_SQRT: e->lo = a->lo > 0 ? sqrt(a->lo) * (1 - 1e-15) : 0; e->hi = sqrt(max(a->hi, 0.0)) * (1 + 1e-15); break;
        case F_POW:
          if (a->lo > 0) {
            double p[4] = {pow(a->lo, b->lo), pow(a->lo, b->hi), pow(a->hi, b->lo), pow(a->hi, b->hi)};
            e->lo = *min_element(p, p + 4); e->hi = *max_element(p, p + 4);
            e->lo *= (1 - 1e-13); e->hi *= (1 + 1e-13);
          } else if (a->lo >= 0) e->lo = 0;
          break;
        case F_ATAN: e->lo = -1.5707963267949; e->hi = 1.5707963267949; if (std::isfinite(a->lo)) e->lo = atan(a->lo) - 1e-15; if (std::isfinite(a->hi)) e->hi = atan(a->hi) + 1e-15; break;
        case F_ATAN2: e->lo = -3.1415926535898; e->hi = 3.1415926535898; break;
        case F_ASIN: e->lo = -1.5707963267949; e->hi = 1.5707963267949; break;
        case F_ACOS: e->lo = 0; e->hi = 3.1415926535898; break;
        case F_TANH: e->lo = -1; e->hi = 1; break;
        default: break;
      }
      break;
    case ICONST: e->ilo = e->ihi = iv; break;
    case IADD: e->ilo = clampi(a->ilo + b->ilo); e->ihi = clampi(a->ihi + b->ihi); break;
    case ISUB: e->ilo = clampi(a->ilo - b->ihi); e->ihi = clampi(a->ihi - b->ilo); break;
    case IMUL: {
      auto m = [](i128 x, i128 y) -> i128 {
        long double p = (long double)x * (long double)y;
        if (p > 1e30L) return IMAX; if (p < -1e30L) return -IMAX;
        return x * y;
      };
      i128 p[4] = {m(a->ilo, b->ilo), m(a->ilo, b->ihi), m(a->ihi, b->ilo), m(a->ihi, b->ihi)};
      e->ilo = *min_element(p, p + 4); e->ihi = *max_element(p, p + 4);
      break;
    }
    case ITDIV: case IFDIV:
      if (b->ilo == b->ihi && b->ilo != 0) {
        auto dv = [&](i128 x) -> i128 {
          i128 q = x / b->ilo;
          if (op == IFDIV && (x % b->ilo != 0) && ((x < 0) != (b->ilo < 0))) q--;
          return q;
        };
        i128 p = dv(a->ilo), q = dv(a->ihi);
        e->ilo = min(p, q); e->ihi = max(p, q);
      } else {
        i128 m = max(a->ilo < 0 ? -a->ilo : a->ilo, a->ihi < 0 ? -a->ihi : a->ihi);
        e->ilo = -m; e->ihi = m;
      }
      break;
    case ITREM: {
      i128 m = max(b->ilo < 0 ? -b->ilo : b->ilo, b->ihi < 0 ? -b->ihi : b->ihi) - 1;
      if (m < 0) m = 0;
      e->ilo = a->ilo >= 0 ? 0 : max(-m, a->ilo);
      e->ihi = a->ihi <= 0 ? 0 : min(m, a->ihi);
      break;
    }
    case IMODP: e->ilo = 0; e->ihi = (i128)iv - 1; if (a->ilo >= 0 && a->ihi < e->ihi) e->ihi = a->ihi; break;
    case IITE: e->ilo = min(b->ilo, c->ilo); e->ihi = max(b->ihi, c->ihi); break;
    case IFROMREAL: case IFLOOR:
      if (std::isfinite(a->lo) && std::isfinite(a->hi) && fabs(a->lo) < 1e18 && fabs(a->hi) < 1e18) {
        e->ilo = (i128)floor(a->lo); e->ihi = (i128)ceil(a->hi);
      }
      break;
    case IB2I: e->ilo = 0; e->ihi = 1; break;
    case IBVOP: case IWRAP: e->ilo = -((i128)1 << (width - 1)); e->ihi = ((i128)1 << (width - 1)) - 1; break;
    case IU: e->ilo = 0; e->ihi = ((i128)1 << width) - 1; break;
    default: break;
  }
  if (std::isnan(e->lo)) e->lo = -INFINITY;
  if (std::isnan(e->hi)) e->hi = INFINITY;
  g_nodes.push_back(e);
  g_cons[k] = e;
  return e;
}
static long long dbits(double d) { long long v; memcpy(&v, &d, 8); return v; }
Expr *rconst(double d) { if (d == 0) d = 0; return mk(RCONST, S_REAL, 0, 0, 0, 0, 0, dbits(d)); }
Expr *iconst(long long v) { return mk(ICONST, S_INT, 0, 0, 0, 0, 0, v); }
Expr *bconst(bool b) { return mk(BCONST, S_BOOL, 0, 0, 0, 0, 0, b ? 1 : 0); }
Expr *rfromint(Expr *e) {
  if (e->op == ICONST) return rconst((double)e->i);
  return mk(RFROMINT, S_REAL, 0, 0, e, 0, 0, 0);
}
Expr *rop(uint8_t op, Expr *a, Expr *b) {
  bool ca = a->op == RCONST, cb = b && b->op == RCONST;
  switch (op) {
    case RADD:
      if (ca && cb) return rconst(a->d + b->d);
      if (ca && a->d == 0) return b;
      if (cb && b->d == 0) return a;
      if (a->id > b->id) swap(a, b);
      break;
    case RSUB:
      if (ca && cb) return rconst(a->d - b->d);
      if (cb && b->d == 0) return a;
      if (a == b) return rconst(0);
      if (ca && a->d == 0) return rop(RNEG, b, 0);
      break;
    case RMUL:
      if (ca && cb) return rconst(a->d * b->d);
      if ((ca && a->d == 0) || (cb && b->d == 0)) return rconst(0);
      if (ca && a->d == 1) return b;
      if (cb && b->d == 1) return a;
      if (ca && a->d == -1) return rop(RNEG, b, 0);
      if (cb && b->d == -1) return rop(RNEG, a, 0);
      if (a->id > b->id) swap(a, b);
      break;
    case RDIV:
      if (ca && cb) return rconst(a->d / b->d);
      if (cb && b->d == 1) return a;
      if (ca && a->d == 0) return a;
      if (a == b) return rconst(1);
      break;
    case RNEG:
      if (ca) return rconst(-a->d);
      if (a->op == RNEG) return a->a;
      break;
  }
  return mk(op, S_REAL, 0, 0, a, b, 0, 0);
}
Expr *rfn(uint8_t fn, Expr *a, Expr *b) {
  return mk(RFN, S_REAL, fn, 0, a, b, 0, 0);
}
Expr *bnot(Expr *e) {
  if (e->op == BCONST) return bconst(!e->i);
  if (e->op == BNOT) return e->a;
  return mk(BNOT, S_BOOL, 0, 0, e, 0, 0, 0);
}
Expr *band(Expr *a, Expr *b) {
  if (a->op == BCONST) return a->i ? b : a;
  if (b->op == BCONST) return b->i ? a : b;
  if (a == b) return a;
  return mk(BAND, S_BOOL, 0, 0, a, b, 0, 0);
}
Expr *bor(Expr *a, Expr *b) {
  if (a->op == BCONST) return a->i ? a : b;
  if (b->op == BCONST) return b->i ? b : a;
  if (a == b) return a;
  return mk(BOR, S_BOOL, 0, 0, a, b, 0, 0);
}
Expr *cmpR(uint8_t op, Expr *a, Expr *b) {
  if (a == b) return bconst(op != BLTR);
  if (a->op == RCONST && b->op == RCONST)
    return bconst(op == BEQR ? a->d == b->d : op == BLTR ? a->d < b->d : a->d <= b->d);
  if (op == BLTR || op == BLER) {
    if (a->hi < b->lo) return bconst(true);
    if (a->lo > b->hi) return bconst(false);
  } else if (a->hi < b->lo || a->lo > b->hi) return bconst(false);
  return mk(op, S_BOOL, 0, 0, a, b, 0, 0);
}
Expr *cmpI(uint8_t op, Expr *a, Expr *b) {
  if (a == b) return bconst(op != BLTI);
  if (op == BLTI) {
    if (a->ihi < b->ilo) return bconst(true);
    if (a->ilo >= b->ihi) return bconst(false);
  } else if (op == BLEI) {
    if (a->ihi <= b->ilo) return bconst(true);
    if (a->ilo > b->ihi) return bconst(false);
  } else {
    if (a->ihi < b->ilo || a->ilo > b->ihi) return bconst(false);
    if (a->ilo == a->ihi && b->ilo == b->ihi && a->ilo == b->ilo) return bconst(true);
    if (a->op == ICONST && a->i == 0 && b->op == IBVOP) std::swap(a, b);
    if (b->op == ICONST && b->i == 0 && a->op == IBVOP) {
      if (a->fn == 2) return cmpI(BEQI, a->a, a->b);
      if (a->fn == 1) return band(cmpI(BEQI, a->a, b), cmpI(BEQI, a->b, b));
    }
    // (bool as int) == const
    if (a->op == IB2I && b->op == ICONST) return b->i == 1 ? a->a : bnot(a->a);
    if (b->op == IB2I && a->op == ICONST) return a->i == 1 ? b->a : bnot(b->a);
  }
  return mk(op, S_BOOL, 0, 0, a, b, 0, 0);
}

// -------------------------------------------------------------------- eval
static long long evalInt(Expr *e, vector<double> &memo, vector<char> &have, unordered_map<uint32_t, double> &rv,
                         unordered_map<uint32_t, long long> &iv);
static bool evalBool(Expr *e, vector<double> &memo, vector<char> &have, unordered_map<uint32_t, double> &rv,
                     unordered_map<uint32_t, long long> &iv) {
#define R(x) evalReal(x, memo, have, rv, iv)
#define I(x) evalInt(x, memo, have, rv, iv)
#define B(x) evalBool(x, memo, have, rv, iv)
  switch (e->op) {
    case BCONST: return e->i;
    case BEQI: return I(e->a) == I(e->b);
    case BLTI: return I(e->a) < I(e->b);
    case BLEI: return I(e->a) <= I(e->b);
    case BEQR: return R(e->a) == R(e->b);
    case BLTR: return R(e->a) < R(e->b);
    case BLER: return R(e->a) <= R(e->b);
    case BAND: return B(e->a) && B(e->b);
    case BOR: return B(e->a) || B(e->b);
    case BNOT: return !B(e->a);
    case BITE: return B(e->a) ? B(e->b) : B(e->c);
  }
  return false;
}
static long long evalInt(Expr *e, vector<double> &memo, vector<char> &have, unordered_map<uint32_t, double> &rv,
                         unordered_map<uint32_t, long long> &iv) {
  switch (e->op) {
    case ICONST: return e->i;
    case IVAR: return iv[e->id];
    case IADD: return (long long)((unsigned long long)I(e->a) + (unsigned long long)I(e->b));
    case ISUB: return (long long)((unsigned long long)I(e->a) - (unsigned long long)I(e->b));
    case IMUL: return (long long)((unsigned long long)I(e->a) * (unsigned long long)I(e->b));
    case ITDIV: { long long d = I(e->b); return d ? I(e->a) / d : 0; }
    case ITREM: { long long d = I(e->b); return d ? I(e->a) % d : 0; }
    case IFDIV: { long long d = I(e->b), x = I(e->a); if (!d) return 0; long long q = x / d; if (x % d != 0 && ((x < 0) != (d < 0))) q--; return q; }
    case IMODP: { long long x = I(e->a) % e->i; return x < 0 ? x + e->i : x; }
    case IITE: return B(e->a) ? I(e->b) : I(e->c);
    case IFROMREAL: return (long long)R(e->a);
    case IFLOOR: return (long long)floor(R(e->a));
    case IB2I: return B(e->a);
    case IWRAP: { long long x = I(e->a); int s = 64 - e->width; return (long long)((unsigned long long)x << s) >> s; }
    case IU: { long long x = I(e->a); return x < 0 ? x + (1LL << e->width) : x; }
    case IBVOP: {
      unsigned long long x = I(e->a), y = I(e->b), r = 0;
      unsigned long long mask = e->width == 64 ? ~0ULL : ((1ULL << e->width) - 1);
      switch (e->fn) {
        case 0: r = x & y; break; case 1: r = x | y; break; case 2: r = x ^ y; break;
        case 3: r = x << (y & 63); break; case 4: r = (x & mask) >> (y & 63); break; case 5: r = (long long)x >> (y & 63); break;
      }
      int s = 64 - e->width;
      return (long long)(r << s) >> s;
    }
  }
  return 0;
}
double evalReal(Expr *e, vector<double> &memo, vector<char> &have, unordered_map<uint32_t, double> &rv,
                unordered_map<uint32_t, long long> &iv) {
  if (e->op == RCONST) return e->d;
  if (have.size() <= e->id) { have.resize(g_nodes.size() + 1, 0); memo.resize(g_nodes.size() + 1, 0); }
  if (have[e->id]) return memo[e->id];
  double r = 0;
  switch (e->op) {
    case RVAR: r = rv[e->id]; break;
    case RADD: r = R(e->a) + R(e->b); break;
    case RSUB: r = R(e->a) - R(e->b); break;
    case RMUL: r = R(e->a) * R(e->b); break;
    case RDIV: r = R(e->a) / R(e->b); break;
    case RNEG: r = -R(e->a); break;
    case RITE: r = B(e->a) ? R(e->b) : R(e->c); break;
    case RFROMINT: r = (double)I(e->a); break;
    case RFN: {
      double x = R(e->a), y = e->b ? R(e->b) : 0;
      switch (e->fn) {
        case F_SIN: r = sin(x); break; case F_COS: r = cos(x); break; case F_TAN: r = tan(x); break;
        case F_ASIN: r = asin(x); break; case F_ACOS: r = acos(x); break; case F_ATAN: r = atan(x); break;
        case F_ATAN2: r = atan2(x, y); break; case F_EXP: r = exp(x); break; case F_LOG: r = log(x); break;
        case F_LOG10: r = log10(x); break; case F_POW: r = pow(x, y); break; case F_SQRT: r = sqrt(x); break;
        case F_FABS: r = fabs(x); break; case F_SINH: r = sinh(x); break; case F_COSH: r = cosh(x); break;
        case F_TANH: r = tanh(x); break; case F_CBRT: r = cbrt(x); break; case F_FMOD: r = fmod(x, y); break;
      }
      break;
    }
  }
#undef R
#undef I
#undef B
  if (have.size() <= e->id) { have.resize(g_nodes.size() + 1, 0); memo.resize(g_nodes.size() + 1, 0); }
  have[e->id] = 1; memo[e->id] = r;
  return r;
}
bool evalBoolTop(Expr *e, vector<double> &memo, vector<char> &have, unordered_map<uint32_t, double> &rv,
                 unordered_map<uint32_t, long long> &iv) { return evalBool(e, memo, have, rv, iv); }
long long evalIntTop(Expr *e, vector<double> &memo, vector<char> &have, unordered_map<uint32_t, double> &rv,
                 unordered_map<uint32_t, long long> &iv) { return evalInt(e, memo, have, rv, iv); }

// -------------------------------------------------------------------- polynomials
vector<Mono> g_monos;
vector<Atom> g_atoms;
static const size_t MAXTERMS = 400000;
struct MKeyH { size_t operator()(const vector<pair<uint32_t, double>> &f) const {
  size_t h = f.size();
  for (auto &p : f) { h ^= p.first + 0x9e3779b97f4a7c15UL + (h << 6) + (h >> 2); h ^= (size_t)dbits(p.second) + 0x9e3779b97f4a7c15UL + (h << 6) + (h >> 2); }
  return h; } };
static unordered_map<vector<pair<uint32_t, double>>, uint32_t, MKeyH> g_monoIx;

static void powint(double lo, double hi, double e, double &rl, double &rh) {
  if (e == floor(e) && fabs(e) < 1e6) {
    long n = (long)fabs(e);
    double a, b;
    if (n % 2 == 0) {
      double x = fabs(lo), y = fabs(hi);
      b = pow(max(x, y), n); a = (lo <= 0 && hi >= 0) ? 0 : pow(min(x, y), n);
    } else { a = pow(lo, n); b = pow(hi, n); }
    if (e < 0) {
      if (a > 0 || b < 0) { rl = 1 / b; rh = 1 / a; }
      else if (a == 0 && n % 2 == 0) { rl = b > 0 ? 1 / b : 0; rh = INFINITY; }
      else { rl = -INFINITY; rh = INFINITY; }
    } else { rl = a; rh = b; }
  } else {
    double a = lo > 0 ? lo : 0, b = hi > 0 ? hi : 0;
    double p = pow(a, e), q = pow(b, e);
    rl = min(p, q); rh = max(p, q);
  }
  double m = max(fabs(rl), fabs(rh));
  if (std::isfinite(m)) { rl -= m * 4e-15; rh += m * 4e-15; }
}
static uint32_t internMono(const vector<pair<uint32_t, double>> &f) {
  if (g_monos.empty()) { Mono m; m.lo = m.hi = 1; m.hasComp = false; g_monos.push_back(m); g_monoIx[{}] = 0; }
  auto it = g_monoIx.find(f);
  if (it != g_monoIx.end()) return it->second;
  Mono m; m.f = f; m.lo = 1; m.hi = 1; m.hasComp = false;
  for (auto &p : f) {
    double l, h, a, b;
    powint(g_atoms[p.first].lo, g_atoms[p.first].hi, p.second, l, h);
    imulr(m.lo, m.hi, l, h, a, b);
    m.lo = a; m.hi = b;
    if (g_atoms[p.first].kind == A_COMP) m.hasComp = true;
  }
  uint32_t id = g_monos.size();
  g_monos.push_back(m);
  g_monoIx[f] = id;
  return id;
}
PP pconst(Q c) {
  auto p = make_shared<Poly>();
  internMono({});
  if (c != 0) p->t.push_back({0, c});
  return p;
}
PP padd(PP a, PP b, Q sb) {
  if (b->t.empty() || sb == 0) return a;
  auto r = make_shared<Poly>();
  r->t.reserve(a->t.size() + b->t.size());
  size_t i = 0, j = 0;
  while (i < a->t.size() || j < b->t.size()) {
    if (j >= b->t.size() || (i < a->t.size() && a->t[i].first < b->t[j].first)) r->t.push_back(a->t[i++]);
    else if (i >= a->t.size() || b->t[j].first < a->t[i].first) { r->t.push_back({b->t[j].first, b->t[j].second * sb}); j++; }
    else {
      Q x = a->t[i].second, y = b->t[j].second * sb, s = x + y;
      if (fabsq(s) > 1e-28Q * (fabsq(x) + fabsq(y))) r->t.push_back({a->t[i].first, s});
      i++; j++;
    }
  }
  return r;
}
PP pscale(PP a, Q s) {
  if (s == 1) return a;
  auto r = make_shared<Poly>();
  if (s == 0) return r;
  r->t = a->t;
  for (auto &x : r->t) x.second *= s;
  return r;
}
typedef unordered_map<uint32_t, pair<Q, Q>> Acc; // value, magnitude
static void accAdd(Acc &m, uint32_t k, Q v) { auto &x = m[k]; x.first += v; x.second += fabsq(v); }
static PP fromAcc(Acc &m) {
  auto r = make_shared<Poly>();
  for (auto &x : m) if (fabsq(x.second.first) > 1e-28Q * x.second.second) r->t.push_back({x.first, x.second.first});
  sort(r->t.begin(), r->t.end(), [](const pair<uint32_t, Q> &a, const pair<uint32_t, Q> &b) { return a.first < b.first; });
  return r;
}
static PP pmono(uint32_t id) { auto r = make_shared<Poly>(); r->t.push_back({id, 1}); return r; }
static PP patom(uint32_t atom, double e) { return pmono(internMono({{atom, e}})); }
static PP expandMono(const vector<pair<uint32_t, double>> &f, Q coef);

// product of two monomials: either one monomial id (ok=true) or needs expansion
static bool monoMul(uint32_t a, uint32_t b, uint32_t &out, vector<pair<uint32_t, double>> &f) {
  if (a == 0) { out = b; return true; }
  if (b == 0) { out = a; return true; }
  static unordered_map<uint64_t, uint32_t> memo;
  uint64_t key = a < b ? ((uint64_t)a << 32 | b) : ((uint64_t)b << 32 | a);
  auto it = memo.find(key);
  if (it != memo.end()) { out = it->second; return true; }
  f.clear();
  auto &x = g_monos[a].f, &y = g_monos[b].f;
  size_t i = 0, j = 0;
  bool expand = false;
  while (i < x.size() || j < y.size()) {
    if (j >= y.size() || (i < x.size() && x[i].first < y[j].first)) f.push_back(x[i++]);
    else if (i >= x.size() || y[j].first < x[i].first) f.push_back(y[j++]);
    else {
      double e = x[i].second + y[j].second;
      if (fabs(e) < 1e-13) e = 0;
      if (fabs(e - round(e)) < 1e-13) e = round(e);
      if (e != 0) f.push_back({x[i].first, e});
      i++; j++;
    }
  }
  for (auto &p : f) {
    const Atom &at = g_atoms[p.first];
    if (at.kind == A_COMP && p.second >= 1) expand = true; // [p]^1.5 -> p*[p]^0.5
    if (at.kind == A_FN && at.fn == F_SIN && p.second >= 2 && p.second == floor(p.second)) expand = true;
  }
  if (expand) return false;
  out = internMono(f);
  memo[key] = out;
  return true;
}
static uint32_t fnAtom(uint8_t fn, PP a, PP b);
static PP expandMono(const vector<pair<uint32_t, double>> &f, Q coef) {
  vector<pair<uint32_t, double>> rest;
  PP acc = pconst(coef);
  vector<PP> mul;
  for (auto &p : f) {
    const Atom at = g_atoms[p.first];
    if (at.kind == A_COMP && p.second >= 1) {
      double n = floor(p.second), fr = p.second - n;
      for (int k = 0; k < (int)n; k++) mul.push_back(at.p);
      if (fr > 1e-13) rest.push_back({p.first, fr});
    } else if (at.kind == A_FN && at.fn == F_SIN && p.second >= 2 && p.second == floor(p.second)) {
      long n = (long)p.second;
      uint32_t c = fnAtom(F_COS, at.p, nullptr);
      PP one = padd(pconst(1), patom(c, 2), -1);
      for (long k = 0; k < n / 2; k++) mul.push_back(one);
      if (n % 2) rest.push_back({p.first, 1});
    } else rest.push_back(p);
  }
  PP r = pscale(pmono(internMono(rest)), coef);
  for (auto &m : mul) r = pmul(r, m);
  return r;
}
PP pmul(PP a, PP b) {
  if (a->t.empty()) return a;
  if (b->t.empty()) return b;
  if (a->isConst()) return pscale(b, a->constant());
  if (b->isConst()) return pscale(a, b->constant());
  Acc m;
  m.reserve(a->t.size() * b->t.size());
  vector<pair<uint32_t, double>> f;
  for (auto &x : a->t)
    for (auto &y : b->t) {
      uint32_t id;
      if (monoMul(x.first, y.first, id, f)) accAdd(m, id, x.second * y.second);
      else {
        PP e = expandMono(f, x.second * y.second);
        for (auto &z : e->t) accAdd(m, z.first, z.second);
      }
      if (m.size() > MAXTERMS) throw PolyLimit();
    }
  return fromAcc(m);
}
void pinterval(const Poly &p, double &lo, double &hi) {
  lo = hi = 0;
  for (auto &x : p.t) {
    double c = (double)x.second;
    const Mono &m = g_monos[x.first];
    double l, h;
    if (c >= 0) { l = c * m.lo; h = c * m.hi; } else { l = c * m.hi; h = c * m.lo; }
    if (std::isnan(l)) l = -INFINITY;
    if (std::isnan(h)) h = INFINITY;
    lo += l; hi += h;
  }
  double mm = max(fabs(lo), fabs(hi)) * 1e-14;
  if (std::isfinite(mm)) { lo -= mm; hi += mm; }
  if (std::isnan(lo)) lo = -INFINITY;
  if (std::isnan(hi)) hi = INFINITY;
}
static bool psame(const Poly &a, const Poly &b) {
  if (a.t.size() != b.t.size()) return false;
  for (size_t i = 0; i < a.t.size(); i++) {
    if (a.t[i].first != b.t[i].first) return false;
    Q x = a.t[i].second, y = b.t[i].second;
    if (fabsq(x - y) > 1e-12Q * (fabsq(x) + fabsq(y))) return false;
  }
  return true;
}
static size_t phash(const Poly &a) { size_t h = a.t.size(); for (auto &x : a.t) h = h * 1000003 + x.first; return h; }
// drop negligible terms (relative to interval magnitude) so that keys match
static PP pclean(PP a) {
  double mx = 0;
  for (auto &x : a->t) {
    const Mono &m = g_monos[x.first];
    double v = fabs((double)x.second) * max(fabs(m.lo), fabs(m.hi));
    if (std::isfinite(v)) mx = max(mx, v);
  }
  auto r = make_shared<Poly>();
  for (auto &x : a->t) {
    const Mono &m = g_monos[x.first];
    double v = fabs((double)x.second) * max(fabs(m.lo), fabs(m.hi));
    if (!std::isfinite(v) || v > 1e-14 * mx) r->t.push_back(x);
  }
  return r;
}
static unordered_map<size_t, vector<uint32_t>> g_compIx, g_fnIx;
static unordered_map<uint32_t, uint32_t> g_varIx;
static uint32_t varAtom(Expr *e) {
  auto it = g_varIx.find(e->id);
  if (it != g_varIx.end()) return it->second;
  Atom a; a.kind = A_VAR; a.fn = 0; a.e = e; a.lo = e->lo; a.hi = e->hi; a.hasFn = false;
  g_atoms.push_back(a);
  return g_varIx[e->id] = g_atoms.size() - 1;
}
static bool polyHasFn(const Poly &p) {
  for (auto &x : p.t) for (auto &f : g_monos[x.first].f) if (g_atoms[f.first].hasFn || g_atoms[f.first].kind == A_FN || f.second != floor(f.second)) return true;
  return false;
}
static uint32_t compAtom(PP p) {
  size_t h = phash(*p);
  for (uint32_t i : g_compIx[h]) if (psame(*g_atoms[i].p, *p)) return i;
  Atom a; a.kind = A_COMP; a.fn = 0; a.e = 0; a.p = p; a.hasFn = polyHasFn(*p);
  pinterval(*p, a.lo, a.hi);
  g_atoms.push_back(a);
  g_compIx[h].push_back(g_atoms.size() - 1);
  return g_atoms.size() - 1;
}
static uint32_t fnAtom(uint8_t fn, PP p, PP q) {
  size_t h = phash(*p) * 31 + fn + (q ? phash(*q) * 7 : 0);
  for (uint32_t i : g_fnIx[h])
    if (g_atoms[i].fn == fn && psame(*g_atoms[i].p, *p) && (!q || psame(*g_atoms[i].p2, *q))) return i;
  Atom a; a.kind = A_FN; a.fn = fn; a.e = 0; a.p = p; a.p2 = q; a.hasFn = true;
  double l, u; pinterval(*p, l, u);
  a.lo = -INFINITY; a.hi = INFINITY;
  switch (fn) {
    case F_SIN: case F_COS:
      a.lo = -1; a.hi = 1;
      if (std::isfinite(l) && std::isfinite(u) && u - l < 3) {
        double x = fn == F_SIN ? sin(l) : cos(l), y = fn == F_SIN ? sin(u) : cos(u);
        double off = fn == F_SIN ? M_PI / 2 : 0;
        a.lo = min(x, y); a.hi = max(x, y);
        // interior maxima at off + 2k pi, minima at off + pi + 2k pi
        double k = ceil((l - off) / (2 * M_PI)); if (off + 2 * M_PI * k <= u) a.hi = 1;
        k = ceil((l - off - M_PI) / (2 * M_PI)); if (off + M_PI + 2 * M_PI * k <= u) a.lo = -1;
        a.lo = max(-1.0, a.lo - 1e-14); a.hi = min(1.0, a.hi + 1e-14);
      }
      break;
    case F_EXP: a.lo = exp(l) * (1 - 1e-13); a.hi = exp(u) * (1 + 1e-13); break;
    case F_LOG: if (l > 0) { a.lo = log(l) - 1e-13 * (1 + fabs(log(l))); a.hi = log(u) + 1e-13 * (1 + fabs(log(u))); } break;
    case F_ATAN: a.lo = atan(l) - 1e-14; a.hi = atan(u) + 1e-14; break;
    case F_ASIN: a.lo = -1.5707963267949; a.hi = 1.5707963267949; break;
    case F_ACOS: a.lo = 0; a.hi = 3.1415926535898; break;
    case F_ATAN2: a.lo = -3.1415926535898; a.hi = 3.1415926535898; break;
  }
  g_atoms.push_back(a);
  g_fnIx[h].push_back(g_atoms.size() - 1);
  return g_atoms.size() - 1;
}
// split p = c * mono * q with q having leading coefficient +-1 and no monomial content
static void pcontent(PP p, bool keepSign, Q &c, vector<pair<uint32_t, double>> &mono, PP &q) {
  // content
  map<uint32_t, double> mn;
  bool first = true;
  for (auto &x : p->t) {
    map<uint32_t, double> cur;
    for (auto &f : g_monos[x.first].f) cur[f.first] = f.second;
    if (first) { mn = cur; first = false; }
    else {
      for (auto it = mn.begin(); it != mn.end();) {
        auto k = cur.find(it->first);
        double e = k == cur.end() ? 0 : k->second;
        it->second = min(it->second, e);
        if (it->second == 0) it = mn.erase(it); else ++it;
      }
      for (auto &k : cur) if (k.second < 0 && !mn.count(k.first)) mn[k.first] = k.second;
    }
  }
  mono.clear();
  for (auto &m : mn) {
    // below a root only factors of known sign, or even powers, may be split off
    if (keepSign && g_atoms[m.first].lo < 0 && m.second == floor(m.second) && fmod(m.second, 2) != 0) m.second -= 1;
    if (m.second != 0) mono.push_back(m);
  }
  PP r = p;
  if (!mono.empty()) {
    auto t = make_shared<Poly>();
    PP extra;
    for (auto &x : p->t) {
      vector<pair<uint32_t, double>> f;
      map<uint32_t, double> cur;
      for (auto &y : g_monos[x.first].f) cur[y.first] = y.second;
      for (auto &m : mono) { cur[m.first] -= m.second; }
      bool ex = false;
      for (auto &y : cur) if (fabs(y.second) > 1e-13) { f.push_back(y); if (g_atoms[y.first].kind == A_COMP && y.second >= 1) ex = true; }
      if (ex) extra = padd(extra ? extra : pconst(0), expandMono(f, x.second), 1);
      else t->t.push_back({internMono(f), x.second});
    }
    sort(t->t.begin(), t->t.end(), [](const pair<uint32_t, Q> &a, const pair<uint32_t, Q> &b) { return a.first < b.first; });
    r = t;
    if (extra) r = padd(r, extra, 1);
  }
  // scale: by the coefficient of largest magnitude (ties: lowest id)
  Q mx = 0; Q lead = 1;
  for (auto &x : r->t) if (fabsq(x.second) > mx * (1 + 1e-9Q)) { mx = fabsq(x.second); lead = x.second; }
  c = keepSign ? fabsq(lead) : lead;
  q = pclean(pscale(r, 1 / c));
}
// (coef * f)^r for a non-integer r: |y| must not become y
static PP powMono(const vector<pair<uint32_t, double>> &f, Q coef, double r) {
  vector<pair<uint32_t, double>> plain, odd;
  Q c = powq(fabsq(coef), (Q)r);
  PP acc = pconst(1);
  auto rnd = [](double x) { return fabs(x - round(x)) < 1e-13 ? round(x) : x; };
  for (auto &x : f) {
    const Atom at = g_atoms[x.first];
    double e = rnd(x.second * r);
    bool even = x.second == floor(x.second) && fmod(x.second, 2) == 0;
    if (at.lo >= 0 || x.second != floor(x.second) || (even && e == floor(e) && fmod(e, 2) == 0)) { plain.push_back({x.first, e}); continue; }
    if (even && at.hi <= 0 && e == floor(e)) { plain.push_back({x.first, e}); c = -c; continue; }
    if (even) {
      vector<pair<uint32_t, double>> sq = {{x.first, 2}};
      vector<pair<uint32_t, double>> h = {{compAtom(expandMono(sq, 1)), e / 2}};
      acc = pmul(acc, expandMono(h, 1));
      continue;
    }
    odd.push_back(x);
  }
  if (!odd.empty()) {
    // even parts of odd powers leave the root
    Q sg = coef < 0 ? -1 : 1;
    vector<pair<uint32_t, double>> g;
    for (auto &x : odd) {
      double e = x.second > 0 ? x.second - 1 : x.second + 1;
      if (e != 0) { vector<pair<uint32_t, double>> ev = {{x.first, e}}; acc = pmul(acc, powMono(ev, 1, r)); }
      g.push_back({x.first, x.second > 0 ? 1 : -1});
    }
    // negative first powers: multiply by the square
    for (auto &x : g) if (x.second < 0) { vector<pair<uint32_t, double>> ev = {{x.first, -2}}; acc = pmul(acc, powMono(ev, 1, r)); x.second = 1; }
    if (g.size() == 1 && g_atoms[g[0].first].hi <= 0) sg = -1;
    vector<pair<uint32_t, double>> h = {{compAtom(expandMono(g, sg)), r}};
    acc = pmul(acc, expandMono(h, 1));
  }
  return pmul(acc, expandMono(plain, c));
}
PP ppow(PP p0, double r) {
  PP p = p0;
  if (r == 0) return pconst(1);
  if (r == 1) return p;
  if (p->isConst()) return pconst(powq(p->constant(), (Q)r));
  bool integer = r == floor(r) && fabs(r) < 1e6;
  if (p->t.size() == 1) {
    Q c = p->t[0].second;
    vector<pair<uint32_t, double>> f = g_monos[p->t[0].first].f;
    if (!integer) return powMono(f, c, r);
    for (auto &x : f) { x.second *= r; if (fabs(x.second - round(x.second)) < 1e-13) x.second = round(x.second); }
    return expandMono(f, powq(c, (Q)r));
  }
  if (integer && r > 0 && r <= 12) {
    PP acc = p;
    for (int k = 1; k < (int)r; k++) acc = pmul(acc, p);
    return acc;
  }
  Q c; vector<pair<uint32_t, double>> mono; PP q;
  pcontent(p, !integer, c, mono, q);
  if (q->t.size() == 1) { // cleaned to one term
    PP one = pscale(q, c);
    PP mm = expandMono(mono, 1);
    return ppow(pmul(one, mm), r);
  }
  uint32_t a = compAtom(q);
  PP res;
  if (integer) { for (auto &x : mono) x.second *= r; res = expandMono(mono, powq(c, (Q)r)); }
  else res = powMono(mono, c, r);
  vector<pair<uint32_t, double>> fa = {{a, r}};
  return pmul(res, expandMono(fa, 1));
}
static PP plog(PP p);
static PP plogAtom(uint32_t at) {
  const Atom a = g_atoms[at];
  if (a.kind == A_FN && a.fn == F_EXP) return a.p;
  return patom(fnAtom(F_LOG, patom(at, 1), nullptr), 1);
}
static PP plog(PP p) {
  if (p->isConst()) return pconst(logq(p->constant()));
  Q c; vector<pair<uint32_t, double>> mono; PP q;
  if (p->t.size() == 1) { c = fabsq(p->t[0].second); mono = g_monos[p->t[0].first].f; q = nullptr; }
  else pcontent(p, true, c, mono, q);
  PP r = pconst(logq(c));
  for (auto &m : mono) r = padd(r, plogAtom(m.first), m.second);
  if (q && !q->isConst()) {
    if (q->t.size() == 1) r = padd(r, plog(q), 1);
    else r = padd(r, patom(fnAtom(F_LOG, patom(compAtom(q), 1), nullptr), 1), 1);
  } else if (q) r = padd(r, plog(q), 1);
  return r;
}
static PP pexp(PP p) {
  PP acc = pconst(1);
  for (auto &x : p->t) {
    if (x.first == 0) { acc = pscale(acc, expq(x.second)); continue; }
    const Mono m = g_monos[x.first];
    double c = (double)x.second;
    vector<pair<uint32_t, double>> f;
    if (fabs(c - round(c * 64) / 64) < 1e-13) c = round(c * 64) / 64;
    if (m.f.size() == 1 && m.f[0].second == 1 && g_atoms[m.f[0].first].kind == A_FN && g_atoms[m.f[0].first].fn == F_LOG) {
      PP arg = g_atoms[m.f[0].first].p; // single atom by construction
      acc = pmul(acc, ppow(arg, c));
    } else {
      f = {{fnAtom(F_EXP, pmono(x.first), nullptr), c}};
      acc = pmul(acc, expandMono(f, 1));
    }
  }
  return acc;
}
static void psincos(PP p, PP &s, PP &c, int depth = 0);
static void psincosTerm(uint32_t mono, Q coef, PP &s, PP &c) {
  if (mono == 0) { s = pconst(sinq(coef)); c = pconst(cosq(coef));
    if (fabsq(s->constant()) < 1e-15Q) s = pconst(0);
    if (fabsq(c->constant()) < 1e-15Q) c = pconst(0);
    return; }
  bool neg = coef < 0;
  if (neg) coef = -coef;
  const Mono m = g_monos[mono];
  double k = (double)coef;
  if (fabs(k - round(k)) < 1e-13 && round(k) >= 1 && round(k) <= 6) {
    long n = (long)round(k);
    PP s1, c1;
    bool inv = false;
    if (m.f.size() == 1 && m.f[0].second == 1 && g_atoms[m.f[0].first].kind == A_FN) {
      const Atom a = g_atoms[m.f[0].first];
      if (a.fn == F_ATAN) {
        PP d = ppow(padd(pconst(1), pmul(a.p, a.p), 1), -0.5);
        s1 = pmul(a.p, d); c1 = d; inv = true;
      } else if (a.fn == F_ASIN) {
        s1 = a.p; c1 = ppow(padd(pconst(1), pmul(a.p, a.p), -1), 0.5); inv = true;
      } else if (a.fn == F_ACOS) {
        c1 = a.p; s1 = ppow(padd(pconst(1), pmul(a.p, a.p), -1), 0.5); inv = true;
      } else if (a.fn == F_ATAN2) {
        PP d = ppow(padd(pmul(a.p, a.p), pmul(a.p2, a.p2), 1), -0.5);
        s1 = pmul(a.p, d); c1 = pmul(a.p2, d); inv = true;
      }
    }
    if (!inv) { s1 = patom(fnAtom(F_SIN, pmono(mono), nullptr), 1); c1 = patom(fnAtom(F_COS, pmono(mono), nullptr), 1); }
    s = s1; c = c1;
    for (long j = 1; j < n; j++) {
      PP s2 = padd(pmul(s, c1), pmul(c, s1), 1);
      PP c2 = padd(pmul(c, c1), pmul(s, s1), -1);
      s = s2; c = c2;
    }
  } else {
    PP arg = pscale(pmono(mono), coef);
    s = patom(fnAtom(F_SIN, arg, nullptr), 1); c = patom(fnAtom(F_COS, arg, nullptr), 1);
  }
  if (neg) s = pscale(s, -1);
}
static void psincos(PP p, PP &s, PP &c, int) {
  s = pconst(0); c = pconst(1);
  if (p->t.size() > 6) {
    Q lead = p->t[0].second;
    PP q = lead < 0 ? pscale(p, -1) : p;
    s = patom(fnAtom(F_SIN, q, nullptr), 1); c = patom(fnAtom(F_COS, q, nullptr), 1);
    if (lead < 0) s = pscale(s, -1);
    return;
  }
  for (auto &x : p->t) {
    PP s1, c1;
    psincosTerm(x.first, x.second, s1, c1);
    PP s2 = padd(pmul(s, c1), pmul(c, s1), 1);
    PP c2 = padd(pmul(c, c1), pmul(s, s1), -1);
    s = s2; c = c2;
  }
}
static PP patan(PP p) {
  if (p->isConst()) return pconst(atanq(p->constant()));
  if (p->t.size() == 1 && fabsq(fabsq(p->t[0].second) - 1) < 1e-14Q) {
    auto &f = g_monos[p->t[0].first].f;
    if (f.size() == 2) {
      const Atom &x = g_atoms[f[0].first], &y = g_atoms[f[1].first];
      for (int k = 0; k < 2; k++) {
        const Atom &s = k ? y : x, &c = k ? x : y;
        double es = k ? f[1].second : f[0].second, ec = k ? f[0].second : f[1].second;
        if (s.kind == A_FN && s.fn == F_SIN && es == 1 && c.kind == A_FN && c.fn == F_COS && ec == -1 && psame(*s.p, *c.p)) {
          double l, h; pinterval(*s.p, l, h);
          if (l > -M_PI / 2 && h < M_PI / 2) return pscale(s.p, p->t[0].second > 0 ? 1 : -1);
        }
      }
    }
  }
  if (p->t[0].second < 0) return pscale(patom(fnAtom(F_ATAN, pscale(p, -1), nullptr), 1), -1);
  return patom(fnAtom(F_ATAN, p, nullptr), 1);
}
static PP patan2(PP y, PP x) {
  if (y->isConst() && x->isConst()) return pconst(atan2q(y->constant(), x->constant()));
  // atan2(r sin t, r cos t) -> t when r > 0, t in (-pi,pi)
  if (y->t.size() == 1 && x->t.size() == 1) {
    PP q = pmul(y, ppow(x, -1)); // y/x as monomial
    if (q->t.size() == 1 && fabsq(fabsq(q->t[0].second) - 1) < 1e-14Q) {
      auto f = g_monos[q->t[0].first].f;
      if (f.size() == 2) {
        for (int k = 0; k < 2; k++) {
          const Atom s = g_atoms[f[k].first], c = g_atoms[f[1 - k].first];
          if (s.kind == A_FN && s.fn == F_SIN && f[k].second == 1 && c.kind == A_FN && c.fn == F_COS && f[1 - k].second == -1 && psame(*s.p, *c.p)) {
            // r = x / cos
            PP r = pmul(x, ppow(patom(f[1 - k].first, 1), -1));
            double l, h, pl, ph; pinterval(*r, l, h); pinterval(*s.p, pl, ph);
            if (l > 0 && pl > -M_PI && ph < M_PI && q->t[0].second > 0) return s.p;
          }
        }
      }
    }
  }
  // scale out a common positive factor
  double xl, xh, yl, yh;
  pinterval(*x, xl, xh); pinterval(*y, yl, yh);
  return patom(fnAtom(F_ATAN2, y, x), 1);
}
static PP pasin(PP p) {
  if (p->isConst()) return pconst(asinq(p->constant()));
  if (p->t.size() == 1 && fabsq(fabsq(p->t[0].second) - 1) < 1e-14Q) {
    auto &f = g_monos[p->t[0].first].f;
    if (f.size() == 1 && f[0].second == 1 && g_atoms[f[0].first].kind == A_FN && g_atoms[f[0].first].fn == F_SIN) {
      PP arg = g_atoms[f[0].first].p; double l, h; pinterval(*arg, l, h);
      if (l >= -M_PI / 2 - 1e-12 && h <= M_PI / 2 + 1e-12) return pscale(arg, p->t[0].second > 0 ? 1 : -1);
    }
  }
  if (p->t[0].second < 0) return pscale(patom(fnAtom(F_ASIN, pscale(p, -1), nullptr), 1), -1);
  return patom(fnAtom(F_ASIN, p, nullptr), 1);
}
static PP pacos(PP p) {
  if (p->isConst()) return pconst(acosq(p->constant()));
  return padd(pconst(M_PI_2q), pasin(p), -1);
}
static unordered_map<uint32_t, PP> g_memo;
static size_t g_memoTerms = 0;
static PP toPolyCore(Expr *e);
PP toPoly(Expr *e) {
  auto it = g_memo.find(e->id);
  if (it != g_memo.end()) return it->second;
  PP p = toPolyCore(e);
  g_memoTerms += p->t.size() + 1;
  g_memo[e->id] = p;
  return p;
}
static void gather(Expr *e, Q s, Acc &m, bool top) {
  if (!top && g_memo.count(e->id)) {
    for (auto &x : g_memo[e->id]->t) accAdd(m, x.first, x.second * s);
    return;
  }
  if (!top && e->refs > 1 && (e->op == RADD || e->op == RSUB || e->op == RNEG || e->op == RMUL || e->op == RDIV)) {
    PP p = toPoly(e);
    for (auto &x : p->t) accAdd(m, x.first, x.second * s);
    return;
  }
  switch (e->op) {
    case RADD: gather(e->a, s, m, false); gather(e->b, s, m, false); return;
    case RSUB: gather(e->a, s, m, false); gather(e->b, -s, m, false); return;
    case RNEG: gather(e->a, -s, m, false); return;
    case RMUL:
      if (e->a->op == RCONST) { gather(e->b, s * (Q)e->a->d, m, false); return; }
      if (e->b->op == RCONST) { gather(e->a, s * (Q)e->b->d, m, false); return; }
      break;
    case RDIV:
      if (e->b->op == RCONST) { gather(e->a, s / (Q)e->b->d, m, false); return; }
      break;
    case RCONST: if (e->d != 0) accAdd(m, 0, s * (Q)e->d); return;
  }
  PP p = top ? nullptr : toPoly(e);
  if (top) {
    switch (e->op) {
      case RMUL: p = pmul(toPoly(e->a), toPoly(e->b)); break;
      case RDIV: p = pmul(toPoly(e->a), ppow(toPoly(e->b), -1)); break;
      default: abort();
    }
  }
  for (auto &x : p->t) accAdd(m, x.first, x.second * s);
}
static PP toPolyCore(Expr *e) {
  internMono({});
  switch (e->op) {
    case RCONST: return pconst(e->d);
    case RVAR: case RITE: return patom(varAtom(e), 1);
    case RFROMINT: {
      // linear integer structure is kept visible
      return patom(varAtom(e), 1);
    }
    case RADD: case RSUB: case RNEG: case RMUL: case RDIV: {
      Acc m;
      gather(e, 1, m, true);
      return fromAcc(m);
    }
    case RFN: {
      PP a = toPoly(e->a);
      switch (e->fn) {
        case F_SIN: { PP s, c; psincos(a, s, c); return s; }
        case F_COS: { PP s, c; psincos(a, s, c); return c; }
        case F_TAN: { PP s, c; psincos(a, s, c); return pmul(s, ppow(c, -1)); }
        case F_ASIN: return pasin(a);
        case F_ACOS: return pacos(a);
        case F_ATAN: return patan(a);
        case F_ATAN2: return patan2(a, toPoly(e->b));
        case F_EXP: return pexp(a);
        case F_LOG: return plog(a);
        case F_LOG10: return pscale(plog(a), 1 / logq(10));
        case F_SQRT: return ppow(a, 0.5);
        case F_CBRT: return ppow(a, 1.0 / 3.0);
        case F_POW: {
          PP b = toPoly(e->b);
          if (b->isConst()) return ppow(a, (double)b->constant());
          return pexp(pmul(b, plog(a)));
        }
        case F_SINH: { PP x = pexp(a), y = pexp(pscale(a, -1)); return pscale(padd(x, y, -1), 0.5Q); }
        case F_COSH: { PP x = pexp(a), y = pexp(pscale(a, -1)); return pscale(padd(x, y, 1), 0.5Q); }
        case F_TANH: { PP x = pexp(pscale(a, 2)); return pmul(padd(x, pconst(1), -1), ppow(padd(x, pconst(1), 1), -1)); }
        default: return patom(varAtom(e), 1);
      }
    }
  }
  fprintf(stderr, "toPoly: bad op %d\n", e->op);
  abort();
}
PP pclear(PP p, double &dlo, double &dhi) {
  dlo = dhi = 1;
  for (int it = 0; it < 12; it++) {
    map<uint32_t, double> neg;
    for (auto &x : p->t)
      for (auto &f : g_monos[x.first].f)
        if (g_atoms[f.first].kind == A_COMP && f.second < 0) { double &v = neg[f.first]; v = min(v, f.second); }
    if (neg.empty()) break;
    // pick the atom created last (outermost)
    auto pr = *neg.rbegin();
    double l, h, a, b;
    powint(g_atoms[pr.first].lo, g_atoms[pr.first].hi, -pr.second, l, h);
    imulr(dlo, dhi, l, h, a, b); dlo = a; dhi = b;
    // multiply every monomial by atom^k
    Acc m;
    for (auto &x : p->t) {
      vector<pair<uint32_t, double>> f;
      bool seen = false;
      for (auto &y : g_monos[x.first].f) {
        if (y.first == pr.first) { seen = true; double e = y.second - pr.second; if (fabs(e) < 1e-13) continue; if (fabs(e - round(e)) < 1e-13) e = round(e); f.push_back({y.first, e}); }
        else f.push_back(y);
      }
      if (!seen) { f.push_back({pr.first, -pr.second}); sort(f.begin(), f.end()); }
      PP e = expandMono(f, x.second);
      for (auto &z : e->t) accAdd(m, z.first, z.second);
      if (m.size() > MAXTERMS) throw PolyLimit();
    }
    p = fromAcc(m);
  }
  return p;
}
string pshow(const Poly &p, size_t maxTerms) {
  string s;
  size_t n = 0;
  vector<pair<uint32_t, Q>> t = p.t;
  sort(t.begin(), t.end(), [](const pair<uint32_t, Q> &a, const pair<uint32_t, Q> &b) { return fabsq(a.second) > fabsq(b.second); });
  for (auto &x : t) {
    if (n++ >= maxTerms) { s += " + ..(" + to_string(t.size()) + ")"; break; }
    char buf[64]; snprintf(buf, sizeof buf, "%s%.10g", n > 1 ? " + " : "", (double)x.second);
    s += buf;
    for (auto &f : g_monos[x.first].f) {
      const Atom &a = g_atoms[f.first];
      snprintf(buf, sizeof buf, "*%c%u", a.kind == A_VAR ? 'v' : a.kind == A_COMP ? 'C' : 'F', a.kind == A_VAR ? a.e->id : f.first);
      s += buf;
      if (a.kind == A_FN) s += "(" + to_string(a.fn) + ":" + pshow(*a.p, 4) + ")";
      if (f.second != 1) { snprintf(buf, sizeof buf, "^%g", f.second); s += buf; }
    }
  }
  return s.empty() ? "0" : s;
}
