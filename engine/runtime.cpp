// tsym runtime: symbolic semantics of the instrumented code, path exploration
// (fork per feasible branch side), and the solver queries that decide claims.
#include "expr.h"
#include <algorithm>
#include <csignal>
#include <exception>
#include <execinfo.h>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include <fcntl.h>
#include <quadmath.h>
#include <z3++.h>
using namespace std;
bool evalBoolTop(Expr *e, vector<double> &memo, vector<char> &have, unordered_map<uint32_t, double> &rv,
                 unordered_map<uint32_t, long long> &iv);
long long evalIntTop(Expr *e, vector<double> &memo, vector<char> &have, unordered_map<uint32_t, double> &rv,
                     unordered_map<uint32_t, long long> &iv);
void ts_harness(int, char **);
extern "C" { Expr *__ts_arg[64]; Expr *__ts_ret[64]; }

// ------------------------------------------------------------------ shared state
struct Label { char name[120]; int kind; volatile long n, ok, bad, und; };
struct Shared {
  volatile long active, paths, branches, forks, queries, claims, proved, viol, und, unsup, skipped, killed, incomplete,
      solver_us, dust, lra, nra, valid, validbad, asserts, infeas, concs, candpts;
  volatile long nfn, nlab, lock;
  const char *fns[8192];
  Label lab[2048];
};
static Shared *SH;
static int NPAR = 8;
static long MAXPATHS = 2000000;
static double DEADLINE = 1e18;
static bool g_ownslot = false, g_diverged = false, g_ended = false, g_inharness = false;
static vector<pid_t> g_kids;
static int g_log = -1;
static const uint64_t SX = 0x500000000000ULL;
static double now() { timeval t; gettimeofday(&t, 0); return t.tv_sec + 1e-6 * t.tv_usec; }
#define INC(x) __sync_fetch_and_add(&SH->x, 1)
#define ADD(x, n) __sync_fetch_and_add(&SH->x, (long)(n))
static void lockS() { while (__sync_lock_test_and_set(&SH->lock, 1)) usleep(20); }
static void unlockS() { __sync_lock_release(&SH->lock); }
static Label *label(const char *n, int kind) {
  static unordered_map<string, Label *> cache;
  string key = string(1, 'a' + kind) + n;
  auto it = cache.find(key);
  if (it != cache.end()) return it->second;
  lockS();
  Label *r = nullptr;
  for (long i = 0; i < SH->nlab; i++)
    if (SH->lab[i].kind == kind && !strncmp(SH->lab[i].name, n, 119)) { r = &SH->lab[i]; break; }
  if (!r && SH->nlab < 2047) {
    r = &SH->lab[SH->nlab];
    strncpy(r->name, n, 119); r->kind = kind;
    SH->nlab++;
  }
  if (!r) r = &SH->lab[2047];
  unlockS();
  return cache[key] = r;
}
static void touch(const char *fn) {
  static const char *last = nullptr;
  if (fn == last || !fn) return;
  last = fn;
  static set<const char *> seen;
  if (!seen.insert(fn).second) return;
  lockS();
  bool f = false;
  for (long i = 0; i < SH->nfn; i++) if (SH->fns[i] == fn) { f = true; break; }
  if (!f && SH->nfn < 8191) { SH->fns[SH->nfn] = fn; SH->nfn++; }
  unlockS();
}
static string jesc(const string &s) {
  string r;
  for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; }
  return r;
}
static void logline(const string &s) { string t = s + "\n"; if (write(g_log, t.data(), t.size()) < 0) {} }

// ------------------------------------------------------------------ inputs
struct Var { string name; Expr *e; bool real; double lo, hi, seed; long ilo, ihi, iseed; };
static vector<Var> g_vars;
static map<string, int> g_cnt;
static unordered_map<uint32_t, int> g_varOf;
static unordered_map<uint32_t, double> g_seedR;
static unordered_map<uint32_t, long long> g_seedI;
static double hash01(const string &s) {
  unsigned long h = 1469598103934665603UL;
  for (char c : s) { h ^= (unsigned char)c; h *= 1099511628211UL; }
  h ^= h >> 33; h *= 0xff51afd7ed558ccdUL; h ^= h >> 33;
  return (double)(h >> 11) / 9007199254740992.0;
}
static string uniq(const char *n) {
  int k = g_cnt[n]++;
  return k == 0 ? string(n) : string(n) + "#" + to_string(k);
}

// ------------------------------------------------------------------ z3
static z3::context *Z;
static z3::solver *S; // path condition
static vector<Expr *> g_pc;
static unordered_map<Expr *, bool> g_known;
static unordered_map<uint32_t, unsigned> zmI; // node id -> index in zvec
static vector<z3::expr> zvec;
static vector<z3::expr> g_side; // side constraints not yet asserted
static unordered_map<uint32_t, unsigned> zmAtom, zmMono;
static map<pair<uint32_t, double>, unsigned> zmPow;
static string ratOf(double d) {
  // exact rational of a double
  if (d == 0) return "0";
  int ex; double m = frexp(d, &ex);
  long long mi = (long long)ldexp(m, 53); ex -= 53;
  while ((mi & 1) == 0) { mi >>= 1; ex++; }
  // build with z3 numerals
  char buf[64]; snprintf(buf, sizeof buf, "%lld", mi);
  if (ex == 0) return buf;
  // 2^|ex| as decimal string
  static map<int, string> p2;
  int k = abs(ex);
  auto it = p2.find(k);
  if (it == p2.end()) {
    string s = "1";
    for (int i = 0; i < k; i++) {
      int c = 0; 
      for (int j = (int)s.size() - 1; j >= 0; j--) { int v = (s[j] - '0') * 2 + c; s[j] = '0' + v % 10; c = v / 10; }
      if (c) s = char('0' + c) + s;
    }
    it = p2.emplace(k, s).first;
  }
  if (ex < 0) return string(buf) + "/" + it->second;
  // integer: mi * 2^ex ; leave as product through z3
  return string("*") + buf + "*" + it->second;
}
static z3::expr zreal(double d) {
  string s = ratOf(d);
  if (s[0] == '*') {
    size_t p = s.find('*', 1);
    return (Z->real_val(s.substr(1, p - 1).c_str()) * Z->real_val(s.substr(p + 1).c_str())).simplify();
  }
  return Z->real_val(s.c_str());
}
static z3::expr zint128(i128 v) {
  bool n = v < 0; unsigned __int128 u = n ? -(unsigned __int128)v : (unsigned __int128)v;
  string s; do { s = char('0' + (int)(u % 10)) + s; u /= 10; } while (u);
  if (n) s = "-" + s;
  return Z->int_val(s.c_str());
}
static z3::expr zP(const Poly &p);
static z3::expr zI(Expr *e);
static z3::expr zB(Expr *e);
static z3::expr zRvar(Expr *e); // A_VAR atoms
static void bound(z3::expr v, double lo, double hi) {
  if (std::isfinite(lo)) g_side.push_back(v >= zreal(lo));
  if (std::isfinite(hi)) g_side.push_back(v <= zreal(hi));
}
static z3::expr zAtom(uint32_t a) {
  auto it = zmAtom.find(a);
  if (it != zmAtom.end()) return zvec[it->second];
  const Atom at = g_atoms[a];
  z3::expr v(*Z);
  if (at.kind == A_VAR) v = zRvar(at.e);
  else {
    v = Z->real_const(("a" + to_string(a)).c_str());
    bound(v, at.lo, at.hi);
  }
  zmAtom[a] = zvec.size(); zvec.push_back(v);
  if (at.kind == A_COMP) g_side.push_back(v == zP(*at.p));
  if (at.kind == A_FN && (at.fn == F_SIN || at.fn == F_COS)) {
    for (size_t i = 0; i < g_atoms.size(); i++)
      if (i != a && g_atoms[i].kind == A_FN && g_atoms[i].fn == (at.fn == F_SIN ? F_COS : F_SIN) && g_atoms[i].p == at.p && zmAtom.count(i)) {
        z3::expr o = zvec[zmAtom[i]];
        g_side.push_back(v * v + o * o == 1);
      }
  }
  return v;
}
static z3::expr zPow(uint32_t a, double e) {
  if (e == 1) return zAtom(a);
  z3::expr b = zAtom(a);
  if (e == floor(e) && e > 0 && e <= 16) { z3::expr r = b; for (int k = 1; k < (int)e; k++) r = r * b; return r; }
  auto key = make_pair(a, e);
  auto it = zmPow.find(key);
  if (it != zmPow.end()) return zvec[it->second];
  z3::expr v = Z->real_const(("p" + to_string(zmPow.size()) + "_" + to_string(a)).c_str());
  zmPow.emplace(key, zvec.size()); zvec.push_back(v);
  vector<pair<uint32_t, double>> f = {{a, e}};
  double lo = g_atoms[a].lo, hi = g_atoms[a].hi, x, y;
  // interval of atom^e through a one-monomial polynomial
  (void)x; (void)y;
  double l, h;
  if (lo > 0) { l = min(pow(lo, e), pow(hi, e)); h = max(pow(lo, e), pow(hi, e)); l *= 1 - 1e-14; h *= 1 + 1e-14; }
  else if (e > 0 && e != floor(e)) { l = 0; h = pow(max(hi, 0.0), e) * (1 + 1e-14); }
  else { l = -INFINITY; h = INFINITY; }
  bound(v, l, h);
  double two = e * 2;
  if (e == floor(e) && e < 0 && e >= -8) { z3::expr r = v; for (int k = 0; k < (int)-e; k++) r = r * b; g_side.push_back(r == 1); }
  else if (two == floor(two) && fabs(two) <= 8) {
    z3::expr r = v * v;
    int n = (int)fabs(two);
    if (two > 0) { z3::expr q2 = b; for (int k = 1; k < n; k++) q2 = q2 * b; g_side.push_back(r == q2); }
    else { for (int k = 0; k < n; k++) r = r * b; g_side.push_back(r == 1); }
    g_side.push_back(v >= 0);
  }
  return v;
}
static z3::expr zMono(uint32_t m) {
  auto it = zmMono.find(m);
  if (it != zmMono.end()) return zvec[it->second];
  const Mono mo = g_monos[m];
  z3::expr r(*Z); bool first = true;
  for (auto &f : mo.f) { z3::expr x = zPow(f.first, f.second); r = first ? x : r * x; first = false; }
  if (first) r = Z->real_val(1);
  zmMono[m] = zvec.size(); zvec.push_back(r);
  return r;
}
static z3::expr zP(const Poly &p) {
  z3::expr_vector v(*Z);
  for (auto &x : p.t) {
    if (x.first == 0) v.push_back(zreal((double)x.second));
    else v.push_back(zreal((double)x.second) * zMono(x.first));
  }
  if (v.empty()) return Z->real_val(0);
  return z3::sum(v);
}
static z3::expr zRvar(Expr *e) {
  switch (e->op) {
    case RVAR: {
      z3::expr v = Z->real_const(("r" + to_string(e->id)).c_str());
      bound(v, e->lo, e->hi);
      return v;
    }
    case RFROMINT: return z3::to_real(zI(e->a));
    case RITE: return z3::ite(zB(e->a), zP(*toPoly(e->b)), zP(*toPoly(e->c)));
    default: {
      z3::expr v = Z->real_const(("x" + to_string(e->id)).c_str());
      bound(v, e->lo, e->hi);
      return v;
    }
  }
}
static z3::expr zpow2(int k) { return zint128((i128)1 << k); }
static z3::expr zI(Expr *e) {
  auto it = zmI.find(e->id);
  if (it != zmI.end()) return zvec[it->second];
  z3::expr r(*Z);
  auto fdiv = [&](z3::expr a, long long d) { return d > 0 ? z3::expr(*Z, Z3_mk_div(*Z, a, Z->int_val((int64_t)d))) : z3::expr(*Z, Z3_mk_div(*Z, -a, Z->int_val((int64_t)-d))); };
  switch (e->op) {
    case ICONST: r = Z->int_val((int64_t)e->i); break;
    case IVAR: {
      r = Z->int_const(("i" + to_string(e->id)).c_str());
      g_side.push_back(r >= zint128(e->ilo)); g_side.push_back(r <= zint128(e->ihi));
      break;
    }
    case IADD: r = zI(e->a) + zI(e->b); break;
    case ISUB: r = zI(e->a) - zI(e->b); break;
    case IMUL: r = zI(e->a) * zI(e->b); break;
    case ITDIV: {
      z3::expr a = zI(e->a), b = zI(e->b);
      if (e->b->op == ICONST && e->a->ilo >= 0 && e->b->i > 0) r = z3::expr(*Z, Z3_mk_div(*Z, a, b));
      else {
        z3::expr q = z3::expr(*Z, Z3_mk_div(*Z, z3::ite(a >= 0, a, -a), z3::ite(b >= 0, b, -b)));
        r = z3::ite((a >= 0) == (b >= 0), q, -q);
      }
      break;
    }
    case ITREM: {
      z3::expr a = zI(e->a), b = zI(e->b);
      if (e->b->op == ICONST && e->a->ilo >= 0 && e->b->i > 0) r = z3::mod(a, b);
      else {
        z3::expr m = z3::mod(z3::ite(a >= 0, a, -a), z3::ite(b >= 0, b, -b));
        r = z3::ite(a >= 0, m, -m);
      }
      break;
    }
    case IFDIV: r = fdiv(zI(e->a), e->b->i); break;
    case IMODP: r = z3::mod(zI(e->a), Z->int_val((int64_t)e->i)); break;
    case IITE: r = z3::ite(zB(e->a), zI(e->b), zI(e->c)); break;
    case IFROMREAL: {
      z3::expr x = zP(*toPoly(e->a));
      z3::expr f = z3::expr(*Z, Z3_mk_real2int(*Z, x));
      if (e->a->lo >= 0) r = f;
      else r = z3::ite(x >= 0, f, -z3::expr(*Z, Z3_mk_real2int(*Z, -x)));
      break;
    }
    case IFLOOR: r = z3::expr(*Z, Z3_mk_real2int(*Z, zP(*toPoly(e->a)))); break;
    case IB2I: r = z3::ite(zB(e->a), Z->int_val(1), Z->int_val(0)); break;
    case IWRAP: {
      z3::expr h = zpow2(e->width - 1);
      r = z3::mod(zI(e->a) + h, zpow2(e->width)) - h;
      break;
    }
    case IU: { z3::expr a = zI(e->a); r = z3::ite(a < 0, a + zpow2(e->width), a); break; }
    case IBVOP: {
      z3::expr a = z3::expr(*Z, Z3_mk_int2bv(*Z, e->width, zI(e->a))), b = z3::expr(*Z, Z3_mk_int2bv(*Z, e->width, zI(e->b)));
      z3::expr q(*Z);
      switch (e->fn) {
        case 0: q = a & b; break; case 1: q = a | b; break; case 2: q = a ^ b; break;
        case 3: q = z3::shl(a, b); break; case 4: q = z3::lshr(a, b); break; default: q = z3::ashr(a, b);
      }
      r = z3::expr(*Z, Z3_mk_bv2int(*Z, q, true));
      break;
    }
    default: fprintf(stderr, "zI: op %d\n", e->op); abort();
  }
  zmI[e->id] = zvec.size(); zvec.push_back(r);
  return r;
}
static z3::expr zB(Expr *e) {
  auto it = zmI.find(e->id);
  if (it != zmI.end()) return zvec[it->second];
  z3::expr r(*Z);
  switch (e->op) {
    case BCONST: r = Z->bool_val(e->i != 0); break;
    case BEQI: r = zI(e->a) == zI(e->b); break;
    case BLTI: r = zI(e->a) < zI(e->b); break;
    case BLEI: r = zI(e->a) <= zI(e->b); break;
    case BEQR: case BLTR: case BLER: {
      PP p = padd(toPoly(e->a), toPoly(e->b), -1);
      // scale to unit size
      double mx = 0; for (auto &x : p->t) mx = max(mx, fabs((double)x.second));
      if (mx > 0 && std::isfinite(mx)) p = pscale(p, (Q)(1 / exp2(round(log2(mx)))));
      z3::expr x = zP(*p);
      r = e->op == BEQR ? x == 0 : e->op == BLTR ? x < 0 : x <= 0;
      break;
    }
    case BAND: r = zB(e->a) && zB(e->b); break;
    case BOR: r = zB(e->a) || zB(e->b); break;
    case BNOT: r = !zB(e->a); break;
    case BITE: r = z3::ite(zB(e->a), zB(e->b), zB(e->c)); break;
    default: fprintf(stderr, "zB: op %d\n", e->op); abort();
  }
  zmI[e->id] = zvec.size(); zvec.push_back(r);
  return r;
}
static void flushSide() {
  // must be called at base level only
  for (auto &c : g_side) S->add(c);
  g_side.clear();
}
static void setRlimit(z3::solver &s, unsigned rl) {
  z3::params p(*Z); p.set("rlimit", rl); s.set(p);
}
static z3::check_result zcheck(z3::solver &s, unsigned rl) {
  setRlimit(s, rl);
  double t = now();
  z3::check_result r = z3::unknown;
  try { r = s.check(); } catch (z3::exception &ex) { r = z3::unknown; }
  INC(queries);
  ADD(solver_us, (now() - t) * 1e6);
  if (getenv("TS_TRACE") && now() - t > 0.3) fprintf(stderr, "slow query %.2fs -> %d\n%s\n", now() - t, (int)r, s.to_smt2().c_str());
  return r;
}
static unsigned RL_BRANCH = 3000000, RL_CLAIM = 30000000;

// truth of e on the current path without the solver: 1 / 0 / -1
static int quick(Expr *e) {
  if (e->op == BCONST) return e->i != 0;
  auto it = g_known.find(e);
  if (it != g_known.end()) return it->second;
  if (e->op == BNOT) { int q = quick(e->a); return q < 0 ? -1 : !q; }
  if (e->op == BAND) { int a = quick(e->a), b = quick(e->b); if (a == 0 || b == 0) return 0; if (a == 1 && b == 1) return 1; return -1; }
  if (e->op == BOR) { int a = quick(e->a), b = quick(e->b); if (a == 1 || b == 1) return 1; if (a == 0 && b == 0) return 0; return -1; }
  if (e->op == BLTR || e->op == BLER || e->op == BEQR) {
    try {
      PP p = padd(toPoly(e->a), toPoly(e->b), -1);
      double lo, hi; pinterval(*p, lo, hi);
      if (p->t.empty()) return e->op == BLTR ? 0 : 1;
      if (e->op == BEQR) { if (lo > 0 || hi < 0) return 0; return -1; }
      if (hi < 0) return 1;
      if (lo > 0) return 0;
      if (e->op == BLTR && lo >= 0) return 0;
      if (e->op == BLER && hi <= 0) return 1;
    } catch (PolyLimit &) { }
  }
  return -1;
}
static void know(Expr *e, bool v) {
  g_known[e] = v;
  if (e->op == BNOT) know(e->a, !v);
  else if (e->op == BAND && v) { know(e->a, true); know(e->b, true); }
  else if (e->op == BOR && !v) { know(e->a, false); know(e->b, false); }
  else if (e->op == BLTI && v) { Expr *r = cmpI(BLTI, e->b, e->a); if (r->op != BCONST) g_known[r] = false; }
}
static void assertPC(Expr *e) {
  if (e->op == BCONST) return;
  know(e, true);
  g_pc.push_back(e);
  try { z3::expr z = zB(e); flushSide(); S->add(z); } catch (PolyLimit &) { INC(incomplete); }
}
// feasibility of pc && e : sat / unsat / unknown
static z3::check_result feasible(Expr *e, unsigned rl = 0) {
  if (e->op == BCONST && !e->i) return z3::unsat;
  z3::check_result r = z3::unknown;
  try {
    z3::expr z = zB(e);
    flushSide();
    S->push();
    S->add(z);
    r = zcheck(*S, rl ? rl : RL_BRANCH);
    S->pop();
  } catch (PolyLimit &) { }
  return r;
}

// ------------------------------------------------------------------ models / candidates
typedef vector<pair<string, string>> Assign;
struct Point { unordered_map<uint32_t, double> r; unordered_map<uint32_t, long long> i; };
static string num17(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
static double zval(const z3::expr &v) {
  if (v.is_numeral()) {
    string s = v.get_decimal_string(40);
    return strtod(s.c_str(), 0);
  }
  if (v.is_algebraic()) { string s = Z3_get_numeral_decimal_string(*Z, v, 30); return strtod(s.c_str(), 0); }
  return 0;
}
static void fromModel(z3::model &m, Point &pt) {
  for (auto &v : g_vars) {
    if (v.real) {
      double d = v.seed;
      z3::func_decl f = Z->function(("r" + to_string(v.e->id)).c_str(), 0, nullptr, Z->real_sort());
      if (m.has_interp(f)) d = zval(m.get_const_interp(f));
      d = min(max(d, v.lo), v.hi);
      pt.r[v.e->id] = d;
    } else {
      long d = v.iseed;
      z3::func_decl f = Z->function(("i" + to_string(v.e->id)).c_str(), 0, nullptr, Z->int_sort());
      if (m.has_interp(f)) { string s = m.get_const_interp(f).to_string(); if (s[0] == '(') { s = s.substr(3); d = -strtol(s.c_str(), 0, 10); } else d = strtol(s.c_str(), 0, 10); }
      pt.i[v.e->id] = d;
    }
  }
}
static Point seedPoint() { Point p; p.r = g_seedR; p.i = g_seedI; return p; }
static Assign toAssign(Point &p) {
  Assign a;
  for (auto &v : g_vars) a.push_back({v.name, v.real ? num17(p.r[v.e->id]) : to_string(p.i[v.e->id])});
  return a;
}
static unsigned long g_rng = 88172645463325252UL;
static double rnd() { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return (g_rng >> 11) / 9007199254740992.0; }
static bool pcHolds(Point &p, vector<double> &memo, vector<char> &have) {
  for (Expr *e : g_pc) if (!evalBoolTop(e, memo, have, p.r, p.i)) return false;
  return true;
}
static string assignJson(const Assign &a) {
  string s = "{";
  for (size_t i = 0; i < a.size(); i++) s += (i ? ", \"" : "\"") + jesc(a[i].first) + "\": \"" + a[i].second + "\"";
  return s + "}";
}
static bool getModelPoint(Point &p) {
  // a point of the current path
  z3::check_result r = zcheck(*S, RL_CLAIM);
  if (r == z3::sat) { z3::model m = S->get_model(); fromModel(m, p); return true; }
  p = seedPoint();
  return false;
}
static void report(const char *kind, const string &what, const Assign &a, const string &detail) {
  Label *l = label(what.c_str(), 0);
  long k = __sync_fetch_and_add(&l->bad, 1);
  INC(viol);
  if (k < 4)
    logline(string("{\"type\": \"violation\", \"kind\": \"") + kind + "\", \"what\": \"" + jesc(what) + "\", \"detail\": \"" +
            jesc(detail) + "\", \"assign\": " + assignJson(a) + "}");
}
static void undecided(const string &what, const string &why) {
  Label *l = label(what.c_str(), 0);
  long k = __sync_fetch_and_add(&l->und, 1);
  INC(und);
  if (k < 3) logline("{\"type\": \"undecided\", \"what\": \"" + jesc(what) + "\", \"detail\": \"" + jesc(why) + "\"}");
}

// ------------------------------------------------------------------ near-claims
struct Near { Expr *d; PP p; double tol; string what; double nd; bool haveN; };
static vector<Near> g_near;
// candidate search by evaluating the encoding at points of the input box
static bool candidate(Near &n, Assign &out, string &det, z3::model *m) {
  vector<Point> pts;
  if (m) { Point p; fromModel(*m, p); pts.push_back(p); }
  pts.push_back(seedPoint());
  int K = 60;
  for (int k = 0; k < K; k++) {
    Point p;
    int mode = k % 4;
    for (auto &v : g_vars) {
      if (v.real) {
        double t = rnd();
        if (mode == 1) t = t < 0.5 ? 0 : 1;
        if (mode == 2) t = 0.5 + 0.02 * (t - 0.5);
        p.r[v.e->id] = v.lo + (v.hi - v.lo) * t;
      } else p.i[v.e->id] = v.ilo + (long)((double)(v.ihi - v.ilo + 1) * rnd() * 0.9999999);
    }
    pts.push_back(p);
  }
  // points satisfying the path condition's integer part: from the solver
  if (!g_pc.empty()) {
    Point q; 
    if (getModelPoint(q)) {
      pts.insert(pts.begin(), q);
      // same integers, random reals
      for (int k = 0; k < 30; k++) {
        Point p = q;
        for (auto &v : g_vars) if (v.real && (k % 3 == 0 || rnd() < 0.5)) p.r[v.e->id] = k < 15 ? v.lo + (v.hi - v.lo) * rnd() : min(v.hi, max(v.lo, p.r[v.e->id] + (v.hi - v.lo) * 1e-3 * (rnd() - 0.5)));
        pts.push_back(p);
      }
    }
  }
  double best = -1; Point bp;
  int good = 0;
  for (auto &p : pts) {
    vector<double> memo; vector<char> have;
    INC(candpts);
    if (!pcHolds(p, memo, have)) continue;
    good++;
    double v = evalReal(n.d, memo, have, p.r, p.i);
    double ex = std::isnan(v) ? 1e300 : fabs(v) - n.tol;
    if (ex > 0 && ex > best) { best = ex; bp = p; if (best > 50 * n.tol && good > 3) break; }
  }
  if (best <= 0) { det = "no counterexample among " + to_string(good) + " points"; return false; }
  out = toAssign(bp);
  det = "|difference| exceeds tolerance " + num17(n.tol) + " by " + num17(best);
  return true;
}
// relaxation: monomials are independent bounded variables
static z3::expr relaxed(z3::solver &s, const Poly &p, unordered_map<uint32_t, unsigned> &mv, vector<z3::expr> &vs, double scale) {
  z3::expr_vector v(*Z);
  for (auto &x : p.t) {
    if (x.first == 0) { v.push_back(zreal((double)x.second * scale)); continue; }
    const Mono &m = g_monos[x.first];
    auto it = mv.find(x.first);
    if (it == mv.end()) {
      z3::expr e = Z->real_const(("m" + to_string(x.first)).c_str());
      if (std::isfinite(m.lo)) s.add(e >= zreal(m.lo));
      if (std::isfinite(m.hi)) s.add(e <= zreal(m.hi));
      it = mv.emplace(x.first, vs.size()).first;
      vs.push_back(e);
    }
    v.push_back(zreal((double)x.second * scale) * vs[it->second]);
  }
  if (v.empty()) return Z->real_val(0);
  return z3::sum(v);
}
static void settle(Near &n, bool holds) {
  if (holds) { INC(proved); __sync_fetch_and_add(&label(n.what.c_str(), 0)->ok, 1); }
}
static void decideNear(Near &n) {
  // 1. candidate at concrete points first (cheap): finds real failures fast
  Assign a; string det;
  if (candidate(n, a, det, nullptr)) { report("near", n.what, a, det + "; difference = " + pshow(*n.p, 6)); return; }
  // 2. cleared denominators, relaxed
  try {
    double dl, dh;
    PP q = pclear(n.p, dl, dh);
    double dm = (dl > 0) ? dl : (dh < 0 ? -dh : 0);
    if (dm > 0 && q != n.p) {
      z3::solver s(*Z); unordered_map<uint32_t, unsigned> mv; vector<z3::expr> vs;
      z3::expr e = relaxed(s, *q, mv, vs, 1.0 / (n.tol * dm));
      s.add(e > 1 || e < -1);
      INC(lra);
      if (zcheck(s, RL_CLAIM) == z3::unsat) { settle(n, true); return; }
    }
  } catch (PolyLimit &) { }
  // 3. full nonlinear query with the path condition
  try {
    z3::expr e = zP(*pscale(n.p, (Q)(1.0 / n.tol)));
    flushSide();
    S->push();
    S->add(e > 1 || e < -1);
    INC(nra);
    z3::check_result r = zcheck(*S, RL_CLAIM);
    if (r == z3::unsat) { S->pop(); settle(n, true); return; }
    if (r == z3::sat) {
      z3::model m = S->get_model();
      S->pop();
      if (candidate(n, a, det, &m)) { report("near", n.what, a, det); return; }
      // solver says sat on the abstraction: let the real code decide
      Point p; fromModel(m, p);
      report("near-model", n.what, toAssign(p), "solver model; difference = " + pshow(*n.p, 6));
      return;
    }
    S->pop();
  } catch (PolyLimit &) { }
  undecided(n.what, "difference = " + pshow(*n.p, 8));
}
static void flushNear() {
  if (g_near.empty()) return;
  vector<Near> w; w.swap(g_near);
  // batches of relaxed queries
  function<void(size_t, size_t)> rec = [&](size_t b, size_t e) {
    z3::solver s(*Z);
    unordered_map<uint32_t, unsigned> mv; vector<z3::expr> vs;
    z3::expr_vector ors(*Z);
    for (size_t k = b; k < e; k++) {
      Near &n = w[k];
      double lo, hi; pinterval(*n.p, lo, hi);
      z3::expr x(*Z);
      if (fabs(lo) < n.tol * 0.5 && fabs(hi) < n.tol * 0.5) {
        // rounding residue only: one bounded variable
        INC(dust);
        x = Z->real_const(("d" + to_string(k)).c_str());
        s.add(x >= zreal(lo / n.tol)); s.add(x <= zreal(hi / n.tol));
      } else x = relaxed(s, *n.p, mv, vs, 1.0 / n.tol);
      ors.push_back(x > 1 || x < -1);
    }
    s.add(z3::mk_or(ors));
    INC(lra);
    z3::check_result r = zcheck(s, RL_CLAIM);
    if (r == z3::unsat) { for (size_t k = b; k < e; k++) settle(w[k], true); return; }
    if (e - b == 1) { decideNear(w[b]); return; }
    size_t m = (b + e) / 2;
    rec(b, m); rec(m, e);
  };
  // separate obviously non-dust claims into small batches
  vector<Near> dust, big;
  for (auto &n : w) {
    double lo, hi; pinterval(*n.p, lo, hi);
    if (fabs(lo) < n.tol * 0.5 && fabs(hi) < n.tol * 0.5) dust.push_back(n); else big.push_back(n);
  }
  w = dust; if (!w.empty()) rec(0, w.size());
  for (auto &n : big) {
    if (label(n.what.c_str(), 0)->bad > 3) { INC(skipped); continue; }
    w = {n}; rec(0, 1);
  }
}

// ------------------------------------------------------------------ exploration
static void endPath() {
  if (g_ended) return;
  g_ended = true;
  flushNear();
  INC(paths);
  if (g_ownslot) __sync_fetch_and_sub(&SH->active, 1);
  for (pid_t k : g_kids) {
    int st = 0; waitpid(k, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { INC(killed); INC(incomplete); logline("{\"type\": \"incomplete\", \"what\": \"child process died, status " + to_string(st) + "\"}"); }
  }
}
static bool g_root = true;
static void rootSummary();
[[noreturn]] static void finish() {
  endPath();
  if (g_root) rootSummary();
  fflush(stdout);
  _exit(0);
}
[[noreturn]] static void giveUp(const char *why) {
  INC(incomplete);
  Label *l = label(why, 3);
  if (__sync_fetch_and_add(&l->n, 1) < 3) logline(string("{\"type\": \"incomplete\", \"what\": \"") + jesc(why) + "\"}");
  g_near.clear();
  finish();
}
// returns true in the child
static bool forkPath() {
  flushNear();
  if (SH->paths + SH->forks > MAXPATHS && SH->paths > MAXPATHS) giveUp("path budget exhausted");
  if (now() > DEADLINE) giveUp("time budget exhausted");
  fflush(stdout); fflush(stderr);
  INC(forks);
  bool slot = false;
  long a = SH->active;
  while (a < NPAR) { if (__sync_bool_compare_and_swap(&SH->active, a, a + 1)) { slot = true; break; } a = SH->active; }
  pid_t p = fork();
  if (p < 0) { if (slot) __sync_fetch_and_sub(&SH->active, 1); giveUp("fork failed"); }
  if (p == 0) {
    g_kids.clear(); g_ownslot = slot; g_root = false;
    g_rng ^= (unsigned long)getpid() * 0x9e3779b97f4a7c15UL;
    return true;
  }
  if (slot) {
    g_kids.push_back(p);
  } else {
    int st = 0; waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { INC(killed); INC(incomplete); logline("{\"type\": \"incomplete\", \"what\": \"child process died, status " + to_string(st) + "\"}"); }
  }
  return false;
}
static bool decide(Expr *e, int native) {
  int q = quick(e);
  if (q >= 0) return q;
  INC(branches);
  bool pref = native != 0;
  Expr *ne = bnot(e);
  Expr *first = pref ? e : ne, *second = pref ? ne : e;
  bool f1 = g_diverged ? feasible(first) != z3::unsat : true; // on the seed path the native side is feasible
  if (!f1) { know(second, true); return !pref; }
  bool f2 = feasible(second) != z3::unsat;
  if (!f2) { know(first, true); return pref; }
  if (forkPath()) {
    g_diverged = true;
    assertPC(second);
    return !pref;
  }
  assertPC(first);
  return pref;
}

// ------------------------------------------------------------------ helpers for values
static Expr *realOf(Expr *s, long v) {
  if (s) {
    if (s->sort != S_REAL) return nullptr;
    return s;
  }
  double d; memcpy(&d, &v, 8);
  return rconst(d);
}
static Expr *intOf(Expr *s, long v) {
  if (s) {
    if (s->sort == S_BOOL) return mk(IB2I, S_INT, 0, 0, s, 0, 0, 0);
    return s;
  }
  return iconst(v);
}
static Expr *boolOf(Expr *s, long v) {
  if (!s) return bconst(v != 0);
  if (s->sort == S_BOOL) return s;
  return bnot(cmpI(BEQI, s, iconst(0)));
}
static void unsup(const string &what, const char *fn) {
  INC(unsup);
  Label *l = label((what + " in " + (fn ? fn : "?")).c_str(), 4);
  if (__sync_fetch_and_add(&l->n, 1) < 2)
    logline("{\"type\": \"unsupported\", \"what\": \"" + jesc(what) + "\", \"fn\": \"" + jesc(fn ? fn : "") + "\"}");
}
static Expr *wrap(Expr *e, int w) {
  if (w >= 64) { // 64-bit: assume the mathematical value unless the interval leaves the range
    i128 lo = -((i128)1 << 63), hi = ((i128)1 << 63) - 1;
    if (e->ilo >= lo && e->ihi <= hi) return e;
    return mk(IWRAP, S_INT, 0, 64, e, 0, 0, 0);
  }
  i128 lo = -((i128)1 << (w - 1)), hi = ((i128)1 << (w - 1)) - 1;
  if (e->ilo >= lo && e->ihi <= hi) return e;
  if (e->op == IWRAP && e->width >= w) return wrap(e->a, w);
  return mk(IWRAP, S_INT, 0, w, e, 0, 0, 0);
}
static Expr *uns(Expr *e, int w) {
  if (e->ilo >= 0) return e;
  if (e->op == IWRAP && e->width == w && e->a->ilo >= 0 && e->a->ihi < ((i128)1 << w)) return e->a;
  return mk(IU, S_INT, 0, w, e, 0, 0, 0);
}
static Expr *iop(uint8_t op, Expr *a, Expr *b) {
  if (a->op == ICONST && b->op == ICONST) {
    long long x = a->i, y = b->i; i128 r = 0; bool ok = true;
    switch (op) {
      case IADD: r = (i128)x + y; break; case ISUB: r = (i128)x - y; break; case IMUL: r = (i128)x * y; break;
      case ITDIV: if (y) r = x / y; else ok = false; break; case ITREM: if (y) r = x % y; else ok = false; break;
      case IFDIV: { if (!y) { ok = false; break; } r = x / y; if (x % y != 0 && ((x < 0) != (y < 0))) r--; break; }
      default: ok = false;
    }
    if (ok && r >= INT64_MIN && r <= INT64_MAX) return iconst((long long)r);
  }
  if (op == IADD) { if (a->op == ICONST && a->i == 0) return b; if (b->op == ICONST && b->i == 0) return a;
    if (a->op == ICONST) swap(a, b);
    if (b->op == ICONST && a->op == IADD && a->b->op == ICONST) return iop(IADD, a->a, iconst(a->b->i + b->i));
  }
  if (op == ISUB) { if (b->op == ICONST && b->i == 0) return a; if (a == b) return iconst(0);
    if (b->op == ICONST && b->i != INT64_MIN) return iop(IADD, a, iconst(-b->i)); }
  if (op == IMUL) {
    if (a->op == ICONST) swap(a, b);
    if (b->op == ICONST) { if (b->i == 0) return b; if (b->i == 1) return a; }
  }
  if ((op == ITDIV || op == IFDIV) && b->op == ICONST && b->i == 1) return a;
  if (op == ITDIV && b->op == ICONST && b->i > 0 && a->ilo >= 0) op = IFDIV;
  if (op == ITREM && b->op == ICONST && b->i > 0 && a->ilo >= 0) return a->ihi < b->i ? a : mk(IMODP, S_INT, 0, 0, a, 0, 0, b->i);
  return mk(op, S_INT, 0, 0, a, b, 0, 0);
}
// number of known trailing zero bits
static int tz(Expr *e) {
  switch (e->op) {
    case ICONST: return e->i ? __builtin_ctzll(e->i) : 63;
    case IMUL: return min(63, tz(e->a) + tz(e->b));
    case IADD: case ISUB:
      if (e->op == ISUB && e->b->op == IMODP && e->b->a == e->a) { int k = 0; long long m = e->b->i; while (m > 1 && !(m & 1)) { m >>= 1; k++; } return k; }
      return min(tz(e->a), tz(e->b));
    case IITE: return min(tz(e->b), tz(e->c));
    case IWRAP: return tz(e->a);
  }
  return 0;
}
static bool pow2(long v, int &k) { if (v <= 0 || (v & (v - 1))) return false; k = __builtin_ctzl(v); return true; }
static Expr *modp(Expr *a, long long m) {
  if (a->ilo >= 0 && a->ihi < m) return a;
  return mk(IMODP, S_INT, 0, 0, a, 0, 0, m);
}
static bool branchE(Expr *e, int native, const char *fn) { touch(fn); return decide(e, native); }
static void claimBool(Expr *e, const char *what, const char *kind, int native);

// opcode numbers of LLVM 18
enum { L_Add = 13, L_FAdd, L_Sub, L_FSub, L_Mul, L_FMul, L_UDiv, L_SDiv, L_FDiv, L_URem, L_SRem, L_FRem, L_Shl, L_LShr, L_AShr, L_And, L_Or, L_Xor };
enum { L_Trunc = 38, L_ZExt, L_SExt, L_FPToUI, L_FPToSI, L_UIToFP, L_SIToFP, L_FPTrunc, L_FPExt, L_PtrToInt, L_IntToPtr, L_BitCast };

static Expr *fmodE(Expr *x, Expr *y) {
  Expr *q = rop(RDIV, x, y);
  Expr *t = rfromint(mk(IFROMREAL, S_INT, 0, 64, q, 0, 0, 0));
  return rop(RSUB, x, rop(RMUL, y, t));
}
extern "C" {
Expr *__ts_bin(int op, int kind, int flags, Expr *sa, long va, Expr *sb, long vb, const char *fn) {
  touch(fn);
  if (kind >= 100) {
    Expr *a = realOf(sa, va), *b = realOf(sb, vb);
    if (!a || !b) { unsup("float op on an integer expression", fn); return nullptr; }
    Expr *r;
    switch (op) {
      case L_FAdd: r = rop(RADD, a, b); break;
      case L_FSub: r = rop(RSUB, a, b); break;
      case L_FMul: r = rop(RMUL, a, b); break;
      case L_FDiv: r = rop(RDIV, a, b); break;
      case L_FRem: r = fmodE(a, b); break;
      default: unsup("float bin " + to_string(op), fn); return nullptr;
    }
    return r->op == RCONST ? r : r;
  }
  if ((sa && sa->sort == S_REAL) || (sb && sb->sort == S_REAL)) { unsup("int op " + to_string(op) + " on a real expression", fn); return nullptr; }
  if (kind == 1) {
    Expr *a = boolOf(sa, va), *b = boolOf(sb, vb);
    switch (op) {
      case L_And: return band(a, b);
      case L_Or: return bor(a, b);
      case L_Xor: case L_Add: case L_Sub: 
        if (b->op == BCONST) return b->i ? bnot(a) : a;
        if (a->op == BCONST) return a->i ? bnot(b) : b;
        return bor(band(a, bnot(b)), band(bnot(a), b));
      case L_Mul: return band(a, b);
    }
    unsup("bool bin " + to_string(op), fn); return nullptr;
  }
  Expr *a = intOf(sa, va), *b = intOf(sb, vb);
  int k;
  switch (op) {
    case L_Add: return wrap(iop(IADD, a, b), kind);
    case L_Sub: return wrap(iop(ISUB, a, b), kind);
    case L_Mul: return wrap(iop(IMUL, a, b), kind);
    case L_SDiv: case L_SRem: case L_UDiv: case L_URem: {
      if (b->op != ICONST && b->ilo <= 0 && b->ihi >= 0) {
        Expr *z = cmpI(BEQI, b, iconst(0));
        claimBool(bnot(z), (string("integer division by zero in ") + fn).c_str(), "divzero", 1);
        assertPC(bnot(z));
      }
      if (op == L_UDiv || op == L_URem) { a = uns(a, kind); b = uns(b, kind); }
      return iop(op == L_SDiv || op == L_UDiv ? ITDIV : ITREM, a, b);
    }
    case L_Shl:
      if (b->op == ICONST && b->i < 62) return wrap(iop(IMUL, a, iconst(1LL << b->i)), kind);
      break;
    case L_AShr:
      if (b->op == ICONST && b->i < 62) return iop(IFDIV, a, iconst(1LL << b->i));
      break;
    case L_LShr:
      if (b->op == ICONST && b->i < 62) return iop(IFDIV, uns(a, kind), iconst(1LL << b->i));
      break;
    case L_And:
      if (a->op == ICONST) swap(a, b);
      if (b->op == ICONST) {
        if (b->i == 0) return b;
        if (b->i == -1) return a;
        if (pow2(b->i + 1, k)) return modp(a, b->i + 1);
        if (b->i < 0 && pow2(-b->i, k)) return iop(ISUB, a, modp(a, 1LL << k));
        // single bit or contiguous mask
        if (pow2(b->i, k)) return iop(IMUL, modp(iop(IFDIV, a, iconst(1LL << k)), 2), iconst(1LL << k));
      }
      break;
    case L_Or:
      if (a->op == ICONST) swap(a, b);
      if (b->op == ICONST && b->i == 0) return a;
      for (int sw = 0; sw < 2; sw++, swap(a, b)) {
        int t = tz(a);
        if (t > 0 && b->ilo >= 0 && b->ihi < ((i128)1 << t)) return wrap(iop(IADD, a, b), kind);
      }
      if (a->op == IB2I && b->op == IB2I) return mk(IB2I, S_INT, 0, 0, bor(a->a, b->a), 0, 0, 0);
      break;
    case L_Xor:
      if (a->op == ICONST) swap(a, b);
      if (b->op == ICONST && b->i == 0) return a;
      if (b->op == ICONST && b->i == -1) return iop(ISUB, iconst(-1), a);
      if (b->op == ICONST && b->i == 1 && a->op == IB2I) return mk(IB2I, S_INT, 0, 0, bnot(a->a), 0, 0, 0);
      break;
  }
  int c = op == L_And ? 0 : op == L_Or ? 1 : op == L_Xor ? 2 : op == L_Shl ? 3 : op == L_LShr ? 4 : 5;
  return mk(IBVOP, S_INT, c, kind, a, b, 0, 0);
}
Expr *__ts_fneg(Expr *s) { if (s->sort != S_REAL) { unsup("fneg", ""); return nullptr; } return rop(RNEG, s, 0); }
Expr *__ts_cmp(int pred, int kind, Expr *sa, long va, Expr *sb, long vb, const char *fn) {
  touch(fn);
  if (kind >= 100) {
    Expr *a = realOf(sa, va), *b = realOf(sb, vb);
    if (!a || !b) { unsup("fcmp on integer expression", fn); return nullptr; }
    if ((a->op == RCONST && !std::isfinite(a->d)) || (b->op == RCONST && !std::isfinite(b->d))) {
      double x = a->op == RCONST ? a->d : 0, y = b->op == RCONST ? b->d : 0;
      bool r;
      switch (pred & 7) { case 1: r = x == y; break; case 2: r = x > y; break; case 3: r = x >= y; break; case 4: r = x < y; break; case 5: r = x <= y; break; case 6: r = x != y; break; case 7: r = true; break; default: r = false; }
      return bconst(r);
    }
    switch (pred & 7) { // FCMP: oeq 1, ogt 2, oge 3, olt 4, ole 5, one 6, ord 7; +8 unordered
      case 0: return bconst(pred == 15 ? true : false);
      case 1: return cmpR(BEQR, a, b);
      case 2: return cmpR(BLTR, b, a);
      case 3: return cmpR(BLER, b, a);
      case 4: return cmpR(BLTR, a, b);
      case 5: return cmpR(BLER, a, b);
      case 6: return bnot(cmpR(BEQR, a, b));
      case 7: return bconst(true);
    }
  }
  if ((sa && sa->sort == S_REAL) || (sb && sb->sort == S_REAL)) { unsup("icmp on a real expression", fn); return nullptr; }
  if (kind == 1) {
    Expr *a = boolOf(sa, va), *b = boolOf(sb, vb);
    Expr *x = bor(band(a, bnot(b)), band(bnot(a), b));
    if (pred == 32) return bnot(x);
    if (pred == 33) return x;
  }
  Expr *a = intOf(sa, va), *b = intOf(sb, vb);
  if (pred >= 34 && pred <= 37) { a = uns(a, kind); b = uns(b, kind); }
  switch (pred) { // ICMP eq 32 ne ugt uge ult ule sgt sge slt sle
    case 32: return cmpI(BEQI, a, b);
    case 33: return bnot(cmpI(BEQI, a, b));
    case 34: case 38: return cmpI(BLTI, b, a);
    case 35: case 39: return cmpI(BLEI, b, a);
    case 36: case 40: return cmpI(BLTI, a, b);
    case 37: case 41: return cmpI(BLEI, a, b);
  }
  unsup("icmp", fn);
  return nullptr;
}
Expr *__ts_cast(int op, int sk, int dk, Expr *s, const char *fn) {
  switch (op) {
    case L_FPExt: case L_FPTrunc: return s;
    case L_SIToFP: case L_UIToFP: {
      if (s->sort == S_REAL) { unsup("itofp of real", fn); return nullptr; }
      Expr *e = intOf(s, 0);
      if (op == L_SIToFP && sk == 1) e = iop(ISUB, iconst(0), e);
      if (op == L_UIToFP) e = uns(e, sk);
      return rfromint(e);
    }
    case L_FPToSI: case L_FPToUI:
      if (s->sort != S_REAL) { unsup("fptoi", fn); return nullptr; }
      if (s->op == RFROMINT) return s->a;
      if (s->op == RCONST) return iconst((long long)s->d);
      return mk(IFROMREAL, S_INT, 0, dk, s, 0, 0, 0);
  }
  if (s->sort == S_REAL) {
    if (op == L_BitCast) return s;
    unsup("int cast of a real expression", fn); return nullptr;
  }
  switch (op) {
    case L_Trunc:
      if (dk == 1) { if (s->sort == S_BOOL) return s; if (s->op == IB2I) return s->a; return bnot(cmpI(BEQI, modp(intOf(s, 0), 2), iconst(0))); }
      return wrap(intOf(s, 0), dk);
    case L_ZExt:
      if (s->sort == S_BOOL) return intOf(s, 0);
      return uns(s, sk);
    case L_SExt:
      if (s->sort == S_BOOL) return iop(ISUB, iconst(0), intOf(s, 0));
      return s;
    default: return s;
  }
}
Expr *__ts_select(int kind, Expr *sc, Expr *st, long vt, Expr *sf, long vf) {
  if (kind == 1) {
    Expr *t = boolOf(st, vt), *f = boolOf(sf, vf);
    return bor(band(sc, t), band(bnot(sc), f));
  }
  if (kind >= 100 || (st && st->sort == S_REAL) || (sf && sf->sort == S_REAL)) {
    Expr *t = realOf(st, vt), *f = realOf(sf, vf);
    if (!t || !f) return nullptr;
    if (sc->op == BCONST) return sc->i ? t : f;
    return mk(RITE, S_REAL, 0, 0, sc, t, f, 0);
  }
  Expr *t = intOf(st, vt), *f = intOf(sf, vf);
  if (sc->op == BCONST) return sc->i ? t : f;
  if (t == f) return t;
  if (t->op == ICONST && f->op == ICONST && t->i == 1 && f->i == 0) return mk(IB2I, S_INT, 0, 0, sc, 0, 0, 0);
  if (t->op == ICONST && f->op == ICONST && t->i == 0 && f->i == 1) return mk(IB2I, S_INT, 0, 0, bnot(sc), 0, 0, 0);
  return mk(IITE, S_INT, 0, 0, sc, t, f, 0);
}
int __ts_branch(Expr *s, int native, const char *fn) {
  Expr *e = boolOf(s, 0);
  return branchE(e, native & 1, fn);
}
// concretise: fork over the feasible values
static long concretise(Expr *e, long native) {
  if (e->op == ICONST) return e->i;
  if (e->ilo == e->ihi) return (long)e->ilo;
  INC(concs);
  bool fresh = e->op == IVAR && e->refs == 0;
  if (fresh) {
    long lo = (long)e->ilo, hi = (long)e->ihi;
    long keep = native >= lo && native <= hi ? native : lo;
    for (long v = lo; v <= hi; v++) {
      if (v == keep) continue;
      if (forkPath()) { g_diverged = true; assertPC(cmpI(BEQI, e, iconst(v))); return v; }
    }
    assertPC(cmpI(BEQI, e, iconst(keep)));
    return keep;
  }
  // general: enumerate models
  bool first = true;
  for (int n = 0; n < 4096; n++) {
    long v; 
    Expr *eqn = cmpI(BEQI, e, iconst(native));
    if (first && !g_diverged) { v = native; }
    else {
      z3::expr z = zI(e);
      flushSide();
      z3::check_result r = zcheck(*S, RL_CLAIM);
      if (r == z3::unsat) { if (n == 0) { INC(infeas); finish(); } finish(); }
      if (r == z3::unknown) { giveUp("solver gave no value for an index"); }
      z3::model m = S->get_model();
      string s = m.eval(z, true).to_string();
      if (s[0] == '(') { s = s.substr(3); v = -strtol(s.c_str(), 0, 10); } else v = strtol(s.c_str(), 0, 10);
    }
    (void)eqn;
    Expr *eq = cmpI(BEQI, e, iconst(v));
    if (eq->op == BCONST && eq->i) return v;
    // other values?
    if (feasible(bnot(eq), RL_CLAIM) == z3::unsat) { assertPC(eq); if (v != native) g_diverged = true; return v; }
    if (first && !g_diverged) {
      // the seed path keeps the native value: explore the others in a child
      first = false;
      if (forkPath()) { g_diverged = true; assertPC(bnot(eq)); continue; }
      assertPC(eq);
      return v;
    }
    first = false;
    if (forkPath()) { if (v != native) g_diverged = true; assertPC(eq); return v; }
    assertPC(bnot(eq));
  }
  giveUp("more than 4096 values for an index");
}
long __ts_conc(Expr *s, long v, int kind, const char *fn) {
  touch(fn);
  if (s->sort == S_REAL) { unsup("index from a real expression", fn); return v; }
  if (kind == 1) return decide(boolOf(s, v), v & 1);
  return concretise(intOf(s, v), v);
}
long __ts_switch(Expr *s, long v, int kind, int n, long *vals, const char *fn) {
  touch(fn);
  Expr *e = intOf(s, v);
  if (e->op == ICONST) return e->i;
  for (int k = 0; k < n; k++) {
    Expr *c = cmpI(BEQI, e, iconst(vals[k]));
    if (decide(c, v == vals[k])) return vals[k];
  }
  // default
  for (long d = v;; d++) {
    bool in = false;
    for (int k = 0; k < n; k++) if (vals[k] == d) in = true;
    if (!in) return d;
  }
}
// ------------------------------------------------------------------ memory
struct Block { Expr *e[8]; uint8_t off[8], sz[8]; };
static inline uint64_t *slot(uint64_t a) { return (uint64_t *)((a & ~7ULL) ^ SX); }
struct BS { Expr *e; uint8_t off, sz; };
static inline BS getb(uint64_t a) {
  uint64_t s = *slot(a);
  if (!s) return {nullptr, 0, 0};
  if (s & 1) { Block *b = (Block *)(s & ~1ULL); int k = a & 7; return {b->e[k], b->off[k], b->sz[k]}; }
  return {(Expr *)s, (uint8_t)(a & 7), 8};
}
static void setGranule(uint64_t g, BS *b) { // 8 entries
  bool any = false, full = b[0].e != nullptr;
  for (int k = 0; k < 8; k++) { if (b[k].e) any = true; if (b[k].e != b[0].e || b[k].off != k || b[k].sz != 8) full = false; }
  uint64_t *s = slot(g);
  if (!any) { if (*s) *s = 0; return; }
  if (full) { *s = (uint64_t)b[0].e; return; }
  Block *n = new Block;
  for (int k = 0; k < 8; k++) { n->e[k] = b[k].e; n->off[k] = b[k].off; n->sz[k] = b[k].sz; }
  *s = (uint64_t)n | 1;
}
static void setBytes(uint64_t a, int n, const BS *b) {
  while (n > 0) {
    uint64_t g = a & ~7ULL; int o = a & 7, m = min(8 - o, n);
    BS t[8];
    for (int k = 0; k < 8; k++) t[k] = (k >= o && k < o + m) ? b[k - o] : getb(g + k);
    setGranule(g, t);
    a += m; b += m; n -= m;
  }
}
static void zeroBytes(uint64_t a, uint64_t n) {
  BS z[8]; memset(z, 0, sizeof z);
  while (n > 0) {
    uint64_t g = a & ~7ULL; int o = a & 7; uint64_t m = min<uint64_t>(8 - o, n);
    uint64_t *s = slot(g);
    if (*s) { if (m == 8) *s = 0; else setBytes(a, m, z); }
    a += m; n -= m;
  }
}
Expr *__ts_load(void *p, int size, int kind, const char *fn) {
  uint64_t a = (uint64_t)p;
  BS b[8];
  if (size > 8) return nullptr;
  bool any = false, whole = true;
  for (int k = 0; k < size; k++) { b[k] = getb(a + k); if (b[k].e) any = true; }
  if (!any) return nullptr;
  for (int k = 0; k < size; k++) if (b[k].e != b[0].e || b[k].off != k || b[k].sz != size) whole = false;
  if (whole) {
    Expr *e = b[0].e;
    if (kind == 1) return boolOf(e, 0);
    return e;
  }
  // composed of bytes
  Expr *acc = nullptr;
  for (int k = 0; k < size; k++) {
    Expr *t;
    if (!b[k].e) t = iconst(((unsigned char *)p)[k]);
    else {
      if (b[k].e->sort == S_REAL) { unsup("partial access to a real value", fn); return nullptr; }
      Expr *e = intOf(b[k].e, 0);
      e = uns(e, b[k].sz * 8);
      if (b[k].off) e = iop(IFDIV, e, iconst(1LL << (8 * b[k].off)));
      t = b[k].sz - b[k].off > 1 ? modp(e, 256) : e;
      if (b[k].sz == 1) t = e;
    }
    if (k < 7) t = iop(IMUL, t, iconst(1LL << (8 * k)));
    else { // top byte of a 64-bit word: signed
      if (t->op == ICONST) t = iconst((long long)((unsigned long long)t->i << 56));
      else { unsup("64-bit word with a symbolic top byte", fn); return nullptr; }
    }
    acc = acc ? iop(IADD, acc, t) : t;
  }
  return wrap(acc, size * 8);
}
void __ts_store(void *p, int size, int kind, Expr *s) {
  uint64_t a = (uint64_t)p;
  if (!s) { zeroBytes(a, size); return; }
  if (s->op == RCONST || s->op == ICONST || s->op == BCONST) {
    // keep: the native value may be a dummy on a diverged path
  }
  if (size > 8) { zeroBytes(a, size); return; }
  if (kind == 1 && s->sort == S_BOOL) s = intOf(s, 0);
  if (size == 8 && (a & 7) == 0) { *slot(a) = (uint64_t)s; return; }
  BS b[8];
  for (int k = 0; k < size; k++) b[k] = {s, (uint8_t)k, (uint8_t)size};
  setBytes(a, size, b);
}
void __ts_clear(void *p, long len) { if (p && len > 0) zeroBytes((uint64_t)p, len); }
void __ts_memcpy(void *dp, void *sp, long len) {
  if (len <= 0 || dp == sp) return;
  uint64_t d = (uint64_t)dp, s = (uint64_t)sp;
  // any shadow?
  bool any = false;
  for (uint64_t a = s & ~7ULL; a < s + len; a += 8) if (*slot(a)) { any = true; break; }
  if (!any) { 
    if (!((d ^ s) & 7) || len < 64) { zeroBytes(d, len); return; }
    zeroBytes(d, len); return; }
  if (((d ^ s) & 7) == 0 && (d & 7) == 0 && (len & 7) == 0) {
    if (d < s) for (long k = 0; k < len; k += 8) *slot(d + k) = *slot(s + k);
    else for (long k = len - 8; k >= 0; k -= 8) *slot(d + k) = *slot(s + k);
    return;
  }
  vector<BS> t(len);
  for (long k = 0; k < len; k++) t[k] = getb(s + k);
  long done = 0;
  while (done < len) {
    int n = (int)min<long>(len - done, 1 << 20);
    setBytes(d + done, n, &t[done]);
    done += n;
  }
}
void __ts_memset(void *p, Expr *s, long len) {
  if (len <= 0) return;
  if (!s) { zeroBytes((uint64_t)p, len); return; }
  for (long k = 0; k < len; k++) { BS b = {s, 0, 1}; setBytes((uint64_t)p + k, 1, &b); }
}
#include <malloc.h>
void *__ts_realloc(void *p, long n) {
  void *q = malloc(n ? n : 1);
  __ts_clear(q, n);
  if (p) {
    size_t o = malloc_usable_size(p); if ((long)o > n) o = n;
    __ts_memcpy(q, p, o); memcpy(q, p, o);
    free(p);
  }
  return q;
}
Expr *__ts_iabs(Expr *s, int kind) {
  Expr *e = intOf(s, 0);
  if (e->ilo >= 0) return e;
  return mk(IITE, S_INT, 0, 0, cmpI(BLTI, e, iconst(0)), iop(ISUB, iconst(0), e), e, 0);
}
Expr *__ts_iintr(int code, int kind, Expr *s0, long v0, Expr *s1, long v1) {
  if (code == 1) return __ts_iabs(s0 ? s0 : iconst(v0), kind);
  Expr *a = intOf(s0, v0), *b = intOf(s1, v1);
  if (code >= 4) { a = uns(a, kind); b = uns(b, kind); }
  Expr *c;
  switch (code) {
    case 2: case 4: c = cmpI(BLTI, a, b); return wrap(__ts_select(kind == 1 ? 32 : kind, c, b, 0, a, 0), kind);
    case 3: case 5: c = cmpI(BLTI, a, b); return wrap(__ts_select(kind == 1 ? 32 : kind, c, a, 0, b, 0), kind);
    case 7: c = cmpI(BLTI, a, b); return wrap(__ts_select(kind, c, iconst(0), 0, iop(ISUB, a, b), 0), kind);
  }
  unsup("saturating add", ""); return nullptr;
}
Expr *__ts_math(int code, Expr *s0, long v0, Expr *s1, long v1, Expr *s2, long v2, const char *fn) {
  touch(fn);
  Expr *a = nullptr, *b = nullptr;
  if (code == F_POWI) { a = realOf(s0, v0); b = s1 ? rfromint(intOf(s1, 0)) : nullptr; if (!b) { double d; memcpy(&d, &v1, 8); b = rconst(d); } code = F_POW; }
  else { a = realOf(s0, v0); b = realOf(s1, v1); }
  if (!a || !b) { unsup("math call", fn); return nullptr; }
  double nd; memcpy(&nd, &v0, 8);
  switch (code) {
    case F_FABS: {
      if (a->lo >= 0) return a;
      if (a->hi <= 0) return rop(RNEG, a, 0);
      // decide the sign
      vector<double> memo; vector<char> have;
      bool neg = decide(cmpR(BLTR, a, rconst(0)), s0 ? (nd < 0) : 0);
      return neg ? rop(RNEG, a, 0) : a;
    }
    case F_FMIN: case F_FMAX: {
      double n1; memcpy(&n1, &v1, 8);
      bool lt = decide(cmpR(BLTR, a, b), nd < n1);
      return (lt == (code == F_FMIN)) ? a : b;
    }
    case F_FLOOR: return rfromint(mk(IFLOOR, S_INT, 0, 64, a, 0, 0, 0));
    case F_CEIL: return rop(RNEG, rfromint(mk(IFLOOR, S_INT, 0, 64, rop(RNEG, a, 0), 0, 0, 0)), 0);
    case F_TRUNC: return rfromint(mk(IFROMREAL, S_INT, 0, 64, a, 0, 0, 0));
    case F_ROUND: return rfromint(mk(IFROMREAL, S_INT, 0, 64, rop(RADD, a, rconst(decide(cmpR(BLTR, a, rconst(0)), nd < 0) ? -0.5 : 0.5)), 0, 0, 0));
    case F_FMOD: return fmodE(a, b);
    case F_FMA: { Expr *c = realOf(s2, v2); if (!c) return nullptr; return rop(RADD, rop(RMUL, a, b), c); }
    case F_COPYSIGN: {
      double n1; memcpy(&n1, &v1, 8);
      bool na = decide(cmpR(BLTR, a, rconst(0)), nd < 0), nb = decide(cmpR(BLTR, b, rconst(0)), n1 < 0);
      return na == nb ? a : rop(RNEG, a, 0);
    }
    case F_POW:
      if (b->op == RCONST && b->d == 2) return rop(RMUL, a, a);
      if (b->op == RCONST && b->d == 1) return a;
      if (b->op == RCONST && b->d == 0) return rconst(1);
      if (b->op == RCONST && b->d == 3) return rop(RMUL, rop(RMUL, a, a), a);
      return rfn(F_POW, a, b);
    case F_ATAN2: return rfn(F_ATAN2, a, b);
    default:
      if (a->op == RCONST) {
        vector<double> memo; vector<char> have; unordered_map<uint32_t, double> rv; unordered_map<uint32_t, long long> iv;
        return rconst(evalReal(rfn(code, a, nullptr), memo, have, rv, iv));
      }
      return rfn(code, a, nullptr);
  }
}
void __ts_unsupported(const char *what, const char *fn) { unsup(what, fn); }
void __ts_extsym(const char *name, const char *fn) {
  if (strstr(name, "print") || strstr(name, "put")) return;
  unsup(string("symbolic argument to ") + name, fn);
}
int __ts_fmtreal(char *o, int n, const char *f, double d) { int r = snprintf(o, n, f, d); __ts_clear(o, n); return r; }
int __ts_fmtptr(char *o, int n, void *p) { int r = snprintf(o, n, "%p", p); __ts_clear(o, n); return r; }
void __ts_vastart(void *ap) {
  __ts_clear(ap, 24);
  __ts_clear(*(void **)((char *)ap + 16), 176);
}
static void *saved[64];
void __ts_saveargs() { memcpy(saved, __ts_arg, sizeof saved); }
long __ts_api_argint(int k, long v) { __ts_ret[0] = (Expr *)saved[k]; return v; }
double __ts_api_argreal(int k, double v) { __ts_ret[0] = (Expr *)saved[k]; return v; }
int __ts_memsym(void *p, long len) {
  for (uint64_t a = (uint64_t)p & ~7ULL; a < (uint64_t)p + len; a += 8) if (*slot(a)) return 1;
  return 0;
}

// ------------------------------------------------------------------ API
double __ts_api_real(const char *name, double lo, double hi) {
  Var v; v.name = uniq(name); v.real = true; v.lo = lo; v.hi = hi; v.seed = lo + (hi - lo) * hash01(v.name);
  v.e = mk(RVAR, S_REAL, 0, 0, 0, 0, 0, (long long)g_vars.size() + 1000000);
  v.e->lo = lo; v.e->hi = hi;
  g_varOf[v.e->id] = g_vars.size();
  g_seedR[v.e->id] = v.seed;
  g_vars.push_back(v);
  __ts_ret[0] = v.e;
  return v.seed;
}
long __ts_api_int(const char *name, long lo, long hi) {
  Var v; v.name = uniq(name); v.real = false; v.ilo = lo; v.ihi = hi; v.iseed = lo + (long)((double)(hi - lo) * hash01(v.name));
  if (lo == hi) { v.iseed = lo; }
  v.e = mk(IVAR, S_INT, 0, 0, 0, 0, 0, (long long)g_vars.size() + 1000000);
  v.e->ilo = lo; v.e->ihi = hi;
  g_varOf[v.e->id] = g_vars.size();
  g_seedI[v.e->id] = v.iseed;
  g_vars.push_back(v);
  __ts_ret[0] = v.e;
  return v.iseed;
}
void __ts_api_assume(bool c) {
  Expr *s = __ts_arg[0];
  if (!s) { if (!c) { INC(infeas); g_near.clear(); finish(); } return; }
  Expr *e = boolOf(s, c);
  int q = quick(e);
  if (q == 1) return;
  if (q == 0) { INC(infeas); finish(); }
  INC(asserts);
  if (feasible(e) == z3::unsat) { INC(infeas); finish(); }
  if (!c) g_diverged = true;
  flushNear();
  assertPC(e);
}
} // extern C
static void claimBool(Expr *e, const char *what, const char *kind, int native) {
  INC(claims);
  Label *l = label(what, 0);
  __sync_fetch_and_add(&l->n, 1);
  if (l->bad > 3) { INC(skipped); return; }
  int q = quick(e);
  if (q == 1) { INC(proved); __sync_fetch_and_add(&l->ok, 1); return; }
  Expr *ne = bnot(e);
  z3::check_result r = z3::unknown;
  try {
    z3::expr z = zB(ne);
    flushSide();
    S->push();
    S->add(z);
    r = zcheck(*S, RL_CLAIM);
    if (r == z3::sat) {
      z3::model m = S->get_model();
      Point p; fromModel(m, p);
      S->pop();
      vector<double> memo; vector<char> have;
      bool exact = pcHolds(p, memo, have) && evalBoolTop(ne, memo, have, p.r, p.i);
      if (!exact) {
        // try other points of the box
        for (int k = 0; k < 200 && !exact; k++) {
          Point c = p;
          for (auto &v : g_vars) if (v.real && (k % 2 || rnd() < 0.4)) c.r[v.e->id] = v.lo + (v.hi - v.lo) * rnd();
          vector<double> me; vector<char> ha;
          if (pcHolds(c, me, ha) && evalBoolTop(ne, me, ha, c.r, c.i)) { p = c; exact = true; }
        }
      }
      if (!exact && l->und == 0) { /* keep the model: the native replay decides */ }
      report(exact ? kind : "check-model", what, toAssign(p), exact ? "counterexample satisfies the encoding" : "solver model of the abstraction");
      return;
    }
    S->pop();
  } catch (PolyLimit &) { }
  if (r == z3::unsat) { INC(proved); __sync_fetch_and_add(&l->ok, 1); return; }
  // search concrete points before giving up
  for (int k = 0; k < 300; k++) {
    Point c = seedPoint();
    if (k) for (auto &v : g_vars) { if (v.real) c.r[v.e->id] = v.lo + (v.hi - v.lo) * rnd(); else c.i[v.e->id] = v.ilo + (long)((v.ihi - v.ilo + 1) * rnd() * 0.999999); }
    vector<double> me; vector<char> ha;
    if (pcHolds(c, me, ha) && evalBoolTop(ne, me, ha, c.r, c.i)) { report(kind, what, toAssign(c), "counterexample satisfies the encoding"); return; }
  }
  undecided(what, "solver gave no verdict");
}
extern "C" {
void __ts_api_check(bool c, const char *what) {
  Expr *s = __ts_arg[0];
  claimBool(s ? boolOf(s, c) : bconst(c), what, "check", c);
}
void __ts_api_near(double a, double b, double tol, const char *what) {
  Expr *sa = __ts_arg[0], *sb = __ts_arg[1], *st = __ts_arg[2];
  INC(claims);
  Label *l = label(what, 0);
  __sync_fetch_and_add(&l->n, 1);
  if (st) { unsup("symbolic tolerance", "near"); }
  if (!sa && !sb) {
    if (std::fabs(a - b) <= tol) { INC(proved); __sync_fetch_and_add(&l->ok, 1); return; }
    Point p; getModelPoint(p);
    report("near", what, toAssign(p), "concrete values " + num17(a) + " vs " + num17(b));
    return;
  }
  Near n;
  Expr *ea = sa ? sa : rconst(a), *eb = sb ? sb : rconst(b);
  if (ea->sort != S_REAL) ea = rfromint(intOf(ea, 0));
  if (eb->sort != S_REAL) eb = rfromint(intOf(eb, 0));
  n.d = rop(RSUB, ea, eb); n.tol = tol; n.what = what;
  if (!g_diverged) {
    // validation of the encoding against the concrete execution of the seed
    vector<double> memo; vector<char> have;
    double va = evalReal(ea, memo, have, g_seedR, g_seedI);
    INC(valid);
    double sc = 1e-6 * (fabs(a) + fabs(va)) + 1e-9 + 100 * tol;
    if (!(fabs(va - a) <= sc) && std::isfinite(a)) {
      long k = INC(validbad);
      if (k < 5) logline(string("{\"type\": \"encoding-mismatch\", \"what\": \"") + jesc(what) + "\", \"detail\": \"encoded " + num17(va) + " executed " + num17(a) + "\"}");
    }
  }
  if (n.d->op == RCONST) {
    if (fabs(n.d->d) <= tol) { INC(proved); __sync_fetch_and_add(&l->ok, 1); return; }
    Point p; getModelPoint(p);
    report("near", what, toAssign(p), "difference " + num17(n.d->d));
    return;
  }
  if (l->bad > 3) { INC(skipped); return; }
  try { n.p = padd(toPoly(ea), toPoly(eb), -1); }
  catch (PolyLimit &) {
    n.p = pconst(0);
    Assign as; string det;
    if (candidate(n, as, det, nullptr)) report("near", what, as, det);
    else undecided(what, "expression too large for the normal form");
    return;
  }
  if (getenv("TS_TRACE")) fprintf(stderr, "near %s: terms %zu %s\n", what, n.p->t.size(), pshow(*n.p, 5).c_str());
  g_near.push_back(n);
  if (g_near.size() >= 2000) flushNear();
}
void __ts_api_can_differ(double a, double b, double tol, const char *what) {
  Expr *sa = __ts_arg[0], *sb = __ts_arg[1];
  Label *l = label(what, 1);
  __sync_fetch_and_add(&l->n, 1);
  if (l->ok) return;
  Near n;
  n.d = rop(RSUB, sa ? sa : rconst(a), sb ? sb : rconst(b)); n.tol = tol; n.what = what;
  try { n.p = toPoly(n.d); } catch (PolyLimit &) { n.p = pconst(0); }
  Assign as; string det;
  if (candidate(n, as, det, nullptr)) __sync_fetch_and_add(&l->ok, 1);
}
long __ts_api_fix(long v) {
  Expr *s = __ts_arg[0];
  if (!s) return v;
  __ts_ret[0] = nullptr;
  return concretise(intOf(s, v), v);
}
void __ts_api_note(const char *key, long v) { Label *l = label(key, 5); if (v > l->n) l->n = v; }
void __ts_api_reach(const char *lab) { __sync_fetch_and_add(&label(lab, 2)->n, 1); }
int __ts_api_is_native(void) { return 0; }
int __ts_api_is_sym(double) { return __ts_arg[0] != nullptr; }
int __ts_api_same(double a, double b) { return __ts_arg[0] == __ts_arg[1] && (__ts_arg[0] || a == b); }
void __ts_api_skip_path(const char *why) { __sync_fetch_and_add(&label(why, 6)->n, 1); finish(); }
void __ts_api_dump(double v, const char *what) {
  Expr *s = __ts_arg[0];
  if (!s) { fprintf(stderr, "dump %s: concrete %.17g\n", what, v); return; }
  if (s->sort != S_REAL) { fprintf(stderr, "dump %s: int expr op %d [%ld..%ld]\n", what, s->op, (long)s->ilo, (long)s->ihi); return; }
  try { PP p = toPoly(s); fprintf(stderr, "dump %s: %zu terms: %s\n", what, p->t.size(), pshow(*p, 30).c_str()); }
  catch (PolyLimit &) { fprintf(stderr, "dump %s: too large\n", what); }
}
static Expr *deriv(Expr *e, Expr *x, unordered_map<uint32_t, Expr *> &m) {
  if (e == x) return rconst(1);
  if (e->op == RCONST || e->op == RVAR || e->op == RFROMINT) return rconst(0);
  auto it = m.find(e->id);
  if (it != m.end()) return it->second;
  Expr *r = nullptr;
  auto D = [&](Expr *y) { return deriv(y, x, m); };
  switch (e->op) {
    case RADD: case RSUB: r = rop(e->op, D(e->a), D(e->b)); break;
    case RNEG: r = rop(RNEG, D(e->a), 0); break;
    case RMUL: r = rop(RADD, rop(RMUL, D(e->a), e->b), rop(RMUL, e->a, D(e->b))); break;
    case RDIV: r = rop(RDIV, rop(RSUB, D(e->a), rop(RMUL, e, D(e->b))), e->b); break;
    case RITE: r = mk(RITE, S_REAL, 0, 0, e->a, D(e->b), D(e->c), 0); break;
    case RFN: {
      Expr *da = D(e->a);
      if (da->op == RCONST && da->d == 0 && (!e->b || (D(e->b)->op == RCONST && D(e->b)->d == 0))) { r = rconst(0); break; }
      switch (e->fn) {
        case F_EXP: r = rop(RMUL, e, da); break;
        case F_LOG: r = rop(RDIV, da, e->a); break;
        case F_SIN: r = rop(RMUL, rfn(F_COS, e->a, 0), da); break;
        case F_COS: r = rop(RNEG, rop(RMUL, rfn(F_SIN, e->a, 0), da), 0); break;
        case F_SQRT: r = rop(RDIV, rop(RMUL, rconst(0.5), da), e); break;
        case F_POW: if (e->b->op == RCONST) { r = rop(RMUL, rop(RMUL, e->b, rfn(F_POW, e->a, rconst(e->b->d - 1))), da); break; }
        // fallthrough
        default: unsup("derivative of function", ""); r = rconst(0);
      }
      break;
    }
    default: unsup("derivative", ""); r = rconst(0);
  }
  return m[e->id] = r;
}
double __ts_api_diff(double v, double x) {
  Expr *e = __ts_arg[0], *y = __ts_arg[1];
  if (!y || y->op != RVAR) { unsup("derivative wrt a non-input", ""); return 0; }
  if (!e) return 0;
  unordered_map<uint32_t, Expr *> m;
  Expr *d = deriv(e, y, m);
  __ts_ret[0] = d->op == RCONST ? nullptr : d;
  vector<double> memo; vector<char> have;
  return evalReal(d, memo, have, g_seedR, g_seedI);
}
void __ts_aborted(const char *why) {
  Point p; getModelPoint(p);
  INC(claims); __sync_fetch_and_add(&label("abort", 0)->n, 1);
  report("abort", string("aborted: ") + why, toAssign(p), why);
  finish();
}
}
// ------------------------------------------------------------------ main
static void rootSummary() {
  const char *f = getenv("TS_SUMMARY");
  FILE *o = f ? fopen(f, "w") : stdout;
  if (!o) return;
  Shared &s = *SH;
  fprintf(o, "{\"paths\": %ld, \"branches\": %ld, \"forks\": %ld, \"queries\": %ld, \"claims\": %ld, \"proved\": %ld, "
             "\"violations\": %ld, \"undecided\": %ld, \"unsupported\": %ld, \"skipped\": %ld, \"killed\": %ld, \"incomplete\": %ld, "
             "\"solver_s\": %.3f, \"dust\": %ld, \"lra\": %ld, \"nra\": %ld, \"validated\": %ld, \"mismatch\": %ld, \"assumes\": %ld, "
             "\"infeasible\": %ld, \"concretised\": %ld, \"points\": %ld,\n",
          s.paths, s.branches, s.forks, s.queries, s.claims, s.proved, s.viol, s.und, s.unsup, s.skipped, s.killed, s.incomplete,
          s.solver_us * 1e-6, s.dust, s.lra, s.nra, s.valid, s.validbad, s.asserts, s.infeas, s.concs, s.candpts);
  const char *kn[] = {"claim", "twin", "reach", "incomplete", "unsupported", "note", "skip"};
  for (int k = 0; k < 7; k++) {
    fprintf(o, "\"%s\": {", kn[k]);
    bool first = true;
    for (long i = 0; i < s.nlab; i++) if (s.lab[i].kind == k) {
      fprintf(o, "%s\"%s\": [%ld, %ld, %ld, %ld]", first ? "" : ", ", jesc(s.lab[i].name).c_str(), s.lab[i].n, s.lab[i].ok, s.lab[i].bad, s.lab[i].und);
      first = false;
    }
    fprintf(o, "},\n");
  }
  fprintf(o, "\"functions\": [");
  set<string> names;
  for (long i = 0; i < s.nfn; i++) names.insert(s.fns[i]);
  bool first = true;
  for (auto &n : names) { fprintf(o, "%s\"%s\"", first ? "" : ", ", jesc(n).c_str()); first = false; }
  fprintf(o, "]}\n");
  if (o != stdout) fclose(o);
}
static int g_argc; static char **g_argv;
static void crash(int sig) {
  static volatile int in = 0;
  if (in++) _exit(3);
  if (sig == SIGSEGV && getenv("TS_BT")) { void *b[40]; int n = backtrace(b, 40); backtrace_symbols_fd(b, n, 2); }
  g_near.clear();
  if (!g_inharness) { INC(incomplete); finish(); }
  Point p = seedPoint();
  try { getModelPoint(p); } catch (...) {}
  INC(claims);
  report("crash", string("crash: signal ") + to_string(sig), toAssign(p), "signal in the code under test");
  finish();
}
static void onexit() {
  if (g_ended || !g_inharness) return;
  Point p; getModelPoint(p);
  INC(claims);
  report("exit", "process exit called", toAssign(p), "exit() reached");
  finish();
}
static void body() {
  g_inharness = true;
  try { ts_harness(g_argc, g_argv); }
  catch (std::exception &e) {
    Point p; getModelPoint(p); INC(claims); label("uncaught-exception", 0)->n++;
    report("exception", "uncaught-exception", toAssign(p), e.what());
  } catch (...) {
    Point p; getModelPoint(p); INC(claims); label("uncaught-exception", 0)->n++;
    report("exception", "uncaught-exception", toAssign(p), "exception");
  }
  g_inharness = false;
  finish();
}
static void mapRegion(uint64_t lo, uint64_t len) {
  void *p = mmap((void *)lo, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p == MAP_FAILED) { perror("tsym: shadow map"); _exit(2); }
  madvise(p, len, MADV_NOHUGEPAGE);
}
// before any static constructor of instrumented code
__attribute__((constructor(101))) static void mapShadow() {
  mapRegion(0x200000000000ULL, 0x100000000000ULL);
  mapRegion(0x050000000000ULL, 0x020000000000ULL);
  mapRegion(0x500000000000ULL, 0x000400000000ULL);
}
int main(int argc, char **argv) {
  SH = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)SH, 0, sizeof *SH);
  SH->active = 1;
  if (getenv("TS_PAR")) NPAR = atoi(getenv("TS_PAR"));
  if (getenv("TS_MAXPATHS")) MAXPATHS = atol(getenv("TS_MAXPATHS"));
  if (getenv("TS_DEADLINE")) DEADLINE = now() + atof(getenv("TS_DEADLINE"));
  if (getenv("TS_RLCLAIM")) RL_CLAIM = atol(getenv("TS_RLCLAIM"));
  const char *lf = getenv("TS_LOG");
  g_log = lf ? open(lf, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644) : 2;
  g_argc = argc; g_argv = argv;
  Z = new z3::context(); S = new z3::solver(*Z);
  zvec.reserve(1 << 16);
  g_ownslot = true;
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  size_t SS = 1UL << 30;
  void *stk = mmap(0, SS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  stack_t ss; ss.ss_sp = malloc(1 << 20); ss.ss_size = 1 << 20; ss.ss_flags = 0;
  // handlers run on the harness stack (z3 needs room) except for stack overflow
  ss.ss_sp = mmap(0, 64 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); ss.ss_size = 64 << 20;
  sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = crash; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL}) sigaction(s, &sa, 0);
  atexit(onexit);
  static ucontext_t mainc, hc;
  getcontext(&hc);
  hc.uc_stack.ss_sp = stk; hc.uc_stack.ss_size = SS; hc.uc_link = &mainc;
  makecontext(&hc, body, 0);
  swapcontext(&mainc, &hc);
  finish();
}
