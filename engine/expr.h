// Expression DAG, intervals, polynomial normal form.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
typedef __float128 Q;
typedef __int128 i128;

enum Sort : uint8_t { S_REAL, S_INT, S_BOOL };
enum Op : uint8_t {
  RCONST, RVAR, RADD, RSUB, RMUL, RDIV, RNEG, RFN, RITE, RFROMINT,
  ICONST, IVAR, IADD, ISUB, IMUL, ITDIV, ITREM, IFDIV, IMODP, IITE, IFROMREAL, IFLOOR, IB2I, IBVOP, IWRAP, IU,
  BCONST, BEQI, BLTI, BLEI, BEQR, BLTR, BLER, BAND, BOR, BNOT, BITE
};
enum Fn : uint8_t {
  F_SIN = 1, F_COS, F_TAN, F_ASIN, F_ACOS, F_ATAN, F_ATAN2, F_EXP, F_LOG, F_LOG10, F_POW, F_SQRT, F_FABS, F_FLOOR,
  F_CEIL, F_FMOD, F_SINH, F_COSH, F_TANH, F_FMIN, F_FMAX, F_ROUND, F_CBRT, F_TRUNC, F_FMA, F_COPYSIGN, F_POWI
};
struct Expr {
  uint8_t op, sort, fn, width;
  uint32_t id, refs;
  Expr *a, *b, *c;
  union { double d; long long i; };
  double lo, hi;   // real interval
  i128 ilo, ihi;   // int interval
};

struct Engine; // fwd

extern std::vector<Expr *> g_nodes;
Expr *mk(uint8_t op, uint8_t sort, uint8_t fn, uint8_t width, Expr *a, Expr *b, Expr *c, long long iv);
Expr *rconst(double d);
Expr *iconst(long long v);
Expr *bconst(bool b);
Expr *rop(uint8_t op, Expr *a, Expr *b);
Expr *rfn(uint8_t fn, Expr *a, Expr *b);
Expr *rfromint(Expr *e);
Expr *bnot(Expr *e);
Expr *band(Expr *a, Expr *b);
Expr *bor(Expr *a, Expr *b);
Expr *cmpR(uint8_t op, Expr *a, Expr *b); // BEQR BLTR BLER
Expr *cmpI(uint8_t op, Expr *a, Expr *b);
double evalReal(Expr *e, std::vector<double> &memo, std::vector<char> &have, std::unordered_map<uint32_t, double> &rv,
                std::unordered_map<uint32_t, long long> &iv);

// ---- polynomials
struct Poly {
  std::vector<std::pair<uint32_t, Q>> t; // monomial id -> coef, sorted
  bool isConst() const { return t.empty() || (t.size() == 1 && t[0].first == 0); }
  Q constant() const { for (auto &p : t) if (p.first == 0) return p.second; return 0; }
};
typedef std::shared_ptr<const Poly> PP;
struct Mono {
  std::vector<std::pair<uint32_t, double>> f; // atom, exponent
  double lo, hi;
  bool hasComp;
};
enum AtomKind : uint8_t { A_VAR, A_COMP, A_FN };
struct Atom {
  uint8_t kind, fn;
  Expr *e;        // A_VAR
  PP p, p2;       // A_COMP base / A_FN args
  double lo, hi;
  bool hasFn;     // contains transcendental parts
};
extern std::vector<Mono> g_monos;
extern std::vector<Atom> g_atoms;
PP toPoly(Expr *e);
PP padd(PP a, PP b, Q sb);
PP pmul(PP a, PP b);
PP pscale(PP a, Q s);
PP ppow(PP a, double r);
PP pconst(Q c);
void pinterval(const Poly &p, double &lo, double &hi);
std::string pshow(const Poly &p, size_t maxTerms = 12);
// multiply out composite denominators; returns numerator, sets den interval
PP pclear(PP p, double &dlo, double &dhi);
struct PolyLimit {};
