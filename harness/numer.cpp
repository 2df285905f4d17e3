// Quadrature rules, Legendre polynomials, Lagrange coefficients, flux corrections, small helpers.
#include "tsym.h"
#include "GaussQuadrature.h"
#include "GaussLobattoQuadrature.h"
#include "LegendrePolynomial.h"
#include "PolynomialInterp.h"
#include "FluxCorrectionFunction.h"
#include "GridSpacing.h"
#include "MathHelper.h"
#include "VerticalStretch.h"
#include "Exception.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
static std::vector<double> coefs(int n) {
  std::vector<double> a;
  for (int i = 0; i < n; i++) { char b[8]; sprintf(b, "a%d", i); a.push_back(ts_real(b, -1, 1)); }
  return a;
}
static double poly(const std::vector<double> &a, double x) { double r = 0; for (int i = a.size() - 1; i >= 0; i--) r = r * x + a[i]; return r; }
static double dpoly(const std::vector<double> &a, double x, int d) {
  double r = 0;
  for (int i = a.size() - 1; i >= d; i--) { double f = 1; for (int m = 0; m < d; m++) f *= i - m; r = r * x + f * a[i]; }
  return r;
}
static void rule(bool lob, int n) {
  DataArray1D<double> X, W;
  if (lob) GaussLobattoQuadrature::GetPoints(n, X, W); else GaussQuadrature::GetPoints(n, X, W);
  ts_check((int)X.GetRows() == n && (int)W.GetRows() == n, "one point and weight per degree");
  int deg = lob ? 2 * n - 3 : 2 * n - 1;
  std::vector<double> a = coefs(deg + 1);
  double q = 0, e = 0;
  for (int i = 0; i < n; i++) { q += W[i] * poly(a, X[i]); ts_check(W[i] > 0, "weights are positive"); ts_check(fabs(X[i]) <= 1 && (i == 0 || X[i] > X[i - 1]), "points ascend in the interval"); }
  for (int k = 0; k <= deg; k += 2) e += 2.0 / (k + 1) * a[k];
  ts_near(q, e, 1e-11, "the rule integrates polynomials exactly");
  if (lob) ts_check(X[0] == -1 && X[n - 1] == 1, "end points belong to the rule");
  // on an arbitrary interval
  double b0 = ts_real("b0", -10, 10), b1 = ts_real("b1", -10, 10);
  DataArray1D<double> Y, V;
  if (lob) GaussLobattoQuadrature::GetPoints(n, b0, b1, Y, V); else GaussQuadrature::GetPoints(n, b0, b1, Y, V);
  for (int i = 0; i < n; i++) {
    ts_near(Y[i], 0.5 * (b0 + b1) + 0.5 * (b1 - b0) * X[i], 1e-11, "points are mapped to the interval");
    ts_near(V[i], 0.5 * (b1 - b0) * W[i], 1e-11, "weights are scaled to the interval");
  }
}
static void legendre(int n) {
  double x = ts_real("x", -0.999, 0.999), p[3], d[3];
  for (int k = 0; k < 3; k++) LegendrePolynomial::EvaluateValueAndDerivative(n + k, x, p[k], d[k]);
  ts_near((n + 2) * p[2], (2 * n + 3) * x * p[1] - (n + 1) * p[0], 1e-10, "three-term recurrence");
  ts_near((1 - x * x) * d[1], (n + 1) * (p[0] - x * p[1]), 1e-9, "derivative");
  ts_near(LegendrePolynomial::Evaluate(n, x), p[0], 1e-12, "value alone");
  ts_near(LegendrePolynomial::EvaluateDerivative(n, x), d[0], 1e-12, "derivative alone");
  for (int s = -1; s <= 1; s += 2) {
    double v, w; LegendrePolynomial::EvaluateValueAndDerivative(n, s, v, w);
    ts_near(v, (s < 0 && n % 2) ? -1 : 1, 1e-10, "value at the end points");
    ts_near(w, ((s < 0 && n % 2 == 0) ? -0.5 : 0.5) * n * (n + 1), 1e-8, "derivative at the end points");
  }
  if (n >= 1 && n <= 8) {
    for (int r = 0; r < n; r++) {
      double z = LegendrePolynomial::Root(n, r);
      ts_near((x - z) * LegendrePolynomial::EvaluateDerivative(n, z) * LegendrePolynomial::EvaluateCharacteristic(n, r, x), p[0], 1e-10, "characteristic polynomial of a root");
      ts_check(r == 0 || z > LegendrePolynomial::Root(n, r - 1), "roots ascend");
    }
    double S = 0;
    for (int r = 0; r < n; r++) S += LegendrePolynomial::EvaluateCharacteristic(n, r, x);
    ts_near(S, 1, 1e-10, "characteristic polynomials add up to one");
  }
  if (n >= 1) {
    std::vector<double> R(n + 1), D(n + 1);
    LegendrePolynomial::AllRoots(n, &R[0]);
    LegendrePolynomial::AllDerivativeRoots(n, &D[0]);
    for (int r = 0; r < n; r++) { ts_near(LegendrePolynomial::Evaluate(n, R[r]), 0, 1e-9, "every root found is a root"); ts_check(r == 0 || R[r] > R[r - 1], "roots found ascend"); }
    for (int r = 0; r < n - 1; r++) { ts_near(LegendrePolynomial::EvaluateDerivative(n, D[r]), 0, 1e-8, "every extremum found is an extremum"); ts_check(r == 0 || D[r] > D[r - 1], "extrema found ascend"); }
    // the polynomial is the product over its roots
    double pr = p[0], q = 1;
    for (int r = 0; r < n; r++) q *= x - R[r];
    double lead = 1; for (int k = 1; k <= n; k++) lead *= (2.0 * k - 1) / k;
    ts_near(pr, lead * q, 1e-8, "the polynomial is the product over the roots found");
    if (n <= 8) {
      for (int r = 0; r < n; r++) ts_near(LegendrePolynomial::Root(n, r), R[r], 1e-12, "tabulated roots");
      if (n >= 2) for (int r = 0; r < n - 1; r++) ts_near(LegendrePolynomial::DerivativeRoot(n, r), D[r], 1e-12, "tabulated extrema");
      if (n >= 2) for (int r = 0; r <= n; r++) ts_near(LegendrePolynomial::DerivativeExtendedRoot(n, r), r == 0 ? -1 : r == n ? 1 : D[r - 1], 1e-12, "tabulated extrema with end points");
    }
  }
}
// unevenly spaced points in [-1,1]
static std::vector<double> points(int n, int kind) {
  std::vector<double> X(n);
  for (int i = 0; i < n; i++) X[i] = kind == 0 ? -1 + 2.0 * i / (n - 1 + (n == 1)) : kind == 1 ? -cos(M_PI * (i + 0.5) / n) + 0.02 * i : -0.9 + 1.7 * (i + 0.3 * (i % 2)) / n;
  return X;
}
static void lagrange(int n, int kind) {
  std::vector<double> X = points(n, kind), a = coefs(n), C(n), y(n);
  for (int i = 0; i < n; i++) y[i] = poly(a, X[i]);
  double x = ts_real("x", -1.2, 1.2);
  PolynomialInterp::LagrangianPolynomialCoeffs(n, &X[0], &C[0], x);
  double v = 0, one = 0;
  for (int i = 0; i < n; i++) { v += C[i] * y[i]; one += C[i]; }
  ts_near(v, poly(a, x), 1e-9, "interpolation reproduces polynomials");
  ts_near(one, 1, 1e-9, "interpolation weights add up to one");
  ts_near(PolynomialInterp::Interpolate(n, &X[0], &y[0], x), poly(a, x), 1e-9, "interpolated value");
  // derivatives at a node and at a fixed point between nodes (weights depend only on the points)
  for (int q = 0; q < n + 2; q++) {
    double z = q < n ? X[q] : q == n ? 0.05 : 1.13;
    for (int d = 1; d <= 3; d++) {
      if (d >= n + 1) continue;
      if (d == 1) PolynomialInterp::DiffLagrangianPolynomialCoeffs(n, &X[0], &C[0], z);
      if (d == 2) PolynomialInterp::DiffDiffLagrangianPolynomialCoeffs(n, &X[0], &C[0], z);
      if (d == 3) PolynomialInterp::DiffDiffDiffLagrangianPolynomialCoeffs(n, &X[0], &C[0], z);
      double s = 0;
      for (int i = 0; i < n; i++) s += C[i] * y[i];
      ts_near(s, dpoly(a, z, d), 1e-7, d == 1 ? "first derivative" : d == 2 ? "second derivative" : "third derivative");
    }
  }
}
// derivative weights at any sample point of one gap between nodes: the solver sees a rational function
static void lagdiff(int n, int kind, int gap, int d) {
  std::vector<double> X = points(n, kind), C(n);
  double x = ts_real("x", gap ? X[gap - 1] + 0.02 : X[0] - 1, gap < n ? X[gap] - 0.02 : X[n - 1] + 1);
  if (d == 1) PolynomialInterp::DiffLagrangianPolynomialCoeffs(n, &X[0], &C[0], x);
  if (d == 2) PolynomialInterp::DiffDiffLagrangianPolynomialCoeffs(n, &X[0], &C[0], x);
  if (d == 3) PolynomialInterp::DiffDiffDiffLagrangianPolynomialCoeffs(n, &X[0], &C[0], x);
  for (int m = 0; m < n; m++) {
    std::vector<double> a(n, 0.0); a[m] = 1;
    double s = 0;
    for (int i = 0; i < n; i++) s += C[i] * poly(a, X[i]);
    ts_near(s, dpoly(a, x, d), 1e-6, d == 1 ? "first derivative between nodes" : d == 2 ? "second derivative between nodes" : "third derivative between nodes");
  }
}
static void coeffs(int n, int kind) {
  std::vector<double> X = points(n, kind), a = coefs(n), y(n), A(n);
  double xm = 0.17;
  for (int i = 0; i < n; i++) y[i] = poly(a, X[i]);
  PolynomialInterp::InterpolateCoeffs(n, &X[0], &y[0], &A[0], xm);
  double x = ts_real("x", -1.2, 1.2);
  ts_near(poly(A, x - xm), poly(a, x), 1e-7, "interpolation coefficients reproduce the polynomial");
}
static void fluxcorr(int type, int n) {
  DataArray1D<double> G, W, N(n + 2), D;
  GaussQuadrature::GetPoints(n, 0.0, 1.0, G, W);
  for (int i = 0; i < n; i++) N[i] = G[i];
  double x = ts_real("x", 0, 1);
  N[n] = 0; N[n + 1] = x;
  FluxCorrectionFunction::GetDerivatives(type, n, N, D);
  std::vector<double> a = coefs(n - type + 1);
  double s = 0;
  for (int i = 0; i < n; i++) s += W[i] * D[i] * poly(a, G[i]);
  ts_near(s, poly(a, 1.0), 1e-9, "the correction lifts the value at the end point");
  if (type > 1) ts_near(D[n], 0, 1e-9, "no slope at the far end");
  // one polynomial: its value anywhere follows from the nodes
  std::vector<double> g(n), v(n);
  for (int i = 0; i < n; i++) { g[i] = G[i]; v[i] = D[i]; }
  ts_near(D[n + 1], PolynomialInterp::Interpolate(n, &g[0], &v[0], x), 1e-8, "the derivative is a polynomial of degree one less than the order");
}
static void helpers() {
  double y[4] = {ts_real("y0", -5, 5), ts_real("y1", -5, 5), ts_real("y2", -5, 5), ts_real("y3", -5, 5)};
  double t = ts_real("t", -2, 2), h = 0.7;
  // data on a polynomial is reproduced
  double L[2], Q[3], C[4];
  for (int i = 0; i < 4; i++) {
    double x = i * h;
    if (i < 2) L[i] = y[0] + y[1] * x;
    if (i < 3) Q[i] = y[0] + y[1] * x + y[2] * x * x;
    C[i] = y[0] + y[1] * x + y[2] * x * x + y[3] * x * x * x;
  }
  ts_near(LinearInterpolate(t, 0, h, L[0], L[1]), y[0] + y[1] * t, 1e-9, "linear interpolation");
  ts_near(QuadraticInterpolate(t, h, Q[0], Q[1], Q[2]), y[0] + y[1] * t + y[2] * t * t, 1e-9, "quadratic interpolation");
  ts_near(CubicInterpolate(t, h, C[0], C[1], C[2], C[3]), y[0] + y[1] * t + y[2] * t * t + y[3] * t * t * t, 1e-8, "cubic interpolation");
  double a = y[0], b = y[1], lo = y[2], hi = y[3];
  double mx = Max(a, b), mn = Min(a, b);
  ts_check((mx == a || mx == b) && mx >= a && mx >= b, "maximum");
  ts_check((mn == a || mn == b) && mn <= a && mn <= b, "minimum");
  ts_check(Sign(a) * a >= 0 && Sign(a) * Sign(a) == 1, "sign");
  ts_assume(lo <= hi);
  double cl = Clamp(a, lo, hi);
  ts_check(cl >= lo && cl <= hi && (cl == a || ((a < lo) & (cl == lo)) || ((a > hi) & (cl == hi))), "clamp");
}
static void powers(int p) {
  double x = ts_real("x", -3, 3), f = 1; for (int i = 0; i < p; i++) f *= x;
  ts_near(IPow(x, (unsigned)p), f, 1e-9, "power");
}
// monotone smooth maps of [0,1] onto itself, with their derivatives
template <class S> static void stretchOne(double x, double y, double tol, bool sym) {
  S s;
  double v, d, w, e;
  s(x, v, d); s(y, w, e);
  ts_check((int)(v >= -1e-12) & (int)(v <= 1 + 1e-12), "the stretched coordinate stays in the column");
  ts_check(w >= v - 1e-12, "levels keep their order");
  ts_check(d >= -1e-12, "the derivative is not negative");
  s(0, v, d); ts_near(v, 0, 1e-12, "the bottom stays the bottom");
  s(1, v, d); ts_near(v, 1, 1e-12, "the top stays the top");
}
static void spacing(int n) {
  DataArray1D<double> X, W;
  double dx = ts_real("dx", 0.1, 10), z = ts_real("z", -5, 5);
  long e = ts_choice("e", -1, 2);
  if (n >= 2) {
    GaussLobattoQuadrature::GetPoints(n, X, W);
    GridSpacingGaussLobattoRepeated g(dx, z, n);
    for (int i = 0; i < n; i++) {
      int ix = e * n + i;
      if (ix <= -n) continue;
      ts_near(g.GetNode(ix), z + e * dx + 0.5 * (X[i] + 1) * dx, 1e-10, "node position");
      ts_near(g.GetEdge(ix), z + e * dx + 0.5 * (X[i] + 1) * dx, 1e-10, "edge position");
      if (ix >= 0) ts_near(g.GetNodeNormArea(ix), 0.5 * W[i] * dx, 1e-10, "node weight");
    }
  }
  GridSpacingUniform u(dx, z);
  ts_near(u.GetNode(e), z + (e + 0.5) * dx, 1e-10, "uniform node");
  ts_near(u.GetEdge(e), z + e * dx, 1e-10, "uniform edge");
}
void ts_harness(int argc, char **argv) {
  std::string m = argv[1];
  int n = argc > 2 ? atoi(argv[2]) : 0, k = argc > 3 ? atoi(argv[3]) : 0;
  if (m == "gauss") rule(false, n);
  if (m == "lobatto") rule(true, n);
  if (m == "legendre") legendre(n);
  if (m == "lagrange") lagrange(n, k);
  if (m == "lagdiff") lagdiff(n, k, atoi(argv[4]), atoi(argv[5]));
  if (m == "coeffs") coeffs(n, k);
  if (m == "fluxcorr") fluxcorr(n, k);
  if (m == "helpers") helpers();
  if (m == "powers") powers(n);
  if (m == "spacing") spacing(n);
  if (m == "stretch") {
    double x = ts_real("x", 0, 1), y = ts_real("y", 0, 1);
    ts_assume(x <= y);
    if (n == 0) stretchOne<VerticalStretchUniform>(x, y, 0, true);
    if (n == 1) stretchOne<VerticalStretchCubic>(x, y, 0, true);
    if (n == 2) stretchOne<VerticalStretchPiecewiseLinear>(x, y, 0, true);
    // the reported slope is the slope
    double v, d;
    if (n == 0) VerticalStretchUniform()(x, v, d);
    if (n == 1) VerticalStretchCubic()(x, v, d);
    if (n == 2) VerticalStretchPiecewiseLinear()(x, v, d);
    ts_near(__ts_api_diff(v, x), d, 1e-9, "the reported slope is the slope");
  }
  ts_reach(m.c_str());
}
