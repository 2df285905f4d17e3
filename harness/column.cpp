// Vertical levels, vertical column operators and the one-dimensional horizontal operators of the grid.
#include <algorithm>
#include <fstream>
#include <iostream>
#include <limits>
#include <sstream>
#define private public
#define protected public
#include "common.h"
#include "GaussLobattoQuadrature.h"
#include "PolynomialInterp.h"
#undef private
#undef protected
typedef std::vector<double> V;
static V coefs(int n) {
  V a;
  for (int i = 0; i < n; i++) { char b[8]; sprintf(b, "a%d", i); a.push_back(ts_real(b, -1, 1)); }
  return a;
}
static double poly(const V &a, double x) { double q = 0; for (int i = (int)a.size() - 1; i >= 0; i--) q = q * x + a[i]; return q; }
static double dpoly(const V &a, double x, int d) {
  double q = 0, p = 1;
  for (size_t i = d; i < a.size(); i++) { double f = 1; for (int m = 0; m < d; m++) f *= (double)((int)i - m); q += f * a[i] * p; p *= x; }
  return q;
}
static V at(const V &a, const V &x) { V y; for (double t : x) y.push_back(poly(a, t)); return y; }
static V arb(int n, const char *p = "u") { V y; for (int i = 0; i < n; i++) { char b[8]; sprintf(b, "%s%d", p, i); y.push_back(ts_real(b, -1, 1)); } return y; }
// every way of applying an operator gives the same column
static V apply(const LinearColumnOperator &op, const V &in, int nout, const char *name) {
  V out(nout), one(nout), sout(3 * nout), sin(2 * in.size()), ref(in.size()), rout(nout), so(3 * nout), sref(2 * in.size()), srout(3 * nout), zout(nout);
  op.Apply(&in[0], &out[0]);
  for (size_t i = 0; i < in.size(); i++) { ref[i] = 0.3 + 0.1 * i; sin[2 * i] = in[i]; sref[2 * i] = ref[i]; sin[2 * i + 1] = sref[2 * i + 1] = 77; }
  for (int k = 0; k < nout; k++) { rout[k] = 0; for (int l = op.m_iBegin[k]; l < op.m_iEnd[k]; l++) rout[k] += op.m_dCoeff[k][l] * ref[l]; srout[3 * k] = rout[k]; }
  op.Apply(&sin[0], &sout[0], 2, 3);
  op.ApplyWithRef(&in[0], &ref[0], &zout[0], &rout[0]);
  op.ApplyWithRef(&sin[0], &sref[0], &so[0], &srout[0], 2, 3);
  char b[120];
  snprintf(b, sizeof b, "the ways of applying %s agree", name);
  for (int k = 0; k < nout; k++) {
    double full = 0;
    for (int l = 0; l < (int)in.size(); l++) full += op.m_dCoeff[k][l] * in[l];
    ts_near(full, out[k], 1e-11, b);
    ts_near(op.Apply(&in[0], k), out[k], 1e-11, b); ts_near(op.Apply(&sin[0], k, 2), out[k], 1e-11, b); ts_near(sout[3 * k], out[k], 1e-11, b);
    ts_near(zout[k], out[k], 1e-10, b); ts_near(so[3 * k], out[k], 1e-10, b); ts_near(op.Apply(&sin[0], &sref[0], srout[3 * k], k, 2), out[k], 1e-10, b);
  }
  return out;
}
static void near(const V &a, const V &b, double tol, const char *what) { for (size_t i = 0; i < a.size(); i++) ts_near(a[i], b[i], tol, what); }

// the weighted operator is minus a sum of squares
static void dissipative(const LinearColumnOperator &op, const V &w, const V &u, double q, const char *what) {
  int n = w.size();
  std::vector<V> A(n, V(n));
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A[i][j] = -0.5 * (w[i] * op.m_dCoeff[i][j] + w[j] * op.m_dCoeff[j][i]);
  double s = 0, big = 0;
  for (int i = 0; i < n; i++) big = std::max(big, fabs(A[i][i]));
  for (int k = 0; k < n; k++) {
    double d = A[k][k];
    if (d < 1e-11 * big) continue;           // whatever is left over must vanish in the identity below
    double l = 0;
    for (int j = k; j < n; j++) l += A[k][j] / d * u[j];
    s += d * l * l;
    for (int i = k + 1; i < n; i++) for (int j = k + 1; j < n; j++) A[i][j] -= A[i][k] * A[k][j] / d;
  }
  ts_near(q, -s, 1e-8, what);
}
static void body(int argc, char **argv) {
  c = parseCfg(argc, argv, r);
  c.nx = c.ny = 1;
  World w(c);
  if (c.stretch != "uniform") w.setupPatches(1); else w.setup();
  GridGLL *g = dynamic_cast<GridGLL *>(w.grid);
  g->InitializeVerticalCoordinate();
  const int N = g->m_nRElements, p = c.vorder, o = c.order;
  const bool fv = c.vdisc == "fv";
  const int ne = fv ? 1 : p;           // nodes per element
  V xn(N), xe(N + 1), wn(N), we(N + 1);
  for (int k = 0; k < N; k++) { xn[k] = g->GetREtaLevel(k); wn[k] = g->GetREtaLevelsNormArea()[k]; }
  for (int k = 0; k <= N; k++) { xe[k] = g->GetREtaInterface(k); we[k] = g->GetREtaInterfacesNormArea()[k]; }
  if (has(r, "levels")) {
    ts_check(fabs(xe[0]) < 1e-13 && fabs(xe[N] - 1) < 1e-13, "interfaces span the column");
    for (int k = 0; k < N; k++) ts_check(xe[k] < xn[k] && xn[k] < xe[k + 1], "every level lies between its interfaces");
    for (int k = 0; k < N; k++) ts_check(wn[k] > 0 && we[k] > 0, "weights are positive");
    V a = coefs(fv || p == 1 ? 2 : p + 2);
    double qn = 0, qe = 0, ex = 0;
    for (int k = 0; k < N; k++) qn += wn[k] * poly(a, xn[k]);
    for (size_t m = 0; m < a.size(); m++) ex += a[m] / (m + 1);
    ts_near(qn, ex, 1e-11, "level weights integrate the column");
    if (p > 1 && !fv) a.resize(2 * p > (int)a.size() ? a.size() : 2 * p);
    for (int k = 0; k <= N; k++) qe += we[k] * poly(a, xe[k]);
    ts_near(qe, ex, 1e-11, "interface weights integrate the column");
    // element boundaries follow the stretching function
    if (c.stretch != "uniform") for (int e = 0; e <= N / ne; e++) {
      double v, d; g->EvaluateVerticalStretchF((double)e * ne / N, v, d);
      ts_near(xe[e * ne], v, 1e-12, "element boundaries are the stretched uniform ones");
    } else for (int e = 0; e <= N / ne; e++) ts_near(xe[e * ne], (double)e * ne / N, 1e-12, "elements are uniform");
    ts_reach("levels");
    return;
  }
  g->Initialize();
  if (has(r, "hops")) {
    const DataArray2D<double> &D = g->GetDxBasis1D(), &S = g->GetStiffness1D();
    const DataArray1D<double> &W = g->GetGLLWeights1D();
    DataArray1D<double> G, WG;
    GaussLobattoQuadrature::GetPoints(o, 0.0, 1.0, G, WG);
    V a = coefs(o), u = arb(o, "u"), v = arb(o, "v");
    double sbp = 0;
    for (int i = 0; i < o; i++) {
      double d = 0, st = 0, dv = 0;
      for (int m = 0; m < o; m++) { d += D[m][i] * poly(a, G[m]); }
      ts_near(d, dpoly(a, G[i], 1), 1e-10, "the derivative matrix is exact for polynomials");
      ts_near(W[i], WG[i], 1e-12, "weights are the Gauss-Lobatto weights");
      for (int m = 0; m < o; m++) st += S[i][m] * u[m];
      for (int m = 0; m < o; m++) dv += D[m][i] * v[m];
      // sum_i W_i v_i S(u)_i = sum_i W_i u_i D(v)_i
      sbp += W[i] * v[i] * st - W[i] * u[i] * dv;
    }
    ts_near(sbp, 0, 1e-10, "the stiffness matrix is the transpose of the derivative");
    double fl = 0; V b = coefs(o - 1);
    for (int i = 0; i < o; i++) fl += W[i] * g->GetFluxDeriv1D()[i] * poly(b, G[i]);
    ts_near(fl, poly(b, 1), 1e-9, "the flux correction lifts the boundary value");
    ts_reach("hops");
    return;
  }
  // polynomial accuracy
  if (has(r, "exact")) {
    // degrees reproduced by each operator
    int dI = fv ? std::min(p, 2) - 1 : p == 1 ? 1 : p - 1, dE = fv ? 1 : p;
    V a = coefs(dI + 1);
    bool oneSided = fv && p == 2;     // first order closure at the two ends
    V ie = apply(g->GetOpInterpNodeToREdge(), at(a, xn), N + 1, "level to interface interpolation");
    for (int k = oneSided; k <= N - (int)oneSided; k++) ts_near(ie[k], poly(a, xe[k]), 1e-10, "interpolation to interfaces is exact for polynomials");
    V d1n, d1e;
    for (double x : xn) d1n.push_back(dpoly(a, x, 1));
    V dn = apply(g->GetOpDiffNodeToNode(), at(a, xn), N, "level derivative");
    V de = apply(g->GetOpDiffNodeToREdge(), at(a, xn), N + 1, "level to interface derivative");
    // one-point stencils at the two ends know only one side
    for (int k = oneSided; k < N - (int)oneSided; k++) ts_near(dn[k], dpoly(a, xn[k], 1), 1e-9, "the level derivative is exact for polynomials");
    for (int k = 0; k <= N; k++) {
      if (ne == 1 && (k == 0 || k == N)) continue;
      ts_near(de[k], dpoly(a, xe[k], 1), 1e-9, "the interface derivative of level data is exact for polynomials");
    }
    V b = coefs(dE + 1);
    near(apply(g->GetOpInterpREdgeToNode(), at(b, xe), N, "interface to level interpolation"), at(b, xn), 1e-10, "interpolation to levels is exact for polynomials");
    V en = apply(g->GetOpDiffREdgeToNode(), at(b, xe), N, "interface to level derivative"), ee = apply(g->GetOpDiffREdgeToREdge(), at(b, xe), N + 1, "interface derivative");
    for (int k = 0; k < N; k++) ts_near(en[k], dpoly(b, xn[k], 1), 1e-9, "the level derivative of interface data is exact for polynomials");
    for (int k = 0; k <= N; k++) ts_near(ee[k], dpoly(b, xe[k], 1), 1e-9, "the interface derivative is exact for polynomials");
    ts_reach("exact");
    return;
  }
  if (has(r, "flux")) {
    // whatever crosses the interfaces leaves one layer and enters the next
    V u = arb(N + 1);
    V d = apply(g->GetOpDiffREdgeToNode(), u, N, "interface to level derivative");
    double s = 0;
    for (int k = 0; k < N; k++) s += wn[k] * d[k];
    ts_near(s, u[N] - u[0], 1e-10, "the column integral of a flux divergence is the flux through its ends");
    for (int e = 0; e < N / ne; e++) {
      double q = 0;
      for (int k = e * ne; k < (e + 1) * ne; k++) q += wn[k] * d[k];
      ts_near(q, u[(e + 1) * ne] - u[e * ne], 1e-10, "the integral over an element is the flux through its ends");
    }
    ts_reach("flux");
    return;
  }
  if (has(r, "laplace")) {
    V u = arb(N), v = arb(N), one(N, 1.0), x(N + 1, 1.0);
    V du = apply(g->GetOpDiffDiffNodeToNode(), u, N, "second derivative on levels"), dv = apply(g->GetOpDiffDiffNodeToNode(), v, N, "second derivative on levels");
    double s = 0, a = 0;
    for (int k = 0; k < N; k++) s += wn[k] * du[k];
    ts_near(s, 0, 1e-8, "vertical diffusion on levels conserves the column");
    V d1 = apply(g->GetOpDiffDiffNodeToNode(), one, N, "second derivative on levels");
    for (int k = 0; k < N; k++) ts_near(d1[k], 0, 1e-9, "vertical diffusion on levels ignores a constant");
    // quadratic form
    double q = 0;
    for (int k = 0; k < N; k++) { q += wn[k] * u[k] * du[k]; a += wn[k] * (v[k] * du[k] - u[k] * dv[k]); }
    dissipative(g->GetOpDiffDiffNodeToNode(), wn, u, q, "vertical diffusion on levels does not amplify");
    V f = arb(N + 1), df = apply(g->GetOpDiffDiffREdgeToREdge(), f, N + 1, "second derivative on interfaces"), e1 = apply(g->GetOpDiffDiffREdgeToREdge(), x, N + 1, "second derivative on interfaces");
    s = q = 0;
    for (int k = 0; k <= N; k++) { s += we[k] * df[k]; q += we[k] * f[k] * df[k]; ts_near(e1[k], 0, 1e-9, "vertical diffusion on interfaces ignores a constant"); }
    ts_near(s, 0, 1e-8, "vertical diffusion on interfaces conserves the column");
    dissipative(g->GetOpDiffDiffREdgeToREdge(), we, f, q, "vertical diffusion on interfaces does not amplify");
    // exactness away from the ends
    int deg = ne == 1 ? 2 : p - 1;
    V b = coefs(deg + 1), bn = apply(g->GetOpDiffDiffNodeToNode(), at(b, xn), N, "second derivative on levels");
    if (c.stretch == "uniform" || ne > 1) for (int k = ne; k < N - ne; k++) ts_near(bn[k], dpoly(b, xn[k], 2), 1e-7, "the second derivative on levels is exact for polynomials");
    if (ne == 1) {
      b = coefs(2);
      bn = apply(g->GetOpDiffDiffNodeToNode(), at(b, xn), N, "second derivative on levels");
      V be = apply(g->GetOpDiffDiffREdgeToREdge(), at(b, xe), N + 1, "second derivative on interfaces");
      for (int k = 1; k < N - 1; k++) ts_near(bn[k], 0, 1e-8, "a linear profile does not diffuse");
      for (int k = 1; k < N; k++) ts_near(be[k], 0, 1e-8, "a linear profile does not diffuse");
    }
    b = coefs((ne == 1 ? 2 : p) + 1);
    V be = apply(g->GetOpDiffDiffREdgeToREdge(), at(b, xe), N + 1, "second derivative on interfaces");
    if (c.stretch == "uniform" || ne > 1) for (int k = 1; k < N; k++) ts_near(be[k], dpoly(b, xe[k], 2), 1e-7, "the second derivative on interfaces is exact for polynomials");
    ts_reach("laplace");
    return;
  }
  if (has(r, "penalty")) {
    int ns = fv ? N - 1 : N / ne - 1;
    V u = arb(N), wt, out(3 * N, 0.0), in(2 * N);
    for (int e = 0; e < ns; e++) { char b[8]; sprintf(b, "w%d", e); wt.push_back(ts_real(b, 0, 1)); }
    for (int k = 0; k < N; k++) in[2 * k] = u[k];
    g->GetOpPenaltyNodeToNode().Apply(&wt[0], &in[0], &out[0], 2, 3);
    double s = 0, q = 0;
    for (int k = 0; k < N; k++) { s += wn[k] * out[3 * k]; q += wn[k] * u[k] * out[3 * k]; }
    ts_near(s, 0, 1e-9, "upwinding conserves the column");
    // the energy lost is the weight times half the squared jump at each element edge
    if (!fv) {
      double e = 0;
      for (int m = 0; m < ns; m++) {
        V L(ne), R(ne);
        PolynomialInterp::LagrangianPolynomialCoeffs(ne, &xn[m * ne], &L[0], xe[(m + 1) * ne]);
        PolynomialInterp::LagrangianPolynomialCoeffs(ne, &xn[(m + 1) * ne], &R[0], xe[(m + 1) * ne]);
        double j = 0;
        for (int i = 0; i < ne; i++) j += R[i] * u[(m + 1) * ne + i] - L[i] * u[m * ne + i];
        e += wt[m] * j * j;
      }
      ts_near(q, -0.5 * e, 1e-9, "upwinding removes half the squared jump");
    }
    // no jump, no upwinding
    V a = coefs(fv ? 2 : ne), o2(N, 0.0), sm = at(a, xn);
    g->GetOpPenaltyNodeToNode().Apply(&wt[0], &sm[0], &o2[0], 1, 1);
    if (!(fv && p == 2) && ne * (fv ? 2 : 1) >= 1) for (int k = 0; k < N; k++) ts_near(o2[k], 0, 1e-9, "a polynomial has no jumps to upwind");
    ts_reach("penalty");
  }
}
