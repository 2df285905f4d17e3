// Time integrators on a triangular polynomial system, whose exact solution is a polynomial in time.
//   component 1..4 of the system sit in the state components (and again in the tracers);
//   every right-hand side belongs to the explicit or to the implicit part (its colour).
#include <map>
#include <string>
#include <vector>
#include <functional>
#include <fstream>
#include <iostream>
#include <sstream>
#include <cmath>
#define private public   // to replace the dynamics of a model that was set up normally
#define protected public
#include "Model.h"
#undef private
#undef protected
#include "common.h"
static int g_col[4];            // 0 explicit, 1 implicit, 2 neither (zero)
static int g_shape;             // rooted tree
static int g_after;             // a constant tendency applied by the after-step call
static int S2Y(int v) { return v == 0 ? 0 : v == 1 ? 1 : v == 2 ? 2 : v == 4 ? 3 : -1; }
// right-hand side of system component q
static double rhs(int q, const double *y) {
  switch (g_shape) {
    case 0: return q == 0 ? 1 : q == 1 ? y[0] : q == 2 ? y[1] : y[2];                  // [[[t]]]
    case 1: return q == 0 ? 1 : q == 1 ? 1 : q == 2 ? y[0] * y[1] : y[2];              // [[t,t]]
    case 2: return q == 0 ? 1 : q == 1 ? y[0] : q == 2 ? 1 : y[1] * y[2];              // [t,[t]]
    default: return q == 3 ? y[0] * y[1] * y[2] : 1;                                   // [t,t,t]
  }
}
typedef std::vector<double> Poly;
static Poly mul(const Poly &a, const Poly &b) { Poly r(a.size() + b.size() - 1, 0.0); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) r[i + j] += a[i] * b[j]; return r; }
static Poly integ(const Poly &a, double c, bool on) { Poly r(1, c); if (on) for (size_t i = 0; i < a.size(); i++) r.push_back(a[i] / (i + 1)); return r; }
static void exact(const double *y0, Poly *Y) {
  Poly one(1, 1.0);
  for (int q = 0; q < 4; q++) {
    Poly f;
    switch (g_shape) {
      case 0: f = q == 0 ? one : Y[q - 1]; break;
      case 1: f = q < 2 ? one : q == 2 ? mul(Y[0], Y[1]) : Y[2]; break;
      case 2: f = q == 0 || q == 2 ? one : q == 1 ? Y[0] : mul(Y[1], Y[2]); break;
      default: f = q < 3 ? one : mul(mul(Y[0], Y[1]), Y[2]);
    }
    Y[q] = integ(f, y0[q], g_col[q] != 2);
    if (q == 0 && g_after) { Poly z = Y[0]; if (z.size() < 2) z.resize(2, 0.0); z[1] += 1; Y[0] = z; }
  }
}
static double evalp(const Poly &p, double t) { double r = 0; for (int i = p.size() - 1; i >= 0; i--) r = r * t + p[i]; return r; }
struct Acc {
  GridPatch *p; int i, j, k, ix; bool tr;
  double &operator()(int q) const {
    if (tr) return const_cast<DataArray4D<double> &>(p->GetDataTracers(ix))[q][i][j][k];
    int v = q < 3 ? q : 4;
    return p->GetDataState(ix, DataLocation_Node)[v][i][j][k];
  }
};
static World *g_w;
template <class F> static void nodes(F f) {
  g_w->each(DataLocation_Node, [&](GridPatch *p, int i, int j, int k) { for (int tr = 0; tr < (c.ntr >= 4 ? 2 : 1); tr++) f(p, i, j, k, tr != 0); });
}
static void expl(int a, int u, double dt, int colour) {
  nodes([&](GridPatch *p, int i, int j, int k, bool tr) {
    Acc A = {p, i, j, k, a, tr}, U = {p, i, j, k, u, tr};
    double y[4];
    for (int q = 0; q < 4; q++) y[q] = A(q);
    for (int q = 0; q < 4; q++) if (g_col[q] == colour) U(q) = U(q) + dt * rhs(q, y);
  });
}
static void impl(int a, int u, double dt) {
  nodes([&](GridPatch *p, int i, int j, int k, bool tr) {
    Acc A = {p, i, j, k, a, tr}, U = {p, i, j, k, u, tr};
    double y[4];
    for (int q = 0; q < 4; q++) { y[q] = A(q); if (g_col[q] == 1) y[q] = y[q] + dt * rhs(q, y); }
    for (int q = 0; q < 4; q++) U(q) = y[q];
  });
}
static void copy(int a, int u) { g_w->grid->CopyData(a, u, DataType_State); g_w->grid->CopyData(a, u, DataType_Tracers); }
struct HD : public HorizontalDynamics {
  HD(Model &m) : HorizontalDynamics(m) {}
  void StepExplicit(int a, int u, const Time &, double dt) { expl(a, u, dt, 0); }
  void combine(const DataArray1D<int> &ix, const DataArray1D<double> &co, int u) {
    nodes([&](GridPatch *p, int i, int j, int k, bool tr) {
      double y[4] = {0, 0, 0, 0};
      for (size_t m = 0; m < ix.GetRows(); m++) { Acc A = {p, i, j, k, ix[m], tr}; for (int q = 0; q < 4; q++) y[q] = y[q] + co[m] * A(q); }
      Acc U = {p, i, j, k, u, tr};
      for (int q = 0; q < 4; q++) U(q) = y[q];
    });
  }
  void StepExplicitCombine(const DataArray1D<int> &ix, const DataArray1D<double> &co, int a, int u, const Time &, double dt) {
    ts_check(a != u, "argument and update differ");
    combine(ix, co, u); expl(a, u, dt, 0);
  }
  void StepImplicitCombine(const DataArray1D<int> &ix, const DataArray1D<double> &co, int, int u, const Time &, double dt) { combine(ix, co, u); impl(u, u, dt); }
  void StepAfterSubCycle(int a, int u, int w, const Time &, double dt) {
    ts_check(a != w && u != w, "the working copy is neither source nor result");
    // the working copy is scratch space
    nodes([&](GridPatch *p, int i, int j, int k, bool tr) { Acc W = {p, i, j, k, w, tr}; for (int q = 0; q < 4; q++) W(q) = 1e3 + q; });
    if (a != u) copy(a, u);
    after(u, dt);
  }
  void StepAfterSubCycleCombine(int u, int w, const Time &, double dt) {
    ts_check(u != w, "the working copy is not the result");
    nodes([&](GridPatch *p, int i, int j, int k, bool tr) { Acc W = {p, i, j, k, w, tr}; for (int q = 0; q < 4; q++) W(q) = 1e3 + q; });
    after(u, dt);
  }
  void after(int u, double dt) { if (g_after) nodes([&](GridPatch *p, int i, int j, int k, bool tr) { Acc U = {p, i, j, k, u, tr}; U(0) = U(0) + dt; }); }
};
struct VD : public VerticalDynamics {
  VD(Model &m) : VerticalDynamics(m) {}
  void StepImplicit(int a, int u, const Time &, double dt) { impl(a, u, dt); }
  void StepImplicitTermsExplicitly(int a, int u, const Time &, double dt) { expl(a, u, dt, 1); }
};
// order arguments: e= order of the explicit part, i= order with implicit parts
static void order() {
  World w(c);
  w.setup();
  w.attach();
  g_w = &w;
  w.model->m_pHorizontalDynamics = new HD(*w.model);
  w.model->m_pVerticalDynamics = new VD(*w.model);
  int oe = atoi(arg(r, "e", "2").c_str()), oi = atoi(arg(r, "i", "0").c_str()), N = atoi(arg(r, "steps", "1").c_str());
  bool erk = c.scheme.compare(0, 3, "erk") == 0;
  g_shape = ts_choice("shape", 0, 3);
  g_after = ts_choice("after", 0, 1);
  if (N > 1 && g_after) __ts_api_skip_path("splitting error of the after-step call builds up");
  bool any = false;
  for (int q = 0; q < 4; q++) {
    char b[8]; sprintf(b, "col%d", q);
    g_col[q] = ts_choice(b, 0, erk ? 0 : 1);
    any |= g_col[q] == 1;
  }
  if (ts_choice("still", 0, 1)) { if (g_shape || g_after || any) __ts_api_skip_path("one still case"); for (int q = 0; q < 4; q++) g_col[q] = 2; }
  double h = ts_real("h", 0, 0.5);
  double y0[2][4] = {{0.25, -0.5, 0.375, 0.125}, {0.25, -0.5, 0.375, 0.125}};
  double lev = 0.125;
  Time t;
  TimestepScheme *T = w.model->GetTimestepScheme();
  std::vector<double> err1;
  for (int run = N > 1 ? 0 : 1; run < 2; run++) {
    int n = run ? N : 1;
    // copies other than the first hold rubbish
    nodes([&](GridPatch *p, int i, int j, int k, bool tr) {
      for (int x = 0; x < (tr ? T->GetTracerDataInstances() : T->GetComponentDataInstances()); x++) {
        Acc A = {p, i, j, k, x, tr};
        for (int q = 0; q < 4; q++) A(q) = x ? 7 * x + q + k : y0[tr][q] + lev * k;
      }
    });
    for (int m = 0; m < n; m++) T->Step(m == 0, m == n - 1, t, h);
    int p = g_after ? 1 : any ? oi : oe;
    if (run && N > 1) p = 1;
    size_t at = 0;
    std::map<std::vector<int>, double> first;
    nodes([&](GridPatch *P, int i, int j, int k, bool tr) {
      Acc A = {P, i, j, k, 0, tr};
      double s[4]; Poly Y[4];
      for (int q = 0; q < 4; q++) s[q] = y0[tr][q] + lev * k;
      exact(s, Y);
      for (int q = 0; q < 4; q++) {
        double v = A(q);
        // the fields are uniform: one node decides, the others must agree with it
        std::vector<int> key(3); key[0] = k; key[1] = q; key[2] = 0;
        if (first.count(key)) { ts_near(v, first[key], 1e-11, "a uniform field stays uniform"); continue; }
        first[key] = v;
        // components already decided with another tree
        if (g_col[q] != 2 && ((g_shape && q < 2) || (g_shape > 1 && q < 3))) continue;
        if (g_col[q] == 2 && !(q == 0 && g_after)) { ts_near(v, s[q], 1e-12, tr ? "a tracer without tendencies is unchanged" : "a state without tendencies is unchanged"); continue; }
        double e = v - evalp(Y[q], n * h), hp = h, K = 60;
        for (int m = 0; m < p; m++) hp *= h;
        if (!run) err1.push_back(e);
        else if (N > 1) {
          double d = e - err1[at++];
          ts_check((int)(d <= N * K * hp * h + 1e-11) & (int)(d >= -N * K * hp * h - 1e-11), tr ? "tracers: the error does not build up over steps" : "the error does not build up over steps");
        }
        if (run == 0 || N == 1) ts_check((int)(e <= K * hp + 1e-11) & (int)(e >= -K * hp - 1e-11), tr ? "tracers: error of a step is of the order of the scheme" : "error of a step is of the order of the scheme");
      }
    });
  }
  ts_reach("order");
}
static void body(int argc, char **argv) {
  mpi_sim_as(0, 1);
  c = parseCfg(argc, argv, r);
  if (has(r, "order")) order();
}
