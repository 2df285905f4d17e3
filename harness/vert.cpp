// The implicit vertical step on one column of symbolic values.
#include "common.h"
#include "lapack_stub.h"
struct Unk { int v, k; double x, s, d; };      // v: state component, or 5+t for tracers
static std::vector<Unk> U;
static double scaleOf(int v) { return v == 2 ? 300 : v == 3 ? c.ztop : v == 4 ? 1.0 : 1.0; }
static double &at(World &w, int ix, GridPatch *p, int v, int i, int j, int k) {
  return v < 5 ? p->GetDataState(ix, w.loc(v))[v][i][j][k] : p->GetDataTracers(ix)[v - 5][i][j][k];
}
static int nkv(World &w, int v) { return v < 5 ? w.nk(v) : w.grid->GetRElements(); }
static bool isMinusOne(double d) { return !__ts_api_is_sym(d) && d == -1.0; }
static const double DT = 20;

static void column() {
  World w(c);
  int np = atoi(arg(r, "np", "0").c_str());
  if (np) w.setupPatches(np); else w.setup();
  w.test->topo = atof(arg(r, "topo", "0").c_str());
  w.attach();
  Time t;
  // a background that varies from node to node (winds included)
  std::vector<double> one(1, 1.0);
  double sc[5] = {1, 1, 1, 0.05 * c.ztop, 0.002};
  if (!c.cart) { sc[0] = sc[1] = 6e6; }
  addNoise(w, 0, one, sc, 0.05);
  w.grid->PostProcessSubstage(0, DataType_State);
  if (c.ntr) w.grid->PostProcessSubstage(0, DataType_Tracers);
  std::vector<std::vector<World::Node> > G = w.groups();
  // the column: every copy of one node
  int want = atoi(arg(r, "copies", "1").c_str());
  size_t g = G.size();
  for (size_t q = 0; q < G.size() && g == G.size(); q++) if ((int)G[q].size() == want && q % 3 == 2 % G.size()) g = q;
  for (size_t q = 0; q < G.size() && g == G.size(); q++) if ((int)G[q].size() == want) g = q;
  ts_check(g < G.size(), "a node with the wanted number of copies");
  if (g == G.size()) return;
  const std::vector<World::Node> &C = G[g];
  const World::Node &n0 = C[0];
  std::string sg = arg(r, "sign", "free");
  bool uniformMix = has(r, "mix");
  double q0[4];
  for (int q = 0; q < c.ntr; q++) { char b[8]; sprintf(b, "q%d", q); q0[q] = uniformMix ? ts_real(b, 0.5, 2) : 0; }
  for (int v = 2; v < 5 + c.ntr; v++) {
    for (int k = 0; k < nkv(w, v); k++) {
      char b[8];
      sprintf(b, "%c%d", "UVPWRQST"[v], k);
      double old = at(w, 0, n0.p, v, n0.i, n0.j, k) + (v < 5 ? 0 : 1), x, sy = 0, co = 1;
      if (v == 3) {
        double lo = -2, hi = 2;
        if (sg == "up") lo = 0.25;
        else if (sg == "down") hi = -0.25;
        else if (sg == "steady") { lo = 1; hi = 1.2; }
        else if (sg == "split") { if (k <= w.grid->GetRElements() / 2) lo = 0.25; else hi = -0.25; }
        co = c.ztop; x = co * (sy = ts_real(b, lo, hi));
      } else if (v >= 5 && uniformMix) x = q0[v - 5] * at(w, 0, n0.p, 4, n0.i, n0.j, k);
      else { co = old * (v == 2 ? 0.01 : 0.05); x = old + co * (sy = ts_real(b, -1, 1)); }
      // the value as the model sees it
      for (size_t q = 0; q < C.size(); q++) at(w, 0, C[q].p, v, C[q].i, C[q].j, k) = x;
      Unk u = {v, k, x, sy, co};
      U.push_back(u);
    }
  }
  w.grid->CopyData(0, 1, DataType_State);
  if (c.ntr) w.grid->CopyData(0, 1, DataType_Tracers);
  w.grid->CopyData(0, 2, DataType_State);
  if (c.ntr) w.grid->CopyData(0, 2, DataType_Tracers);
  VerticalDynamics *V = w.model->GetVerticalDynamics();
  // the same terms taken explicitly
  V->StepImplicitTermsExplicitly(0, 1, t, DT);
  // native replay: the derivative of the right-hand sides, by differences
  std::vector<std::vector<std::vector<double> > > FD;
  if (ts_native()) {
    const double h = 2e-3, wt[4] = {1.0 / 12, -8.0 / 12, 8.0 / 12, -1.0 / 12}, off[4] = {-2, -1, 1, 2};
    for (size_t u = 0; u < U.size(); u++) {
      std::vector<std::vector<double> > D;
      for (int m = 0; m < 4; m++) {
        w.grid->CopyData(0, 2, DataType_State);
        if (c.ntr) w.grid->CopyData(0, 2, DataType_Tracers);
        for (size_t q = 0; q < C.size(); q++) at(w, 2, C[q].p, U[u].v, C[q].i, C[q].j, U[u].k) += h * off[m] * U[u].d;
        size_t e0 = lapack_calls.size();
        V->StepImplicit(2, 2, t, DT);
        D.resize(lapack_calls.size() - e0);
        for (size_t q = e0; q < lapack_calls.size(); q++) {
          D[q - e0].resize(lapack_calls[q].n, 0.0);
          for (int i = 0; i < lapack_calls[q].n; i++) D[q - e0][i] += wt[m] * lapack_calls[q].b[i] / (h * U[u].d);
        }
        lapack_calls.resize(e0);
      }
      FD.push_back(D);
    }
    w.grid->CopyData(0, 2, DataType_State);
    if (c.ntr) w.grid->CopyData(0, 2, DataType_Tracers);
  }
  size_t expl0 = lapack_calls.size();
  V->StepImplicit(2, 2, t, DT);
  ts_check(lapack_calls.size() > expl0, "a linear system is solved for the column");
  if (lapack_calls.size() <= expl0) return;
  // which system and which of its unknowns moved each value of a copy of the node
  const int NU = U.size();
  for (size_t cp = 0; cp < C.size(); cp++) {
    const World::Node &n = C[cp];
    std::vector<int> ix(NU, -1);
    std::vector<const LapackCall *> of(NU, (const LapackCall *)0);
    for (size_t q = expl0; q < lapack_calls.size(); q++) {
      const LapackCall &L = lapack_calls[q];
      std::vector<int> my(NU, -1);
      std::vector<bool> used(L.n, false);
      int got = 0, gotT = 0;
      for (int u = 0; u < NU; u++) {
        double nw = at(w, 2, n.p, U[u].v, n.i, n.j, U[u].k);
        if (of[u] || (!ts_native() && !__ts_api_is_sym(nw))) continue;
        // (unknowns that do not move: the one that others depend on)
        int best = -1, bestnz = -1;
        for (int i = 0; i < L.n; i++) {
          if (used[i]) continue;
          bool m = ts_native() ? fabs(U[u].x - L.x[i] - nw) <= 1e-13 * scaleOf(U[u].v) : (__ts_api_is_sym(L.x[i]) && isMinusOne(__ts_api_diff(nw, L.x[i])));
          if (!m) continue;
          int nz = 0;
          if (ts_native()) for (int a = 0; a < L.n; a++) nz += L.A[a * L.n + i] != 0;
          if (nz > bestnz) { best = i; bestnz = nz; }
          if (!ts_native()) break;
        }
        if (best >= 0) { my[u] = best; used[best] = true; (U[u].v < 5 ? got : gotT)++; }
      }
      // a system of the state moves all of it, one of a tracer all of that tracer
      int all = 0;
      for (int u = 0; u < NU; u++) all += U[u].v < 5;
      for (int u = 0; u < NU; u++) if (my[u] >= 0 && (U[u].v < 5 ? got == all : gotT == w.grid->GetRElements())) { of[u] = &L; ix[u] = my[u]; }
    }
    for (int u = 0; u < NU; u++) ts_check(of[u] != 0, "every copy of a column moves by the solution of the column system");
    for (int u = 0; u < NU; u++) if (!of[u]) return;
    if (cp == 0) for (int v = 0; v < 2; v++) for (int k = 0; k < nkv(w, v); k++)
      ts_near(at(w, 2, n.p, v, n.i, n.j, k), at(w, 0, n.p, v, n.i, n.j, k), 1e-12 * sc[v], "the horizontal wind is left alone by the implicit step");
    const LapackCall &S = *of[0];
    // right-hand side: the same tendencies as the explicit form
    for (int u = 0; u < NU; u++) if (U[u].v < 5)
      ts_near(S.b[ix[u]] * DT, U[u].x - at(w, 1, n.p, U[u].v, n.i, n.j, U[u].k), 1e-10 * scaleOf(U[u].v), "right-hand side: the tendency the explicit form applies");
    // matrix: the derivative of the backward Euler residual
    bool flat = atof(arg(r, "topo", "0").c_str()) == 0;
    for (int a = 0; a < NU; a++) if (U[a].v < 5) {
      for (int u = 0; u < NU; u++) if (U[u].v < 5) {
        if (!flat && U[a].v == 3) continue;
        double d = ts_native() ? FD[u][&S - &lapack_calls[expl0]][ix[a]] : __ts_api_diff(S.b[ix[a]], U[u].s) / U[u].d;
        double e = d + (a == u ? 1 / DT : 0);
        double sc2 = scaleOf(U[u].v) / scaleOf(U[a].v) * DT;
        ts_near(S.A[ix[a] * S.n + ix[u]] * sc2, e * sc2, ts_native() ? 1e-7 * (1 + fabs(e * sc2)) : 1e-8, "matrix: the derivative of the column equations");
      }
    }
    // no change at the bottom and the top
    for (int a = 0; a < NU; a++) if (U[a].v == 3 && (U[a].k == 0 || U[a].k == w.nk(3) - 1) && w.loc(3) == DataLocation_REdge) {
      ts_near(S.b[ix[a]], 0, 1e-12, "vertical velocity at the bottom and the top is left alone");
      for (int u = 0; u < NU; u++) if (U[u].v < 5) ts_near(S.A[ix[a] * S.n + ix[u]] * DT, a == u, 1e-12, "vertical velocity at the bottom and the top is left alone");
    }
    // conservation over the column
    for (int v = 2; v < 5 + c.ntr; v++) {
      if (v == 3) continue;
      double col = 0, rhs = 0;
      for (int k = 0; k < nkv(w, v); k++) col += World::area(n.p, DataLocation_Node)[n.i][n.j][k];
      for (int u = 0; u < NU; u++) {
        const LapackCall *Lu = of[u];
        if ((v < 5) != (U[u].v < 5) || (v >= 5 && U[u].v != v)) continue;
        double s = 0;
        for (int a = 0; a < NU; a++) if (U[a].v == v) {
          double ar = World::area(n.p, DataLocation_Node)[n.i][n.j][U[a].k] / col;
          s += ar * Lu->A[ix[a] * Lu->n + ix[u]];
          if (a == u) s -= ar / DT;
        }
        ts_near(s * DT * scaleOf(U[u].v) / scaleOf(v), 0, 1e-9, v == 4 ? "column mass kept by the implicit step (matrix)" : v == 2 ? "column potential temperature kept by the implicit step (matrix)" : "column tracer mass kept by the implicit step (matrix)");
        if (U[u].v == v) rhs += World::area(n.p, DataLocation_Node)[n.i][n.j][U[u].k] / col * Lu->b[ix[u]];
      }
      ts_near(rhs * DT, 0, 1e-9 * scaleOf(v), v == 4 ? "column mass kept by the implicit step" : v == 2 ? "column potential temperature kept by the implicit step" : "column tracer mass kept by the implicit step");
    }
    // a uniform mixing ratio solves the tracer system
    if (uniformMix) for (int a = 0; a < NU; a++) if (U[a].v >= 5) {
      int q = U[a].v - 5;
      const LapackCall &T = *of[a];
      double lhs = -T.b[ix[a]];
      for (int u = 0; u < NU; u++) if (U[u].v == U[a].v)
        for (int d = 0; d < NU; d++) if (U[d].v == 4 && U[d].k == U[u].k) lhs += T.A[ix[a] * T.n + ix[u]] * q0[q] * S.x[ix[d]];
      // minus q times the density equation of this level
      for (int d = 0; d < NU; d++) if (U[d].v == 4 && U[d].k == U[a].k) {
        lhs += q0[q] * S.b[ix[d]];
        for (int u = 0; u < S.n; u++) lhs -= q0[q] * S.A[ix[d] * S.n + u] * S.x[u];
      }
      ts_near(lhs * DT, 0, 1e-9, "a uniform mixing ratio stays uniform in the implicit step");
    }
  }
  ts_reach("column");
}
static void body(int argc, char **argv) {
  mpi_sim_as(0, 1);
  lapack_mode = 1; lapack_xmag = 0.1;
  c = parseCfg(argc, argv, r);
  if (has(r, "column")) column();
}
