// Properties of the horizontal operators and of whole steps, on small grids.
#include "common.h"
// SW: the prognostic is the free surface height; the fluid mass differs by a constant
static void mass() {
  World w(c);
  w.setup();
  w.test->s = syms(atoi(arg(r, "ns", "2").c_str()));
  w.test->topo = atof(arg(r, "topo", "0").c_str());
  w.attach();
  Time t;
  double dt = 20;
  int R = massVar();
  double m0 = w.total(0, R), ar = 0;
  std::vector<double> t0(c.ntr);
  for (int q = 0; q < c.ntr; q++) t0[q] = w.totalTracer(0, q);
  w.each(DataLocation_Node, [&](GridPatch *p, int i, int j, int k) { ar += World::area(p, DataLocation_Node)[i][j][k]; });
  double tolm = 1e-11 * ar * (c.sw ? 2000 : 0.5), tolt = tolm * 0.5;
  if (has(r, "step")) {
    w.model->GetTimestepScheme()->Step(true, true, t, dt);
    ts_near(w.total(0, R), m0, tolm, "total mass unchanged by a time step");
    for (int q = 0; q < c.ntr; q++) ts_near(w.totalTracer(0, q), t0[q], tolt, "total tracer mass unchanged by a time step");
  } else {
    w.grid->CopyData(0, 1, DataType_State);
    if (c.ntr) w.grid->CopyData(0, 1, DataType_Tracers);
    w.model->GetHorizontalDynamics()->StepExplicit(0, 1, t, dt);
    ts_near(w.total(1, R), m0, tolm, "total mass unchanged by the horizontal dynamics");
    for (int q = 0; q < c.ntr; q++) ts_near(w.totalTracer(1, q), t0[q], tolt, "total tracer mass unchanged by the horizontal dynamics");
    w.model->GetVerticalDynamics()->StepExplicit(0, 1, t, dt);
    ts_near(w.total(1, R), m0, tolm, "total mass unchanged by the explicit vertical dynamics");
    for (int q = 0; q < c.ntr; q++) ts_near(w.totalTracer(1, q), t0[q], tolt, "total tracer mass unchanged by the explicit vertical dynamics");
    m0 = w.total(1, R);
    for (int q = 0; q < c.ntr; q++) t0[q] = w.totalTracer(1, q);
    w.grid->PostProcessSubstage(1, DataType_State);
    if (c.ntr) w.grid->PostProcessSubstage(1, DataType_Tracers);
    ts_near(w.total(1, R), m0, tolm, "total mass unchanged by the averaging across elements");
    for (int q = 0; q < c.ntr; q++) ts_near(w.totalTracer(1, q), t0[q], tolt, "total tracer mass unchanged by the averaging across elements");
    // something moved
    GridPatch *p = w.patch(0);
    if (w.test->s.size()) __ts_api_can_differ(p->GetDataState(1, w.loc(R))[R][2][2][0], p->GetDataState(0, w.loc(R))[R][2][2][0], 1e-9, "density changes locally");
  }
  ts_reach("mass");
}
static void consist() {
  // a uniform mixing ratio stays uniform
  World w(c);
  w.setup();
  w.test->s = syms(atoi(arg(r, "ns", "2").c_str()));
  w.test->topo = atof(arg(r, "topo", "0").c_str());
  w.attach();
  Time t;
  int R = massVar();
  double q0 = ts_real("q", 0, 2);
  for (int n = 0; n < w.patches(); n++) {
    GridPatch *p = w.patch(n);
    const PatchBox &b = p->GetPatchBox();
    for (int i = 0; i < b.GetATotalWidth(); i++) for (int j = 0; j < b.GetBTotalWidth(); j++) for (int k = 0; k < w.nk(R); k++)
      for (int q = 0; q < c.ntr; q++) p->GetDataTracers(0)[q][i][j][k] = q0 * (q + 1) * p->GetDataState(0, w.loc(R))[R][i][j][k];
  }
  w.grid->CopyData(0, 1, DataType_State);
  w.grid->CopyData(0, 1, DataType_Tracers);
  w.model->GetHorizontalDynamics()->StepExplicit(0, 1, t, 20);
  const char *L[3] = {"uniform mixing ratio kept by the horizontal dynamics", "uniform mixing ratio kept by the explicit vertical dynamics",
                      "uniform mixing ratio kept by the averaging across elements"};
  for (int ph = 0; ph < 3; ph++) {
    if (ph == 1) w.model->GetVerticalDynamics()->StepExplicit(0, 1, t, 20);
    if (ph == 2) { w.grid->PostProcessSubstage(1, DataType_State); w.grid->PostProcessSubstage(1, DataType_Tracers); }
    w.each(DataLocation_Node, [&](GridPatch *p, int i, int j, int k) {
      for (int q = 0; q < c.ntr; q++)
        ts_near(p->GetDataTracers(1)[q][i][j][k], q0 * (q + 1) * p->GetDataState(1, w.loc(R))[R][i][j][k], 1e-9, L[ph]);
    });
  }
  ts_reach("consist");
}

// averaging across elements
static void dss() {
  World w(c);
  int np = atoi(arg(r, "np", "0").c_str());
  if (np) w.setupPatches(np); else w.setup();
  w.attach();
  std::vector<double> s = syms(2);
  double sc[5] = {3e6, 2e6, 5, 1, 0.1};
  if (c.cart) { sc[0] = 5; sc[1] = 4; }
  if (c.sw) sc[2] = 100;
  addNoise(w, 0, s, sc);
  std::vector<std::vector<World::Node> > G = w.groups();
  bool nonper = c.cart && (c.bc[0] || c.bc[1]);
  double tol[5] = {3e-2, 3e-2, 1e-9, 1e-9, 1e-10};
  if (c.cart) tol[0] = tol[1] = 1e-9;
  // plain means over the copies of every node before the averaging
  std::map<std::pair<int, int>, std::vector<double> > mean;
  std::vector<double> tot;
  for (int v = 2; v < w.comps(); v++) tot.push_back(w.total(0, v));
  for (int t = 0; t < c.ntr; t++) tot.push_back(w.totalTracer(0, t));
  size_t maxc = 0;
  for (int v = 0; v < w.comps() + c.ntr; v++)
    for (size_t g = 0; g < G.size(); g++) {
      std::vector<double> m;
      if (G[g].size() > maxc) maxc = G[g].size();
      int K = v < w.comps() ? w.nk(v) : w.grid->GetRElements();
      for (int k = 0; k < K; k++) {
        if (v < 2 && !c.cart) {
          if (v == 1) continue;
          double S[3] = {0, 0, 0};
          for (size_t q = 0; q < G[g].size(); q++) {
            double V[3]; const World::Node &n = G[g][q];
            w.vector3(n.p, n.i, n.j, w.state(n.p, 0, 0, n.i, n.j, k), w.state(n.p, 0, 1, n.i, n.j, k), V);
            for (int d = 0; d < 3; d++) S[d] += V[d] / G[g].size();
          }
          for (int d = 0; d < 3; d++) m.push_back(S[d]);
        } else {
          double S = 0;
          for (size_t q = 0; q < G[g].size(); q++) {
            const World::Node &n = G[g][q];
            S += (v < w.comps() ? w.state(n.p, 0, v, n.i, n.j, k) : n.p->GetDataTracers(0)[v - w.comps()][n.i][n.j][k]) / G[g].size();
          }
          m.push_back(S);
        }
      }
      mean[std::make_pair(v, (int)g)] = m;
    }
  ts_check(maxc >= (c.cart ? (c.xz ? 2u : 4u) : 3u), "coincident nodes found");
  for (int pass = 0; pass < 2; pass++) {
    dynamic_cast<GridGLL *>(w.grid)->ApplyDSS(0, DataType_State);
    if (c.ntr) dynamic_cast<GridGLL *>(w.grid)->ApplyDSS(0, DataType_Tracers);
    for (int v = 0; v < w.comps() + c.ntr; v++) for (size_t g = 0; g < G.size(); g++) {
      std::vector<double> &m = mean[std::make_pair(v, (int)g)];
      int K = v < w.comps() ? w.nk(v) : w.grid->GetRElements();
      for (int k = 0; k < K; k++)
        for (size_t q = 0; q < G[g].size(); q++) {
          const World::Node &n = G[g][q];
          if (v < 2 && !c.cart) {
            if (v == 1) continue;
            double V[3];
            w.vector3(n.p, n.i, n.j, w.state(n.p, 0, 0, n.i, n.j, k), w.state(n.p, 0, 1, n.i, n.j, k), V);
            for (int d = 0; d < 3; d++) ts_near(V[d], m[3 * k + d], tol[0], pass ? "averaging twice changes nothing (wind)" : "the shared wind vector is the mean of the element values");
          } else {
            double x = v < w.comps() ? w.state(n.p, 0, v, n.i, n.j, k) : n.p->GetDataTracers(0)[v - w.comps()][n.i][n.j][k];
            ts_near(x, m[k], v < w.comps() ? tol[v] : 1e-10, pass ? "averaging twice changes nothing" : "the shared value is the mean of the element values");
          }
        }
    }
    if (!pass && !nonper) {
      double ar = 0;
      w.each(DataLocation_Node, [&](GridPatch *p, int i, int j, int k) { ar += World::area(p, DataLocation_Node)[i][j][k]; });
      int q = 0;
      for (int v = 2; v < w.comps(); v++, q++) ts_near(w.total(0, v), tot[q], 1e-11 * ar * (v == 2 ? 2000 : 1), "the integral is unchanged by the averaging");
      for (int t = 0; t < c.ntr; t++, q++) ts_near(w.totalTracer(0, t), tot[q], 1e-11 * ar, "the tracer integral is unchanged by the averaging");
    }
  }
  ts_reach("dss");
}

// one model advanced by the explicit operators (or a whole step); result by global index
typedef std::map<std::vector<int>, double> Snap;
static void snap(World &w, int ix, Snap &S) {
  for (int v = 0; v < w.comps() + c.ntr; v++)
    w.each(v < w.comps() ? w.loc(v) : DataLocation_Node, [&](GridPatch *p, int i, int j, int k) {
      const PatchBox &b = p->GetPatchBox();
      std::vector<int> key(5);
      key[0] = b.GetPanel(); key[1] = b.GetAGlobalInteriorBegin() + i - b.GetAInteriorBegin(); key[2] = b.GetBGlobalInteriorBegin() + j - b.GetBInteriorBegin();
      key[3] = v; key[4] = k;
      if (S.count(key)) S[key] = 1e300; else
      S[key] = v < w.comps() ? w.state(p, ix, v, i, j, k) : p->GetDataTracers(ix)[v - w.comps()][i][j][k];
    });
}
static std::vector<double> g_s;
static void advance(World &w, Snap &S) {
  Time t;
  double dt = 20;
  int steps = atoi(arg(r, "steps", "1").c_str());
  w.test->s = g_s;
  w.test->topo = atof(arg(r, "topo", "0").c_str());
  w.attach();
  int out = 0;
  if (has(r, "step")) for (int q = 0; q < steps; q++) w.model->GetTimestepScheme()->Step(q == 0, q == steps - 1, t, dt);
  else {
    w.grid->CopyData(0, 1, DataType_State);
    if (c.ntr) w.grid->CopyData(0, 1, DataType_Tracers);
    w.model->GetHorizontalDynamics()->StepExplicit(0, 1, t, dt);
    if (has(r, "vert")) w.model->GetVerticalDynamics()->StepExplicit(0, 1, t, dt);
    w.grid->PostProcessSubstage(1, DataType_State);
    if (c.ntr) w.grid->PostProcessSubstage(1, DataType_Tracers);
    out = 1;
    if (has(r, "after")) {
      w.grid->CopyData(1, 2, DataType_State);
      w.grid->CopyData(1, 3, DataType_State);
      if (c.ntr) { w.grid->CopyData(1, 2, DataType_Tracers); w.grid->CopyData(1, 3, DataType_Tracers); }
      w.model->GetHorizontalDynamics()->StepAfterSubCycle(1, 2, 3, t, dt);
      out = 2;
    }
  }
  snap(w, out, S);
}
static void same(const Snap &A, const Snap &B, const char *what) {
  ts_check(A.size() == B.size(), "every node belongs to exactly one patch");
  for (Snap::const_iterator a = A.begin(); a != A.end(); ++a) {
    Snap::const_iterator b = B.find(a->first);
    if (b == B.end()) { ts_check(false, "every node belongs to exactly one patch"); continue; }
    double sc = a->first[3] < 2 ? (c.cart ? 1e-8 : 1e-1) : 1e-8;
    ts_near(a->second, b->second, sc, what);
  }
}
static Snap g_S;
static World *g_w[32];
static void rankBody(int rank, void *) {
  World *w = g_w[rank];
  w->setup();
  advance(*w, g_S);
}
static void decomp() {
  g_s = syms(atoi(arg(r, "ns", "2").c_str()));
  Snap S0, S1;
  int np = atoi(arg(r, "np", "0").c_str()), ranks = atoi(arg(r, "ranks", "0").c_str());
  World w0(c);
  if (c.cart) w0.setupPatches(1); else w0.setup();
  advance(w0, S0);
  if (np) {
    World w1(c);
    w1.setupPatches(np);
    ts_note("patches", w1.patches());
    ts_check(w1.patches() != w0.patches(), "patch layouts differ");
    advance(w1, S1);
    same(S0, S1, "the result does not depend on the number of patches");
  }
  if (ranks) {
    for (int q = 0; q < ranks; q++) g_w[q] = new World(c);
    mpi_sim_run(ranks, rankBody, 0, atoi(arg(r, "ch", "0").c_str()));
    ts_note("messages", mpi_sim_messages);
    ts_check(mpi_sim_messages > 0, "messages were exchanged");
    same(S0, g_S, "the result does not depend on the number of processes or the message schedule");
  }
  ts_reach("decomp");
}
static void body(int argc, char **argv) {
  mpi_sim_as(0, 1);
  c = parseCfg(argc, argv, r);
  if (has(r, "mass")) mass();
  if (has(r, "consist")) consist();
  if (has(r, "dss")) dss();
  if (has(r, "decomp")) decomp();
}
