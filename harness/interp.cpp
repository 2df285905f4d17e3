// Values at output points: interpolation, conversion, ownership of points.
#include "common.h"
#include "OutputManagerReference.h"
#include "nc_stub.h"
struct Poly {
  double s[4];
  int o, vo;
  double x0, xs, y0, ys;
  // a polynomial of the element order in the two horizontal coordinates and of degree d in the column coordinate
  double operator()(int v, double a, double b, double z, int d) const {
    double x = (a - x0) / xs, y = (b - y0) / ys, xp = 1, yp = 1, zp = 1;
    for (int q = 1; q < o; q++) { xp *= x; yp *= y; }
    for (int q = 0; q < d; q++) zp *= z;
    double f = 2 + 0.3 * v;
    f += s[0] * noise(1, v, 0, 0, 0, 0) * xp * (1 + 0.5 * zp);
    f += s[1] * noise(2, v, 0, 0, 0, 0) * yp * (0.5 + x);
    f += s[2] * noise(3, v, 0, 0, 0, 0) * (o > 2 ? x * y * zp : zp);
    f += s[3] * noise(4, v, 0, 0, 0, 0) * (xp * yp + 0.3 * zp + 0.2);
    return f;
  }
};
static double magOf(int v) { return v == 2 ? 100 : v == 4 ? 0.3 : v < 2 ? 10 : 1; }
static void points() {
  World w(c);
  int np = atoi(arg(r, "np", "0").c_str());
  if (np) w.setupPatches(np); else w.setup();
  w.test->topo = atof(arg(r, "topo", "0").c_str());
  w.attach();
  Grid *g = w.grid;
  Poly P;
  P.o = c.order; P.vo = c.sw ? 1 : c.vorder;
  if (c.cart) { P.x0 = 0; P.xs = c.lx; P.y0 = 0; P.ys = c.ly; }
  else { P.x0 = P.y0 = 0; P.xs = P.ys = M_PI / 4; }
  for (int m = 0; m < 4; m++) { char b[8]; sprintf(b, "s%d", m); P.s[m] = ts_real(b, -1, 1); }
  bool noRef = has(r, "noref"), prim = !has(r, "raw"), own = has(r, "own");
  // degree in the vertical the interpolation reproduces
  bool freeEta = has(r, "eta");
  int dn = c.vdisc == "fv" ? 0 : freeEta ? P.vo - 1 : 2, de = c.vdisc == "fv" ? 1 : freeEta ? P.vo : 2;
  const DataArray1D<double> &lev = g->GetREtaLevels(), &ifc = g->GetREtaInterfaces();
  const int nc = w.comps();
  auto deg = [&](int v) { return v < nc && w.loc(v) == DataLocation_REdge ? de : dn; };
  // set the fields
  for (int n = 0; n < w.patches(); n++) {
    GridPatch *p = w.patch(n);
    int ip = p->GetPatchBox().GetPanel();
    const PatchBox &b = p->GetPatchBox();
    for (int i = b.GetAInteriorBegin(); i < b.GetAInteriorEnd(); i++) for (int j = b.GetBInteriorBegin(); j < b.GetBInteriorEnd(); j++) {
      double a = p->GetANode(i), bb = p->GetBNode(j);
      for (int v = 0; v < nc; v++) for (int k = 0; k < w.nk(v); k++) {
        bool edge = w.loc(v) == DataLocation_REdge;
        double f = magOf(v) * P(v + 10 * ip, a, bb, edge ? ifc[k] : lev[k], deg(v));
        double rf = magOf(v) * (1 + 0.01 * noise(9, v, ip, i, j, k));
        // the reference is a polynomial too
        rf = magOf(v) * 0.3 * P(v + 5, a, bb, edge ? ifc[k] : lev[k], deg(v));
        if (v == 3 && prim) {
          double z = edge ? static_cast<GridPatchGLL *>(p)->GetDerivRREdge()[i][j][k][2] : static_cast<GridPatchGLL *>(p)->GetDerivRNode()[i][j][k][2];
          f *= z; if (noRef) rf *= z;
        }
        p->GetDataState(0, w.loc(v))[v][i][j][k] = f;
        if (noRef) const_cast<DataArray4D<double> &>(p->GetReferenceState(w.loc(v)))[v][i][j][k] = v == 3 ? 0.0 : rf;
      }
      for (int q = 0; q < c.ntr; q++) for (int k = 0; k < g->GetRElements(); k++) p->GetDataTracers(0)[q][i][j][k] = P(20 + q + 10 * ip, a, bb, lev[k], dn);
      if (!own) p->GetTopography()[i][j] = 7 * P(40 + ip, a, bb, 0, 0);
    }
  }
  // the points
  std::vector<double> X, Y;
  if (has(r, "grid")) {
    // a regular longitude-latitude (or x-y) grid
    int nx = atoi(arg(r, "gx", "8").c_str()), ny = atoi(arg(r, "gy", "4").c_str());
    for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) {
      if (c.cart) { X.push_back(c.lx * (i + 0.5) / nx); Y.push_back(c.ly * (j + 0.5) / ny); }
      else { X.push_back(360.0 * (i + 0.5) / nx); Y.push_back(-90 + 180.0 * (j + 0.5) / ny); }
    }
  } else {
    if (c.cart) { X.push_back(c.lx * ts_real("x", 0, 1)); Y.push_back(c.ly * ts_real("y", 0, 1)); }
    else { X.push_back(0); Y.push_back(0); }
  }
  const int N = X.size();
  DataArray1D<double> dX(N), dY(N), A(N), B(N), dEta;
  DataArray1D<int> ipa(N);
  for (int q = 0; q < N; q++) { dX[q] = X[q]; dY[q] = Y[q]; }
  if (!c.cart && !has(r, "grid")) {
    // one point anywhere on a panel
    int pn = ts_choice("patch", 0, g->GetPatchCount() - 1);
    GridPatch *p = 0;
    for (int n = 0; n < w.patches(); n++) if (w.patch(n)->GetPatchIndex() == pn) p = w.patch(n);
    const PatchBox &b = p->GetPatchBox();
    double a0 = p->GetAEdge(b.GetAInteriorBegin()), a1 = p->GetAEdge(b.GetAInteriorEnd()), b0 = p->GetBEdge(b.GetBInteriorBegin()), b1 = p->GetBEdge(b.GetBInteriorEnd());
    A[0] = a0 + (a1 - a0) * ts_real("x", 0, 1); B[0] = b0 + (b1 - b0) * ts_real("y", 0, 1); ipa[0] = pn;
  } else {
    g->ConvertReferenceToPatchCoord(dX, dY, A, B, ipa);
    for (int q = 0; q < N; q++) {
      GridPatch *p = 0;
      for (int n = 0; n < w.patches(); n++) if (w.patch(n)->GetPatchIndex() == ipa[q]) p = w.patch(n);
      ts_check(p != 0, "every output point lies in a patch");
      if (!p) return;
      const PatchBox &b = p->GetPatchBox();
      ts_check((int)(A[q] >= p->GetAEdge(b.GetAInteriorBegin()) - 1e-9) & (int)(A[q] <= p->GetAEdge(b.GetAInteriorEnd()) + 1e-9) &
               (int)(B[q] >= p->GetBEdge(b.GetBInteriorBegin()) - 1e-9) & (int)(B[q] <= p->GetBEdge(b.GetBInteriorEnd()) + 1e-9), "an output point lies inside its patch");
      if (c.cart) { ts_near(A[q], X[q], 1e-9 * c.lx, "an output point keeps its position"); ts_near(B[q], Y[q], 1e-9 * c.ly, "an output point keeps its position"); }
      else {
        double lon, lat;
        CubedSphereTrans::RLLFromABP(A[q], B[q], p->GetPatchBox().GetPanel(), lon, lat);
        double e = fabs(cos(lat) * cos(lon) - cos(Y[q] * M_PI / 180) * cos(X[q] * M_PI / 180)) + fabs(cos(lat) * sin(lon) - cos(Y[q] * M_PI / 180) * sin(X[q] * M_PI / 180)) + fabs(sin(lat) - sin(Y[q] * M_PI / 180));
        ts_near(e, 0, 1e-9, "an output point keeps its position");
      }
    }
  }
  // the levels
  std::vector<double> eta;
  if (freeEta) {
    if (has(r, "z")) { int nz = atoi(arg(r, "nz", "1").c_str()); for (int k = 0; k < nz; k++) eta.push_back((k + 0.5) / nz); }
    else eta.push_back(ts_real("eta", 0, 1));
  } else for (unsigned k = 0; k < lev.GetRows(); k++) eta.push_back(lev[k]);
  const int K = eta.size();
  dEta.Allocate(K);
  for (int k = 0; k < K; k++) dEta[k] = eta[k];
  auto panelOf = [&](int q) { int pn = 0; for (int n = 0; n < w.patches(); n++) if (w.patch(n)->GetPatchIndex() == ipa[q]) pn = w.patch(n)->GetPatchBox().GetPanel(); return pn; };
  auto vertOK = [&](int v, int q) { return freeEta || w.loc(v) == DataLocation_Node; };
  (void)vertOK;
  DataArray3D<double> D(nc, K, N);
  g->ReduceInterpolate(DataType_State, dEta, A, B, ipa, D, freeEta || c.sw ? DataLocation_None : DataLocation_Node, !noRef, prim);
  auto expect = [&](int v, int q, double z) {
    int ip = panelOf(q);
    double f = magOf(v) * P(v + 10 * ip, A[q], B[q], z, deg(v));
    if (noRef && v != 3) f -= magOf(v) * 0.3 * P(v + 5, A[q], B[q], z, deg(v));
    return f;
  };
  auto compare = [&](DataArray3D<double> &D, int q, int k, double z, DataLocation only) {
    for (int v = 0; v < nc; v++) {
      if (only != DataLocation_None && w.loc(v) != only) continue;
      if (v < 2 && !c.cart && prim) continue;
      ts_near(D[v][k][q], expect(v, q, z), 1e-8 * magOf(v), v == 3 ? "vertical velocity at an output point" : v < 2 ? "wind component at an output point" : "value at an output point");
    }
    if (!c.cart && prim && (only == DataLocation_None || w.loc(0) == only) && !__ts_api_is_sym(A[q])) {
      // the wind vector: its products with the tangent vectors are the stored components
      double E[2][3], ua = expect(0, q, z), ub = expect(1, q, z), R = w.model->GetPhysicalConstants().GetEarthRadius();
      double lon, lat, h = 1e-4;
      CubedSphereTrans::RLLFromABP(A[q], B[q], panelOf(q), lon, lat);
      for (int d = 0; d < 2; d++) {
        double Q[4][3];
        for (int m = 0; m < 4; m++) {
          double o = (m == 0 ? -2 : m == 1 ? -1 : m == 2 ? 1 : 2) * h, lo, la;
          CubedSphereTrans::RLLFromABP(A[q] + (d == 0 ? o : 0), B[q] + (d == 1 ? o : 0), panelOf(q), lo, la);
          Q[m][0] = cos(la) * cos(lo); Q[m][1] = cos(la) * sin(lo); Q[m][2] = sin(la);
        }
        for (int m = 0; m < 3; m++) E[d][m] = (Q[0][m] - 8 * Q[1][m] + 8 * Q[2][m] - Q[3][m]) / (12 * h);
      }
      double V[3], el[3] = {-sin(lon), cos(lon), 0}, ef[3] = {-sin(lat) * cos(lon), -sin(lat) * sin(lon), cos(lat)};
      for (int m = 0; m < 3; m++) V[m] = D[0][k][q] * el[m] + D[1][k][q] * ef[m];
      ts_near(V[0] * E[0][0] + V[1] * E[0][1] + V[2] * E[0][2], ua / R, 1e-8 * 40 / R, "wind vector at an output point");
      ts_near(V[0] * E[1][0] + V[1] * E[1][1] + V[2] * E[1][2], ub / R, 1e-8 * 40 / R, "wind vector at an output point");
    }
  };
  for (int q = 0; q < N; q++) for (int k = 0; k < K; k++) compare(D, q, k, eta[k], freeEta || c.sw ? DataLocation_None : DataLocation_Node);
  if (!freeEta && !c.sw) {
    // the variables kept on interfaces
    DataArray3D<double> DE(nc, ifc.GetRows(), N);
    g->ReduceInterpolate(DataType_State, ifc, A, B, ipa, DE, DataLocation_REdge, !noRef, prim);
    for (int q = 0; q < N; q++) for (unsigned k = 0; k < ifc.GetRows(); k++) compare(DE, q, k, ifc[k], DataLocation_REdge);
  }
  if (c.ntr) {
    DataArray3D<double> T(c.ntr, K, N);
    g->ReduceInterpolate(DataType_Tracers, dEta, A, B, ipa, T);
    for (int q = 0; q < N; q++) for (int t = 0; t < c.ntr; t++) for (int k = 0; k < K; k++)
      ts_near(T[t][k][q], P(20 + t + 10 * panelOf(q), A[q], B[q], eta[k], dn), 1e-8, "tracer at an output point");
  }
  if (!own) {
    DataArray3D<double> Z(1, 1, N);
    DataArray1D<double> s0(1); s0[0] = 0;
    g->ReduceInterpolate(DataType_Topography, s0, A, B, ipa, Z);
    for (int q = 0; q < N; q++) ts_near(Z[0][0][q], 7 * P(40 + panelOf(q), A[q], B[q], 0, 0), 1e-7, "terrain height at an output point");
  }
  ts_reach("points");
}
// the output file
static World *g_w[8];
static int g_ranks, g_ch, g_np;
static Poly g_P;
static std::map<std::string, std::vector<std::vector<double> > > g_want;  // variable, time index, values
static const Time::CalendarType CAL = Time::CalendarNoLeap;
static int g_begin, g_sec[3] = {0, 21600, 86400 + 3600};
static Time day(int sec) { Time t(2000, 2, 27, g_begin, 0, CAL); t += Time(0, 0, 0, sec, 0, CAL, Time::TypeDelta); return t; }
static double field(int t, int v, int pn, double a, double b, double z, int d) { return (1 + 0.2 * t) * g_P(v + 10 * pn + 3 * t, a, b, z, d); }
static void fill(World &w, int t) {
  Grid *g = w.grid;
  const DataArray1D<double> &lev = g->GetREtaLevels(), &ifc = g->GetREtaInterfaces();
  for (int n = 0; n < w.patches(); n++) {
    GridPatch *p = w.patch(n);
    int ip = p->GetPatchBox().GetPanel();
    const PatchBox &b = p->GetPatchBox();
    for (int i = b.GetAInteriorBegin(); i < b.GetAInteriorEnd(); i++) for (int j = b.GetBInteriorBegin(); j < b.GetBInteriorEnd(); j++) {
      double a = p->GetANode(i), bb = p->GetBNode(j);
      for (int v = 0; v < w.comps(); v++) for (int k = 0; k < w.nk(v); k++) {
        bool edge = w.loc(v) == DataLocation_REdge;
        double f = magOf(v) * field(t, v, ip, a, bb, edge ? ifc[k] : lev[k], 1);
        if (v == 3) f *= edge ? static_cast<GridPatchGLL *>(p)->GetDerivRREdge()[i][j][k][2] : static_cast<GridPatchGLL *>(p)->GetDerivRNode()[i][j][k][2];
        p->GetDataState(0, w.loc(v))[v][i][j][k] = f;
      }
      for (int q = 0; q < c.ntr; q++) for (int k = 0; k < g->GetRElements(); k++) p->GetDataTracers(0)[q][i][j][k] = field(t, 20 + q, ip, a, bb, lev[k], 0);
      for (unsigned q = 0; q < p->GetUserData2D().GetSize(0); q++) p->GetUserData2D()[q][i][j] = field(t, 30 + q, ip, a, bb, 0, 0);
      p->GetTopography()[i][j] = 7 * field(0, 40, ip, a, bb, 0, 0);
    }
  }
}
static void want(World &w, int rank, int t) {
  Grid *g = w.grid;
  int gx = atoi(arg(r, "gx", "4").c_str()), gy = atoi(arg(r, "gy", "3").c_str()), gz = atoi(arg(r, "nz", "0").c_str());
  const int N = gx * gy;
  bool all = has(r, "nodes") || gz;
  DataArray1D<double> X(N), Y(N), A(N), B(N), eta(gz ? gz : g->GetRElements()), ground(1);
  DataArray1D<int> ip(N);
  ground[0] = 0;
  double x0 = -180, x1 = 180, y0 = -90, y1 = 90;
  if (c.cart) { x0 = 0; x1 = c.lx; y0 = 0; y1 = c.ly; }
  for (int j = 0; j < gy; j++) for (int i = 0; i < gx; i++) { X[j * gx + i] = x0 + (x1 - x0) / gx * (i + 0.5); Y[j * gx + i] = y0 + (y1 - y0) / gy * (j + 0.5); }
  for (unsigned k = 0; k < eta.GetRows(); k++) eta[k] = gz ? (k + 0.5) / gz : g->GetREtaLevels()[k];
  g->ConvertReferenceToPatchCoord(X, Y, A, B, ip);
  auto add = [&](const std::string &name, std::vector<double> v) {
    if (rank == 0) g_want[name].push_back(v);
  };
  auto panelOf = [&](int q) { return c.cart ? 0 : g->GetPatchBox(ip[q]).GetPanel(); };
  EquationSet e = World::eqn(c);
  DataArray3D<double> D(w.comps(), eta.GetRows(), N);
  // the wind on the sphere: taken from the interpolation checked on its own
  if (!c.cart) g->ReduceInterpolate(DataType_State, eta, A, B, ip, D, all ? DataLocation_None : DataLocation_Node, true);
  const DataArray1D<double> &ifc = g->GetREtaInterfaces();
  for (int v = 0; v < w.comps(); v++) {
    bool edge = !all && w.loc(v) == DataLocation_REdge;
    int K = edge ? ifc.GetRows() : eta.GetRows();
    std::vector<double> V;
    for (int k = 0; k < K; k++) for (int q = 0; q < N; q++)
      V.push_back(!c.cart && v < 2 ? D[v][k][q] : magOf(v) * field(t, v, panelOf(q), A[q], B[q], edge ? ifc[k] : eta[k], 1));
    add(e.GetComponentShortName(v), V);
  }
  for (int v = 0; v < c.ntr; v++) {
    std::vector<double> V;
    for (unsigned k = 0; k < eta.GetRows(); k++) for (int q = 0; q < N; q++) V.push_back(field(t, 20 + v, panelOf(q), A[q], B[q], eta[k], 0));
    add(e.GetTracerShortName(v), V);
  }
  for (int v = 0; v < w.model->GetUserDataMeta().GetUserData2DItemCount(); v++) {
    std::vector<double> V;
    for (int q = 0; q < N; q++) V.push_back(field(t, 30 + v, panelOf(q), A[q], B[q], 0, 0));
    add(w.model->GetUserDataMeta().GetUserData2DItemName(v), V);
  }
  if (has(r, "diag")) {
    const char *nm[5] = {"ZETA", "DELTA", "T", "PS", "Ri"};
    DataType ty[5] = {DataType_Vorticity, DataType_Divergence, DataType_Temperature, DataType_SurfacePressure, DataType_Richardson};
    g->ComputeVorticityDivergence(0);
    for (int d = 0; d < (c.sw ? 2 : c.cart ? 5 : 4); d++) {
      if (d == 2) g->ComputeTemperature(0);
      if (d == 3) g->ComputeSurfacePressure(0);
      if (d == 4) g->ComputeRichardson(0);
      DataArray3D<double> F(1, d == 3 ? 1 : eta.GetRows(), N);
      g->ReduceInterpolate(ty[d], d == 3 ? ground : eta, A, B, ip, F);
      std::vector<double> V;
      for (unsigned k = 0; k < F.GetColumns(); k++) for (int q = 0; q < N; q++) V.push_back(F[0][k][q]);
      add(nm[d], V);
    }
  }
  if (t == 0) {
    std::vector<double> lon(gx), lat(gy), lv(eta.GetRows()), il(g->GetRElements() + 1), zs(N);
    for (int i = 0; i < gx; i++) lon[i] = X[i];
    for (int j = 0; j < gy; j++) lat[j] = Y[j * gx];
    for (unsigned k = 0; k < lv.size(); k++) lv[k] = eta[k];
    for (unsigned k = 0; k < il.size(); k++) il[k] = g->GetREtaStretchInterfaces()[k];
    for (int q = 0; q < N; q++) zs[q] = 7 * field(0, 40, panelOf(q), A[q], B[q], 0, 0);
    add("lon", lon); add("lat", lat); add("lev", lv); add("ilev", il); add("Zs", zs);
  }
}
static void runF(int rank, void *) {
  World &w = *g_w[rank];
  if (g_np) w.setupPatches(g_np); else w.setup();
  w.model->SetStartTime(day(0));
  w.attach();
  int gx = atoi(arg(r, "gx", "4").c_str()), gy = atoi(arg(r, "gy", "3").c_str()), gz = atoi(arg(r, "nz", "0").c_str()), per = atoi(arg(r, "per", "2").c_str());
  OutputManagerReference out(*w.grid, Time(0, 0, 0, 21600, 0, CAL, Time::TypeDelta), "out", "run", per, gx, gy, gz, has(r, "nodes"), false);
  bool nh = !c.sw, dg = has(r, "diag");
  out.OutputVorticity(dg); out.OutputDivergence(dg);
  if (nh) { out.OutputTemperature(dg); out.OutputSurfacePressure(dg); out.OutputRichardson(dg && c.cart); }
  MPI_Barrier(MPI_COMM_WORLD);
  static bool more = false;
  if (!more && g_ranks > 1) { more = true; mpi_sim_more(g_ch); }
  const int nt = 3;
  for (int t = 0; t < nt; t++) {
    fill(w, t);
    want(w, rank, t);
    if (t == 0) out.InitialOutput(day(0)); else if (t == 1) { ts_check(out.IsOutputNeeded(day(21600)) && !out.IsOutputNeeded(day(21599)), "output needed when its time comes"); out.ManageOutput(day(g_sec[1])); } else if (has(r, "last")) out.FinalOutput(day(g_sec[2])); else { out.ManageOutput(day(g_sec[2])); out.FinalOutput(day(g_sec[2])); }
  }
}
static void file() {
  g_ranks = atoi(arg(r, "ranks", "1").c_str());
  g_ch = atoi(arg(r, "ch", "0").c_str());
  g_np = atoi(arg(r, "np", "0").c_str());
  int per = atoi(arg(r, "per", "2").c_str());
  g_begin = atoi(arg(r, "begin", "0").c_str());
  if (has(r, "anytime")) g_sec[1] = (int)ts_int("sec", 21600, 86400);
  g_P.o = c.order; g_P.vo = c.sw ? 1 : c.vorder; g_P.x0 = g_P.y0 = 0;
  if (c.cart) { g_P.xs = c.lx; g_P.ys = c.ly; } else g_P.xs = g_P.ys = M_PI / 4;
  for (int m = 0; m < 4; m++) { char b[8]; sprintf(b, "s%d", m); g_P.s[m] = ts_real(b, -1, 1); }
  for (int q = 0; q < g_ranks; q++) g_w[q] = new World(c);
  if (g_ranks > 1) mpi_sim_run(g_ranks, runF, 0, 0); else runF(0, 0);
  mpi_sim_as(0, 1);
  const int nt = 3, *secs = g_sec;
  const int files = per > 0 ? (nt + per - 1) / per : 1;
  ts_check((int)nc_files.size() == files, "number of output files");
  for (int f = 0; f < (int)nc_files.size(); f++) {
    const NcMemFile &F = nc_files[f];
    int t0 = per > 0 ? f * per : 0, t1 = per > 0 && t0 + per < nt ? t0 + per : nt;
    ts_check(!F.open, "an output file is closed in the end");
    ts_check(F.path == "out/run." + day(secs[t0]).ToShortString() + ".nc", "name of an output file");
    const NcMemVar *T = F.find("time");
    ts_check(T != 0 && (int)T->val.size() == t1 - t0, "number of times in an output file");
    // the moment the axis counts from, in seconds after the start of the first day
    int Y = 0, M = 0, D = 0, h = 0, mi = 0, se = 0;
    std::string un = T->att.count("units") ? T->att.find("units")->second : "";
    int got = sscanf(un.c_str(), "days since %d-%d-%d%*c%d:%d:%d", &Y, &M, &D, &h, &mi, &se);
    ts_check(got >= 3 && Y == 2000 && M == 3 && D == 28, "date the time axis counts from");
    const double origin = h * 3600.0 + mi * 60.0 + se;
    size_t n = 1;
    for (auto &W : g_want) {
      const NcMemVar *V = F.find(W.first);
      bool fixed = W.second.size() == 1;
      ts_check(V != 0, "every field is in the output file");
      if (!V) continue;
      n++;
      double mag = 1;
      for (int v = 0; v < (c.sw ? 3 : 5); v++) if (W.first == World::eqn(c).GetComponentShortName(v)) mag = magOf(v);
      if (W.first == "ZETA" || W.first == "DELTA") mag = 1e-5;
      if (W.first == "lon" || W.first == "lat") mag = 1000;
      size_t total = 0;
      for (int t = t0; t < t1; t++) {
        if (fixed && t > t0) break;
        const std::vector<double> &X = W.second[fixed ? 0 : t];
        total += X.size();
        std::vector<size_t> dim(V->dims.size());
        for (size_t q = 0; q < dim.size(); q++) dim[q] = F.unlimited[V->dims[q]] ? 1 : F.dimLen[V->dims[q]];
        size_t prod = 1;
        for (size_t q = 0; q < dim.size(); q++) prod *= dim[q];
        ts_check(prod == X.size() && (fixed || F.unlimited[V->dims[0]]), "dimensions of an output variable");
        if (prod != X.size()) return;
        for (size_t m = 0; m < prod; m++) {
          std::vector<size_t> ix(dim.size());
          size_t h = m;
          for (size_t q = dim.size(); q-- > 0;) { ix[q] = h % dim[q]; h /= dim[q]; }
          if (!fixed) ix[0] = t - t0;
          std::map<std::vector<size_t>, double>::const_iterator it = V->val.find(ix);
          ts_check(it != V->val.end() && V->writes.find(ix)->second == 1, "every value of the output file is written once");
          if (it == V->val.end()) return;
          ts_near(it->second, X[m], 1e-7 * mag, W.first == "Zs" ? "terrain height in the output file" : fixed ? "coordinates in the output file" : "field in the output file");
        }
      }
      ts_check(V->val.size() == total, "nothing else is written to the output file");
    }
    for (int t = t0; t < t1; t++) {
      std::vector<size_t> ix(1, t - t0);
      ts_near(T->val.count(ix) ? T->val.find(ix)->second : -1, (g_begin + secs[t] - origin) / 86400.0, 1e-9, "time axis of the output file");
    }
    ts_check(F.var.size() == n, "no other field is in the output file");
  }
  ts_reach("file");
}
static void body(int argc, char **argv) {
  mpi_sim_as(0, 1);
  c = parseCfg(argc, argv, r);
  if (has(r, "points")) points(); else if (has(r, "file")) file();
}
