// Diagnostics, totals, state arithmetic and the equation of state.
#include "common.h"
#include "DataType.h"
#include "ConsolidationStatus.h"

static const DataLocation NODE = DataLocation_Node, EDGE = DataLocation_REdge;
static std::string word(const char *k, const char *d) { return arg(r, k, d); }

// every value of every instance from noise fields with symbolic amplitudes; copies of a node share their value
static void fill(World &w, int ix, const std::vector<double> &s, int salt = 0, bool shared = false) {
  for (int q = 0; q < 2; q++)
    for (int n = 0; n < w.patches(); n++) {
      DataArray4D<double> &d = w.patch(n)->GetDataState(ix, q ? EDGE : NODE);
      for (size_t v = 0; v < d.GetSize(0); v++) for (size_t i = 0; i < d.GetSize(1); i++) for (size_t j = 0; j < d.GetSize(2); j++) for (size_t k = 0; k < d.GetSize(3); k++) {
        double x = 4 + noise(99, w.patch(n)->GetPatchIndex() + salt, v + 50 * q, i, j, k);
        for (size_t m = 0; m < s.size(); m++) x += s[m] * noise(m, w.patch(n)->GetPatchIndex() + salt, v + 50 * q, i, j, k);
        d[v][i][j][k] = x;
      }
    }
  for (int n = 0; n < w.patches() && c.ntr; n++) {
    DataArray4D<double> &d = w.patch(n)->GetDataTracers(ix);
    for (size_t v = 0; v < d.GetSize(0); v++) for (size_t i = 0; i < d.GetSize(1); i++) for (size_t j = 0; j < d.GetSize(2); j++) for (size_t k = 0; k < d.GetSize(3); k++) {
      double x = 4 + noise(98, w.patch(n)->GetPatchIndex() + salt, v + 90, i, j, k);
      for (size_t m = 0; m < s.size(); m++) x += s[m] * noise(m, w.patch(n)->GetPatchIndex() + salt, v + 90, i, j, k);
      d[v][i][j][k] = x;
    }
  }
}
// horizontal area belonging to a node
static double elemA(GridPatch *p, bool b) { GridPatchGLL *g = dynamic_cast<GridPatchGLL *>(p); return b ? g->GetElementDeltaB() : g->GetElementDeltaA(); }
static double area2(World &w, GridPatch *p, int i, int j) {
  // quadrature weight from the node's own share of its element, independent of the terrain
  static std::vector<double> wt;
  if (wt.empty()) {
    const int o = c.order;
    // Gauss-Lobatto weights on [0,1] from the nodes of the first element
    std::vector<double> x(o);
    for (int q = 0; q < o; q++) x[q] = (p->GetANode(p->GetPatchBox().GetAInteriorBegin() + q) - p->GetANode(p->GetPatchBox().GetAInteriorBegin())) /
      (p->GetANode(p->GetPatchBox().GetAInteriorBegin() + o - 1) - p->GetANode(p->GetPatchBox().GetAInteriorBegin()));
    wt.resize(o);
    for (int q = 0; q < o; q++) {
      // integral of the Lagrange polynomial by a fine composite Gauss rule
      double t = 0;
      for (int e = 0; e < 40; e++) for (int g = 0; g < 2; g++) {
        double y = (e + 0.5 + (g ? 1 : -1) * 0.288675134594812882) / 40, l = 1;
        for (int m = 0; m < o; m++) if (m != q) l *= (y - x[m]) / (x[q] - x[m]);
        t += l / 80;
      }
      wt[q] = t;
    }
  }
  const PatchBox &b = p->GetPatchBox();
  return wt[(i - b.GetAInteriorBegin()) % c.order] * wt[(j - b.GetBInteriorBegin()) % c.order] * elemA(p, false) * elemA(p, true) * p->GetJacobian2D()[i][j];
}

// the circulation and the outflow of the whole domain vanish for every wind that is continuous
static void stokes() {
  World w(c);
  w.setup(); w.attach();
  std::vector<double> s = syms(4);
  fill(w, 0, s);
  dynamic_cast<GridGLL *>(w.grid)->ApplyDSS(0, DataType_State);
  w.grid->ComputeVorticityDivergence(0);
  const int K = w.grid->GetRElements();
  std::vector<double> V(K, 0.0), D(K, 0.0);
  double A = 0, L = 0;
  w.each(DataLocation_None, [&](GridPatch *p, int i, int j, int) {
    double a = area2(w, p, i, j);
    A += a;
    for (int k = 0; k < K; k++) { V[k] += a * p->GetDataVorticity()[i][j][k]; D[k] += a * p->GetDataDivergence()[i][j][k]; }
    L = std::max(L, 1 / elemA(p, false) / sqrt(p->GetJacobian2D()[i][j]));
  });
  // size of one term: wind of a few m/s over the size of an element
  for (int k = 0; k < K; k++) {
    const double tol = 1e-9 * A * (w.c.cart ? L : L / 6e6);
    ts_near(V[k], 0, tol, "the circulation around the whole domain vanishes");
    ts_near(D[k], 0, tol, "the outflow of the whole domain vanishes");
  }
  // equal copies
  for (auto &g : w.groups()) for (size_t q = 1; q < g.size(); q++) for (int k = 0; k < K; k++) {
    const double sc = 1e-8 * L * (w.c.cart ? 1 : 1e-6);
    ts_near(g[0].p->GetDataVorticity()[g[0].i][g[0].j][k], g[q].p->GetDataVorticity()[g[q].i][g[q].j][k], sc, "copies of a node hold the same vorticity");
    ts_near(g[0].p->GetDataDivergence()[g[0].i][g[0].j][k], g[q].p->GetDataDivergence()[g[q].i][g[q].j][k], sc, "copies of a node hold the same divergence");
  }
  ts_reach("stokes");
}
// polynomial winds on the plane: exact away from the seam of the period
static void poly() {
  World w(c);
  w.setup(); w.attach();
  std::vector<double> s = syms(6);
  const int K = w.grid->GetRElements();
  auto P = [&](int q, double x, double y, int d, int k) {   // d: 0 value, 1 d/dx, 2 d/dy, lengths in units of lx, ly
    double X = x / c.lx, Y = y / c.ly, a = s[3 * q], b = s[3 * q + 1], e = s[3 * q + 2] * (1 + 0.3 * k);
    const bool hi = c.order >= 4;
    if (d == 0) return 3 + a * (X * Y + Y) + b * (X * X - 0.5 * Y * Y) + e * (hi ? X * X * Y + Y * Y * Y * 0.7 + X * X * X : X - 2 * Y);
    if (d == 1) return (a * Y + b * 2 * X + e * (hi ? 2 * X * Y + 3 * X * X : 1.0)) / c.lx;
    return (a * (X + 1) - b * Y + e * (hi ? X * X + 2.1 * Y * Y : -2.0)) / c.ly;
  };
  w.each(NODE, [&](GridPatch *p, int i, int j, int k) {
    double x = p->GetLongitude()[i][j], y = p->GetLatitude()[i][j];
    for (int q = 0; q < 2; q++) p->GetDataState(0, NODE)[q][i][j][k] = P(q, x, y, 0, k);
  });
  w.grid->ComputeVorticityDivergence(0);
  int seen = 0;
  w.each(NODE, [&](GridPatch *p, int i, int j, int k) {
    double x = p->GetLongitude()[i][j], y = p->GetLatitude()[i][j], e = 1e-6;
    if (x < e * c.lx || x > (1 - e) * c.lx || y < e * c.ly || y > (1 - e) * c.ly) return;
    seen++;
    double vx = P(1, x, y, 1, k), uy = P(0, x, y, 2, k), ux = P(0, x, y, 1, k), vy = P(1, x, y, 2, k);
    ts_near(p->GetDataVorticity()[i][j][k], vx - uy, 1e-12, "vorticity of a polynomial wind");
    ts_near(p->GetDataDivergence()[i][j][k], ux + vy, 1e-12, "divergence of a polynomial wind");
  });
  ts_check(seen > 0, "nodes to compare");
  ts_reach("poly");
}
// rotation about any axis and gradient winds on the sphere
static void sphere() {
  World w(c);
  w.setup(); w.attach();
  const double R = w.model->GetPhysicalConstants().GetEarthRadius(), tol = atof(word("tol", "0.01").c_str());
  std::vector<double> s = syms(5);
  const double Q1[3] = {0.5, -0.3, 0.8}, Q2[3] = {0.4, -0.6, -0.475};
  auto dot = [](const double *a, const double *b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; };
  w.each(NODE, [&](GridPatch *p, int i, int j, int k) {
    double n[3], E[2][3], V[3] = {0, 0, 0};
    w.position(p, i, j, n); w.tangents(p, i, j, E);
    // rotation about the axis (s0,s1,s2); gradient of s3 Q1.n; gradient of s4 (Q1.n)(Q2.n)
    const double f = 1 + 0.2 * k;
    double G[3], H[3];
    for (int d = 0; d < 3; d++) { G[d] = Q1[d]; H[d] = Q1[d] * dot(Q2, n) + Q2[d] * dot(Q1, n); }
    double gn = dot(G, n), hn = dot(H, n);
    for (int d = 0; d < 3; d++) { G[d] -= gn * n[d]; H[d] -= hn * n[d]; }
    V[0] = s[1] * n[2] - s[2] * n[1] + s[3] * G[0] + s[4] * H[0];
    V[1] = s[2] * n[0] - s[0] * n[2] + s[3] * G[1] + s[4] * H[1];
    V[2] = s[0] * n[1] - s[1] * n[0] + s[3] * G[2] + s[4] * H[2];
    for (int q = 0; q < 2; q++) p->GetDataState(0, NODE)[q][i][j][k] = f * R * (V[0] * E[q][0] + V[1] * E[q][1] + V[2] * E[q][2]);
  });
  w.grid->ComputeVorticityDivergence(0);
  w.each(NODE, [&](GridPatch *p, int i, int j, int k) {
    double n[3]; w.position(p, i, j, n);
    const double f = 1 + 0.2 * k;
    double z = 2 * (s[0] * n[0] + s[1] * n[1] + s[2] * n[2]), d = -2 * s[3] * dot(Q1, n) - 6 * s[4] * (dot(Q1, n) * dot(Q2, n) - dot(Q1, Q2) / 3);
    ts_near(p->GetDataVorticity()[i][j][k] * R, f * z, tol, "vorticity of a wind on the sphere");
    ts_near(p->GetDataDivergence()[i][j][k] * R, f * d, tol, "divergence of a wind on the sphere");
  });
  ts_reach("sphere");
}
// temperature and surface pressure
static void column() {
  World w(c);
  w.setup();
  w.test->topo = atof(word("topo", "0").c_str());
  w.attach();
  const PhysicalConstants &ph = w.model->GetPhysicalConstants();
  std::vector<double> s = syms(3);
  const double sc[5] = {3, 3, 5, 0.5, 0.05};
  addNoise(w, 0, s, sc);
  const int K = w.grid->GetRElements();
  // over terrain on the plane the heights are no linear function of the level coordinate
  const bool hills = c.cart && w.test->topo != 0;
  const bool exact = c.vorder <= 2 && c.vdisc == "fe" && !has(r, "bands") && !hills;
  // uniform density where the layers of the column are not those of the mass
  if (!exact) w.each(NODE, [&](GridPatch *p, int i, int j, int k) { p->GetDataState(0, NODE)[4][i][j][k] = 1.1 + 0.1 * s[0] + 0.05 * s[1] * noise(1, 0, 0, i, j, 0); });
  w.grid->ComputeTemperature(0);
  w.grid->ComputeSurfacePressure(0);
  const double Rd = ph.GetR(), p0 = ph.GetP0(), gam = ph.GetCp() / (ph.GetCp() - ph.GetR());
  w.each(NODE, [&](GridPatch *p, int i, int j, int k) {
    const DataArray4D<double> &d = p->GetDataState(0, NODE);
    const double rt = d[2][i][j][k], rho = d[4][i][j][k];
    // ideal gas: p = p0 (R rho theta / p0)^gamma, T = p / (R rho)
    double pr = p0 * pow(Rd * rt / p0, gam);
    ts_near(p->GetDataTemperature()[i][j][k], pr / (Rd * rho), 1e-8 * 300, "temperature follows from density and potential temperature");
  });
  w.each(DataLocation_None, [&](GridPatch *p, int i, int j, int) {
    double m = 0;
    for (int k = 0; k < K; k++) m += p->GetDataState(0, NODE)[4][i][j][k] * p->GetElementAreaNode()[i][j][k];
    if (hills) m = p->GetDataState(0, NODE)[4][i][j][0] * (w.grid->GetZtop() - p->GetTopography()[i][j]) * area2(w, p, i, j);
    ts_near(p->GetDataSurfacePressure()[i][j], ph.GetG() * m / area2(w, p, i, j), (exact ? 1e-6 : 2e-4) * 1e5, "surface pressure is the weight of the column per area");
  });
  ts_reach("column");
}

// sums, norms and maxima over the domain, from one or several processes
static World *g_w[16];
static std::vector<double> g_s;
static bool g_signs;
static double g_x0, g_x1, g_x2, g_energy;
static std::vector<double> g_q[2][4];
static void totalsRank(int rank, void *) {
  World &w = *g_w[rank];
  w.setup();
  w.test->topo = atof(word("topo", "0").c_str());
  w.attach();
  // values of one sign, or a few symbolic values of any sign
  fill(w, 1, g_signs ? std::vector<double>() : g_s);
  if (g_signs) {
    GridPatch *p = w.patch(w.patches() - 1);
    const PatchBox &b = p->GetPatchBox();
    const int last = w.comps() - 1;
    if (rank + 1 == mpi_sim_size()) p->GetDataState(1, w.loc(last))[last][b.GetAInteriorBegin()][b.GetBInteriorEnd() - 1][0] = g_x0;
    // one value of a quantity on interfaces, if there is one
    int ed = -1;
    for (int v = 0; v < w.comps(); v++) if (w.loc(v) == EDGE) ed = v;
    if (rank == 0 && ed >= 0) w.patch(0)->GetDataState(1, EDGE)[ed][w.patch(0)->GetPatchBox().GetAInteriorBegin()][w.patch(0)->GetPatchBox().GetBInteriorBegin() + 1][w.nk(ed) - 1] = g_x2;
    if (rank == 0) w.patch(0)->GetDataState(1, w.loc(0))[0][b.GetAInteriorBegin() + 1][b.GetBInteriorBegin()][w.nk(0) - 1] = g_x1;
    if (rank + 1 == mpi_sim_size() && c.ntr) p->GetDataTracers(1)[c.ntr - 1][b.GetAInteriorBegin()][b.GetBInteriorBegin()][0] = g_x0;
  }
  for (int t = 0; t < (c.ntr ? 2 : 1); t++)
    for (int q = 0; q < (g_signs ? 4 : 3); q++) {
      DataArray1D<double> x;
      w.grid->Checksum(t ? DataType_Tracers : DataType_State, x, 1, q == 0 ? ChecksumType_Sum : q == 1 ? ChecksumType_L1 : q == 2 ? ChecksumType_L2 : ChecksumType_Linf);
      if (rank == 0) { g_q[t][q].clear(); for (size_t v = 0; v < x.GetRows(); v++) g_q[t][q].push_back(x[v]); }
    }
  if (!g_signs) { double e = w.grid->ComputeTotalEnergy(0); if (rank == 0) g_energy = e; }
}
static void totals() {
  const int ranks = atoi(word("ranks", "1").c_str());
  g_s = syms(2, 0, 1);
  g_signs = has(r, "signs");
  if (g_signs) { g_x0 = ts_real("x0", -9, 9); g_x1 = ts_real("x1", -9, 9); g_x2 = c.sw ? 0 : ranks > 1 ? -7.5 : ts_real("x2", -9, 9); }
  for (int q = 0; q < ranks; q++) g_w[q] = new World(c);
  if (ranks > 1) mpi_sim_run(ranks, totalsRank, 0, atoi(word("ch", "0").c_str())); else totalsRank(0, 0);
  const int nv = g_w[0]->comps();
  for (int t = 0; t < (c.ntr ? 2 : 1); t++) {
    const int n = t ? c.ntr : nv;
    std::vector<double> S(n, 0.0), A1(n, 0.0), A2(n, 0.0), M(n, 0.0), Z(n, 0.0);
    for (int q = 0; q < ranks; q++) {
      World &w = *g_w[q];
      for (int v = 0; v < n; v++) {
        DataLocation L = t ? NODE : w.loc(v);
        w.each(L, [&](GridPatch *p, int i, int j, int k) {
          double x = t ? p->GetDataTracers(1)[v][i][j][k] : p->GetDataState(1, L)[v][i][j][k], a = World::area(p, L)[i][j][k];
          S[v] += a * x; A1[v] += a * fabs(x); A2[v] += a * x * x; Z[v] += a;
          if (g_signs) M[v] = fmax(M[v], fabs(x));
        });
      }
    }
    ts_check((int)g_q[t][0].size() >= n, "a total for every quantity");
    if ((int)g_q[t][0].size() < n) continue;
    for (int v = 0; v < n; v++) {
      ts_near(g_q[t][0][v] / Z[v], S[v] / Z[v], 1e-10, "sum over the domain");
      ts_near(g_q[t][1][v] / Z[v], A1[v] / Z[v], 1e-10, "integral of the magnitude");
      ts_near(g_q[t][2][v] * g_q[t][2][v] / Z[v], A2[v] / Z[v], 1e-9, "root of the integral of the square");
      ts_check(g_q[t][2][v] >= 0, "norm is not negative");
      if (g_signs) ts_near(g_q[t][3][v], M[v], 1e-12, "largest magnitude");
    }
  }
  if (!g_signs) {
    // the energy of the whole domain is the sum over its patches
    double E = 0;
    for (int q = 0; q < ranks; q++) for (int n = 0; n < g_w[q]->patches(); n++) E += g_w[q]->patch(n)->ComputeTotalEnergy(0);
    ts_near(g_energy / E, 1, 1e-10, "energy of the domain is the sum over its patches");
  }
  ts_reach(g_signs ? "signs" : "totals");
}
// square length of the gradient of the level coordinate: (1 + |grad z|^2) / z_xi^2
static double gxx(GridPatch *p, int i, int j, const double z[3]) {
  const DataArray3D<double> &A = p->GetContraMetric2DA(), &B = p->GetContraMetric2DB();
  return (1 + A[i][j][0] * z[0] * z[0] + 2 * A[i][j][1] * z[0] * z[1] + B[i][j][1] * z[1] * z[1]) / (z[2] * z[2]);
}
static void energy() {
  World w(c);
  w.setup();
  w.test->topo = atof(word("topo", "0").c_str());
  w.attach();
  const PhysicalConstants &ph = w.model->GetPhysicalConstants();
  std::vector<double> s = syms(3);
  const double R = c.cart ? 1 : ph.GetEarthRadius();
  double len = 0;
  w.each(DataLocation_None, [&](GridPatch *p, int i, int j, int) { len = sqrt(p->GetJacobian2D()[i][j]); });
  const double sw[3] = {8 * len, 6 * len, 100}, nh[5] = {8 * len, 6 * len, 5, 0.5 * c.ztop, 0.05};
  addNoise(w, 0, s, c.sw ? sw : nh);
  const int K = w.grid->GetRElements();
  if (!c.sw) {
    // density at interfaces and vertical velocity at nodes for the kinetic energy
    for (int v = 2; v < 5; v++) { if (w.loc(v) == NODE) w.grid->InterpolateNodeToREdge(v, 0); else w.grid->InterpolateREdgeToNode(v, 0); }
  }
  double E = 0, size = 0;
  double Rd = ph.GetR(), p0 = ph.GetP0(), cp = ph.GetCp(), cv = cp - Rd, g = ph.GetG();
  w.each(NODE, [&](GridPatch *p, int i, int j, int k) {
    const DataArray4D<double> &d = p->GetDataState(0, NODE);
    const double a = p->GetElementAreaNode()[i][j][k], ua = d[0][i][j][k], ub = d[1][i][j][k];
    double V[3] = {ua, ub, 0}, z[3] = {0, 0, 1}, W = 0;
    if (!c.sw) {
      for (int q = 0; q < 3; q++) z[q] = p->GetDerivRNode()[i][j][k][q];
      W = d[3][i][j][k];
    }
    // vertical velocity, then the horizontal wind along the level
    const double ww = c.sw ? 0 : W / z[2];
    double ha = ua - z[0] * ww, hb = ub - z[1] * ww;
    if (c.sw) { ha = ua; hb = ub; }
    if (c.cart) { V[0] = ha; V[1] = hb; }
    else { w.vector3(p, i, j, ha, hb, V); for (int q = 0; q < 3; q++) V[q] /= R; }
    double u2 = V[0] * V[0] + V[1] * V[1] + V[2] * V[2];
    if (c.sw) {
      const double H = d[2][i][j][k], zs = p->GetTopography()[i][j];
      E += a * (0.5 * (H - zs) * u2 + 0.5 * g * (H * H - zs * zs));
      size += a * g * 2e6;
    } else {
      const double rho = d[4][i][j][k], rt = d[2][i][j][k];
      // internal energy rho cv T = cv p / R
      const double pr = p0 * pow(Rd * rt / p0, cp / cv);
      double ke = 0.5 * rho * (u2 + ww * ww);
      if (w.loc(3) == EDGE) {
        // the part of the square of the vertical momentum is summed at interfaces
        ke -= 0.5 * rho * gxx(p, i, j, z) * W * W;
      }
      E += a * (ke + cv / Rd * pr + rho * g * p->GetZLevels()[i][j][k]);
      size += a * 2.5e5;
    }
  });
  if (!c.sw && w.loc(3) == EDGE)
    w.each(EDGE, [&](GridPatch *p, int i, int j, int k) {
      const DataArray4D<double> &d = p->GetDataState(0, EDGE);
      double z[3];
      for (int q = 0; q < 3; q++) z[q] = p->GetDerivRREdge()[i][j][k][q];
      const double W = d[3][i][j][k];
      E += p->GetElementAreaREdge()[i][j][k] * 0.5 * d[4][i][j][k] * gxx(p, i, j, z) * W * W;
    });
  ts_near(w.grid->ComputeTotalEnergy(0) / size, E / size, 1e-7, "total energy is the sum of kinetic, internal and potential energy");
  if (!c.sw) {
    double M = 0;
    w.each(NODE, [&](GridPatch *p, int i, int j, int k) { M += p->GetElementAreaNode()[i][j][k] * p->GetDataState(0, NODE)[4][i][j][k] * p->GetDataState(0, NODE)[3][i][j][k]; });
    ts_near(w.grid->ComputeTotalVerticalMomentum(0) / size, M / size, 1e-9, "total vertical momentum");
  } else {
    double Z = 0, zs_ = 0;
    double e = w.grid->ComputeTotalPotentialEnstrophy(0);   // also evaluates the vorticity
    w.each(NODE, [&](GridPatch *p, int i, int j, int k) {
      double f = 2 * ph.GetOmega() * sin(p->GetLatitude()[i][j]), q = f + p->GetDataVorticity()[i][j][k];
      double a = p->GetElementAreaNode()[i][j][k];
      Z += a * 0.5 * q * q / (p->GetDataState(0, NODE)[2][i][j][k] - p->GetTopography()[i][j]);
      zs_ += a * 1e-8 / 2000;
    });
    ts_near(e / zs_, Z / zs_, 1e-6, "potential enstrophy");
  }
  ts_reach("energy");
}

// copying, combining and clearing of the instances of the state
static void algebra() {
  World w(c);
  w.setup(); w.attach();
  const int N = w.model->GetComponentDataInstances(), NT = w.model->GetTracerDataInstances();
  std::vector<double> s = syms(2);
  struct Snap { std::vector<double> x; };
  auto each = [&](int t, int ix, std::function<void(double &)> f) {   // every stored value, the ghost values of other patches excepted
    for (int n = 0; n < w.patches(); n++) for (int q = 0; q < (t ? 1 : 2); q++) {
      DataArray4D<double> &d = t ? w.patch(n)->GetDataTracers(ix) : w.patch(n)->GetDataState(ix, q ? EDGE : NODE);
      const PatchBox &b = w.patch(n)->GetPatchBox();
      for (size_t v = 0; v < d.GetSize(0); v++) {
        for (int i = b.GetAInteriorBegin(); i < b.GetAInteriorEnd(); i++) for (int j = b.GetBInteriorBegin(); j < b.GetBInteriorEnd(); j++)
          for (size_t k = 0; k < d.GetSize(3); k++) f(d[v][i][j][k]);
      }
    }
  };
  auto snap = [&](std::vector<std::vector<double> > &o, int t) {
    const int M = t ? NT : N;
    o.assign(M, std::vector<double>());
    for (int ix = 0; ix < M; ix++) each(t, ix, [&](double &x) { o[ix].push_back(x); });
  };
  // each instance its own values; only one in 7 depends on the symbols
  for (int t = 0; t < (c.ntr ? 2 : 1); t++)
    for (int ix = 0; ix < (t ? NT : N); ix++) {
      int z = 0;
      each(t, ix, [&](double &x) { x = noise(3, ix, t, z, z / 100, 0) + (z % 7 == ix % 7 ? s[z / 7 % 2] : 0); z++; });
    }
  const std::string op = word("op", "combine");
  const int dest = atoi(word("to", "1").c_str());
  for (int t = 0; t < (c.ntr ? 2 : 1); t++) {
    const DataType T = t ? DataType_Tracers : DataType_State;
    const int M = t ? NT : N;
    std::vector<std::vector<double> > A, B;
    snap(A, t);
    std::vector<std::vector<double> > other;
    if (c.ntr) snap(other, !t);
    std::vector<double> co(M, 0.0);
    if (op == "copy") { co[0] = 1; w.grid->CopyData(0, dest, T); }
    else if (op == "zero") w.grid->ZeroData(dest, T);
    else {
      // as many coefficients as instances, or fewer; some of them zero
      const int len = op == "short" ? dest + 1 : M;
      DataArray1D<double> a(len);
      for (int m = 0; m < len; m++) {
        char b[16]; sprintf(b, "a%d", m);
        double x = m == 2 || (op == "fresh" && m == dest) ? 0.0 : m < 3 || m == dest ? ts_real(b, -2, 2) : noise(5, m, t, 0, 0, 0);
        a[m] = x; co[m] = x;
      }
      w.grid->LinearCombineData(a, dest, T);
    }
    snap(B, t);
    for (int ix = 0; ix < M; ix++) for (size_t z = 0; z < A[ix].size(); z++) {
      if (ix != dest) { ts_near(B[ix][z], A[ix][z], 0, "the other instances are left alone"); continue; }
      double e = 0;
      for (int m = 0; m < M; m++) e += co[m] * A[m][z];
      ts_near(B[ix][z], e, 1e-12, "an instance becomes the linear combination of all instances");
    }
    if (c.ntr) {
      std::vector<std::vector<double> > o2;
      snap(o2, !t);
      for (size_t ix = 0; ix < o2.size(); ix++) for (size_t z = 0; z < o2[ix].size(); z++) ts_near(o2[ix][z], other[ix][z], 0, "state and tracers are independent");
    }
  }
  ts_reach("algebra");
}

// pressure, Exner pressure and rho theta for every constant in range
static void eos() {
  PhysicalConstants ph;
  const int order = atoi(word("set", "0").c_str());
  double R = ph.GetR(), cp = ph.GetCp(), p0 = ph.GetP0();
  // constants replaced in any order
  static const double V[3] = {300, 1100, 9e4};
  static const int O[7][3] = {{-1, -1, -1}, {0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  for (int q = 0; q < 3; q++) switch (O[order][q]) {
    case 0: ph.SetR(R = V[0]); break;
    case 1: ph.SetCp(cp = V[1]); break;
    case 2: ph.SetP0(p0 = V[2]); break;
    default: break;
  }
  const double x = ts_real("p", 10, 120000), rt = ts_real("rhotheta", 0.05, 500), pi = ts_real("pi", 0.05, 1.2) * cp;
  const double kap = R / cp, gam = cp / (cp - R);
  ts_near(ph.GetKappa(), kap, 1e-12, "kappa"); ts_near(ph.GetGamma(), gam, 1e-12, "gamma");
  ts_near(ph.PressureFromRhoTheta(rt) / 1e5, p0 * pow(R * rt / p0, gam) / 1e5, 1e-10, "pressure of an ideal gas");
  ts_near(ph.RhoThetaFromPressure(ph.PressureFromRhoTheta(rt)) / rt, 1, 1e-10, "rho theta to pressure and back");
  ts_near(ph.PressureFromRhoTheta(ph.RhoThetaFromPressure(x)) / x, 1, 1e-10, "pressure to rho theta and back");
  ts_near(ph.ExnerPressureFromPressure(x) / cp, pow(x / p0, kap), 1e-10, "Exner pressure of a pressure");
  ts_near(ph.PressureFromExnerPressure(ph.ExnerPressureFromPressure(x)) / x, 1, 1e-10, "pressure to Exner pressure and back");
  ts_near(ph.ExnerPressureFromPressure(ph.PressureFromExnerPressure(pi)) / pi, 1, 1e-10, "Exner pressure to pressure and back");
  ts_near(ph.ExnerPressureFromRhoTheta(ph.RhoThetaFromExnerPressure(pi)) / pi, 1, 1e-10, "Exner pressure to rho theta and back");
  ts_near(ph.RhoThetaFromExnerPressure(ph.ExnerPressureFromRhoTheta(rt)) / rt, 1, 1e-10, "rho theta to Exner pressure and back");
  ts_near(ph.ExnerPressureFromRhoTheta(rt) / ph.ExnerPressureFromPressure(ph.PressureFromRhoTheta(rt)), 1, 1e-10, "Exner pressure directly and through the pressure");
  // conversion of the components of a test case
  for (int e = 0; e < 2; e++) {
    EquationSet q(e ? EquationSet::PrimitiveNonhydrostaticEquations : EquationSet::ShallowWaterEquations);
    DataArray1D<double> S(e ? 5 : 3), T(2);
    const double th = ts_real(e ? "th" : "h", 150, 600), rho = ts_real("rho", 0.001, 2), u = ts_real("u", -100, 100), v = ts_real("v", -100, 100), ww = ts_real("w", -10, 10);
    S[0] = u; S[1] = v; S[2] = th;
    if (e) { S[3] = ww; S[4] = rho; }
    T[0] = u; T[1] = v;
    q.ConvertComponents(ph, S, T);
    ts_near(S[0], u, 0, "winds are kept"); ts_near(S[1], v, 0, "winds are kept");
    ts_near(S[2], e ? th * rho : th, 1e-10, "potential temperature becomes its density");
    if (e) { ts_near(S[3], ww, 0, "vertical velocity is kept"); ts_near(S[4], rho, 0, "density is kept"); }
    ts_near(T[0], u, 0, "tracers are kept"); ts_near(T[1], v, 0, "tracers are kept");
  }
  ts_reach("eos");
}

static void body(int argc, char **argv) {
  c = parseCfg(argc, argv, r);
  if (has(r, "stokes")) stokes();
  if (has(r, "poly")) poly();
  if (has(r, "sphere")) sphere();
  if (has(r, "column")) column();
  if (has(r, "totals")) totals();
  if (has(r, "energy")) energy();
  if (has(r, "algebra")) algebra();
  if (has(r, "eos")) eos();
}
