// The equations of motion: symmetries, tendencies of known fields, states at rest.
#include "common.h"

static const DataLocation NODE = DataLocation_Node, EDGE = DataLocation_REdge;
static std::string word(const char *k, const char *d) { return arg(r, k, d); }

// a symmetry of the domain: P' = M P + t (t on the plane, in periods)
struct Sym {
  double M[3][3], t[3];
  int det;
  void at(const double P[3], double Q[3]) const {
    for (int d = 0; d < 3; d++) { Q[d] = t[d]; for (int e = 0; e < 3; e++) Q[d] += M[d][e] * P[e]; }
    if (c.cart) for (int d = 0; d < 2; d++) Q[d] -= floor(Q[d] + 1e-9);
  }
  void inv(const double P[3], double Q[3]) const {
    for (int d = 0; d < 3; d++) { Q[d] = 0; for (int e = 0; e < 3; e++) Q[d] += M[e][d] * (P[e] - t[e]); }
    if (c.cart) for (int d = 0; d < 2; d++) Q[d] -= floor(Q[d] + 1e-9);
  }
  void turn(const double V[3], double W[3]) const { for (int d = 0; d < 3; d++) { W[d] = 0; for (int e = 0; e < 3; e++) W[d] += M[d][e] * V[e]; } }
};
static Sym sym(const std::string &n) {
  Sym s;
  for (int d = 0; d < 3; d++) { s.t[d] = 0; for (int e = 0; e < 3; e++) s.M[d][e] = d == e; }
  auto rows = [&](int a, int b, int e) { int q[3] = {a, b, e}; for (int d = 0; d < 3; d++) for (int m = 0; m < 3; m++) s.M[d][m] = m == abs(q[d]) - 1 ? (q[d] > 0 ? 1 : -1) : 0; };
  if (n == "shiftx") s.t[0] = 1.0 / c.nx;
  else if (n == "shifty") s.t[1] = 1.0 / c.ny;
  else if (n == "swap") rows(2, 1, 3);
  else if (n == "mirrorx") rows(-1, 2, 3);
  else if (n == "mirrory") rows(1, -2, 3);
  else if (n == "mirrorz") rows(1, 2, -3);
  else if (n == "turn") rows(-2, 1, 3);          // quarter turn about the vertical axis
  else if (n == "half") rows(-1, -2, 3);
  else if (n == "cycle") rows(3, 1, 2);          // a third of a turn about the diagonal
  else if (n == "tip") rows(1, -3, 2);           // quarter turn about the x axis
  else if (n == "invert") rows(-1, -2, -3);
  const double (*m)[3] = s.M;
  double D = m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
  s.det = D > 0 ? 1 : -1;
  return s;
}
struct STest : public WTest {
  const Sym *S;
  double omega;
  STest(const Cfg &cc) : WTest(cc), S(0), omega(0) {}
  void EvaluatePhysicalConstants(PhysicalConstants &ph) const { ph.SetOmega(omega); }
  void back(double &x, double &y) const {
    if (!S) return;
    double P[3], Q[3];
    if (c.cart) { P[0] = x / c.lx; P[1] = y / c.ly; P[2] = 0; S->inv(P, Q); x = Q[0] * c.lx; y = Q[1] * c.ly; }
    else { P[0] = cos(y) * cos(x); P[1] = cos(y) * sin(x); P[2] = sin(y); S->inv(P, Q); x = atan2(Q[1], Q[0]); y = asin(std::max(-1.0, std::min(1.0, Q[2]))); }
  }
  double EvaluateTopography(const PhysicalConstants &ph, double x, double y) const { back(x, y); return WTest::EvaluateTopography(ph, x, y); }
  void EvaluateReferenceState(const PhysicalConstants &phys, double z, double x, double y, double *s) const { back(x, y); WTest::EvaluateReferenceState(phys, z, x, y, s); s[0] = s[1] = 0; }
  double EvaluateRayleighStrength(double z, double x, double y) const { back(x, y); return WTest::EvaluateRayleighStrength(z, x, y) * (1 + 0.3 * mode(1, x, y, 0)); }
};
// wind in three dimensions (times radius on the sphere) and back
static void wind(World &w, GridPatch *p, int i, int j, double ua, double ub, double V[3]) {
  if (c.cart) { V[0] = ua; V[1] = ub; V[2] = 0; } else w.vector3(p, i, j, ua, ub, V);
}
static void covar(World &w, GridPatch *p, int i, int j, const double V[3], double u[2]) {
  if (c.cart) { u[0] = V[0]; u[1] = V[1]; return; }
  double E[2][3]; w.tangents(p, i, j, E);
  for (int q = 0; q < 2; q++) u[q] = E[q][0] * V[0] + E[q][1] * V[1] + E[q][2] * V[2];
}
static double val(World &w, const World::Node &n, int ix, int v, int k) {
  return v < w.comps() ? w.state(n.p, ix, v, n.i, n.j, k) : n.p->GetDataTracers(ix)[v - w.comps()][n.i][n.j][k];
}
static double &ref(World &w, const World::Node &n, int ix, int v, int k) {
  return v < w.comps() ? n.p->GetDataState(ix, w.loc(v))[v][n.i][n.j][k] : n.p->GetDataTracers(ix)[v - w.comps()][n.i][n.j][k];
}
static int advance(World &w, double dt) {
  Time t;
  int steps = atoi(word("steps", "1").c_str());
  if (has(r, "step")) { for (int q = 0; q < steps; q++) w.model->GetTimestepScheme()->Step(q == 0, q == steps - 1, t, dt); return 0; }
  w.grid->CopyData(0, 1, DataType_State);
  if (c.ntr) w.grid->CopyData(0, 1, DataType_Tracers);
  w.model->GetHorizontalDynamics()->StepExplicit(0, 1, t, dt);
  if (has(r, "vert")) w.model->GetVerticalDynamics()->StepExplicit(0, 1, t, dt);
  w.grid->PostProcessSubstage(1, DataType_State);
  if (c.ntr) w.grid->PostProcessSubstage(1, DataType_Tracers);
  if (!has(r, "after")) return 1;
  for (int m = 2; m < 4; m++) { w.grid->CopyData(1, m, DataType_State); if (c.ntr) w.grid->CopyData(1, m, DataType_Tracers); }
  w.model->GetHorizontalDynamics()->StepAfterSubCycle(1, 2, 3, t, dt);
  return 2;
}
static void symm() {
  const Sym S = sym(word("op", "turn"));
  // the axis of the planet has to be kept
  double om = has(r, "still") ? 0 : 7.292e-5;
  World a(c), b(c);
  const int np = atoi(word("np", "0").c_str());
  std::vector<double> s = syms(2);
  for (int q = 0; q < 2; q++) {
    World &w = q ? b : a;
    if (np && q) w.setupPatches(np); else w.setup();
    if (c.cart) w.grid->SetReferenceLength(50000);
    STest *t = new STest(w.c);
    t->topo = atof(word("topo", "0").c_str());
    t->utopo = t->topo * 0.6;
    t->S = q ? &S : 0;
    t->omega = om * (q ? S.det * (c.cart ? S.M[1][1] : S.M[2][2]) : 1)   /* the plane: zero at its middle latitude */;
    w.test = t;
    w.attach();
  }
  // states at corresponding places
  auto GA = a.groups(), GB = b.groups();
  ts_check(GA.size() == GB.size(), "the symmetry maps nodes to nodes");
  std::map<std::vector<long>, int> at;
  auto key = [&](const double P[3], int o) { std::vector<long> k(3); int q[3] = {o % 3 - 1, o / 3 % 3 - 1, o / 9 - 1}; for (int d = 0; d < 3; d++) k[d] = lround(P[d] * 1e4) + q[d]; return k; };
  for (size_t g = 0; g < GB.size(); g++) { double P[3]; b.position(GB[g][0].p, GB[g][0].i, GB[g][0].j, P); at[key(P, 13)] = g; }
  std::vector<int> to(GA.size(), -1);
  for (size_t g = 0; g < GA.size(); g++) {
    double P[3], Q[3]; a.position(GA[g][0].p, GA[g][0].i, GA[g][0].j, P); S.at(P, Q);
    for (int o = 0; o < 27 && to[g] < 0; o++) { auto f = at.find(key(Q, o)); if (f != at.end()) to[g] = f->second; }
    ts_check(to[g] >= 0, "the symmetry maps nodes to nodes");
    if (to[g] < 0) return;
  }
  const int nv = a.comps() + c.ntr, K = a.grid->GetRElements();
  const double L = c.cart ? 1 : 6.4e6;
  const bool onlyTr = has(r, "tronly");
  const bool calmW = has(r, "vert");   // upwinding: the direction of the vertical motion is given
  const double sc[5] = {8 * L, 6 * L, c.sw ? 60. : 2., 1, 0.02};
  for (size_t g = 0; g < GA.size(); g++) for (int v = 0; v < nv; v++) {
    const int kk = v < a.comps() ? a.nk(v) : K;
    for (int k = 0; k < kk; k++) {
      if (v == 1) continue;
      if (v) {
        const World::Node &n0 = GA[g][0];
        const int vv = v;
        double x = val(a, n0, 0, vv, k), am = vv < a.comps() ? sc[vv] : 0.3;
        if (vv >= a.comps()) x = c.sw ? 1500 : 1.0;
        double e = 0;
        for (int m = 0; m < 3; m++) {
          // a noise field; a mix of one varying in the vertical for a column
          double f = noise(m, 5, vv, g, 0, k);
          if (m == 2 || (onlyTr && vv < a.comps()) || (calmW && vv == 3)) e += 0.3 * f; else e += 0.35 * s[m] * f;
        }
        if (has(r, "calm") && vv < a.comps()) e *= 0.02;
        if (vv == 3 && (k == 0 || k == kk - 1)) e = 0, x = 0;
        x += am * e;
        if (vv >= a.comps() && c.sw) x = 1500 + 400 * e;
        for (auto &n : GA[g]) ref(a, n, 0, vv, k) = x;
        for (auto &n : GB[to[g]]) ref(b, n, 0, vv, k) = x;
      } else {
        const World::Node &n0 = GA[g][0];
        double V[3], W[3], u[2];
        double e[2];
        for (int q = 0; q < 2; q++) {
          e[q] = val(a, n0, 0, q, k);
          for (int m = 0; m < 3; m++) { double f = noise(m, 5, q, g, 0, k) * sc[q] * (has(r, "calm") ? 0.02 : 1); if (m == 2 || onlyTr || calmW) e[q] += 0.3 * f; else e[q] += 0.35 * s[m] * f; }
        }
        wind(a, n0.p, n0.i, n0.j, e[0], e[1], V);
        S.turn(V, W);
        for (auto &n : GA[g]) { covar(a, n.p, n.i, n.j, V, u); ref(a, n, 0, 0, k) = u[0]; ref(a, n, 0, 1, k) = u[1]; }
        for (auto &n : GB[to[g]]) { covar(b, n.p, n.i, n.j, W, u); ref(b, n, 0, 0, k) = u[0]; ref(b, n, 0, 1, k) = u[1]; }
      }
    }
  }
  const double dt = atof(word("dt", c.cart ? "20" : "200").c_str());
  const int ia = advance(a, dt), ib = advance(b, dt);
  const double T = atof(word("tol", "1e-7").c_str());
  for (size_t g = 0; g < GA.size(); g++) for (int v = 0; v < nv; v++) {
    const int kk = v < a.comps() ? a.nk(v) : K;
    for (int k = 0; k < kk; k++) {
      if (v == 0) {
        double V[3], W[3], X[3];
        const World::Node &n = GA[g][0], &m = GB[to[g]][0];
        wind(a, n.p, n.i, n.j, val(a, n, ia, 0, k), val(a, n, ia, 1, k), V);
        wind(b, m.p, m.i, m.j, val(b, m, ib, 0, k), val(b, m, ib, 1, k), X);
        S.turn(V, W);
        for (int d = 0; d < (c.cart ? 2 : 3); d++) ts_near(X[d], W[d], T * L * 10, "the wind of the moved state is the moved wind");
      } else if (v > 1) {
        const double x = val(a, GA[g][0], ia, v, k), y = val(b, GB[to[g]][0], ib, v, k);
        ts_near(y, x, T * (v >= a.comps() ? (c.sw ? 1e3 : 1) : v == 2 ? (c.sw ? 1e3 : 300) : v == 3 ? 10 : 1), v >= a.comps() ? "tracers of the moved state are the moved tracers" : "the moved state evolves into the moved result");
      }
    }
  }
  // something moved
  if (!onlyTr) __ts_api_can_differ(val(a, GA[1][0], ia, massVar(), 0), val(a, GA[1][0], 0, massVar(), 0), 1e-9, "the state changes");
  ts_reach("symm");
}


// polynomials in x and y (in periods) of bounded total degree, some coefficients symbolic
struct Poly {
  int d; double a[6][6];
  Poly(int dd, int salt, double c0, double size, const std::vector<double> *s = 0) : d(dd) {
    for (int p = 0; p < 6; p++) for (int q = 0; q < 6; q++) {
      a[p][q] = p + q > d || (c.xz && q) ? 0 : size * noise(7, salt, p, q, 0, 0);
      if (p + q <= d && s && !(c.xz && q)) for (size_t m = 0; m < s->size(); m++) a[p][q] += size * (*s)[m] * noise(8 + m, salt, p, q, 0, 0);
    }
    a[0][0] += c0;
  }
  // value or derivative
  double at(double x, double y, int w = 0) const {
    double X = x / c.lx, Y = y / c.ly, t = 0;
    for (int p = 0; p <= d; p++) for (int q = 0; p + q <= d; q++) {
      if (w == 0) t += a[p][q] * (pow(X, p) * pow(Y, q));
      else if (w == 1) { if (p) t += a[p][q] * (p * pow(X, p - 1) * pow(Y, q) / c.lx); }
      else if (q) t += a[p][q] * (q * pow(X, p) * pow(Y, q - 1) / c.ly);
    }
    return t;
  }
};
struct PTest : public WTest {
  const Poly *zs; double omega;
  PTest(const Cfg &cc) : WTest(cc), zs(0), omega(0) {}
  void EvaluatePhysicalConstants(PhysicalConstants &ph) const { ph.SetOmega(omega); }
  double EvaluateTopography(const PhysicalConstants &, double x, double y) const { return zs ? zs->at(x, y) : 0.0; }
};
// explicit tendencies of polynomial fields on the plane, away from the seam of the period
static void tend() {
  World w(c);
  w.setup();
  const int d1 = (c.order - 1) / 2, d2 = c.order - 1 - d1;
  std::vector<double> s = syms(3);
  const bool vw = has(r, "w");   // vertical motion
  Poly U(d1, 1, 12, 6, &s), V(d1, 2, -7, 5, &s), H(d2, 3, 2000, 80, &s), Z(d2, 4, has(r, "zs") ? 0.4 : 0, has(r, "zs") ? 0.1 : 0), W(d1, 5, 0.5, 0.3, &s);
  Poly RT(d2, 6, 280, 0.3), RHO(d2, 7, 0.9, 0.02, &s), Q(d2, 8, 0.7, 0.02, &s), Q2(d2, 9, 1.3, 0.03, &s);
  if (c.xz) V = Poly(0, 2, 0, 0);
  PTest *t = new PTest(w.c);
  t->omega = 7.292e-5;
  t->zs = &Z;
  w.test = t;
  w.attach();
  const PhysicalConstants &ph = w.model->GetPhysicalConstants();
  const int K = w.grid->GetRElements();
  const double cp = ph.GetCp(), kap = ph.GetR() / cp, g = ph.GetG(), dt = 2;
  const bool level = has(r, "level");   // wind uniform in height
  auto f = [&](int k) { return 1 + (c.sw ? 0 : 0.2 * (k + 0.5) / K); };   // linear in height
  for (int v = 0; v < w.comps(); v++) w.each(w.loc(v), [&](GridPatch *p, int i, int j, int k) {
    double x = p->GetLongitude()[i][j], y = p->GetLatitude()[i][j], q = w.loc(v) == EDGE ? 1 + 0.2 * k / K : f(k);
    double &d = p->GetDataState(0, w.loc(v))[v][i][j][k];
    if (v == 0) d = U.at(x, y) * (level ? 1 : q);
    else if (v == 1) d = V.at(x, y) * (level ? 1 : q);
    else if (v == 2) d = c.sw ? H.at(x, y) : RT.at(x, y) * q;
    else if (v == 3) d = vw ? W.at(x, y) * q * c.ztop : 0;
    else d = RHO.at(x, y) * q;
  });
  for (int m = 0; m < c.ntr; m++) w.each(NODE, [&](GridPatch *p, int i, int j, int k) { p->GetDataTracers(0)[m][i][j][k] = (m ? Q2 : Q).at(p->GetLongitude()[i][j], p->GetLatitude()[i][j]) * f(k); });
  w.grid->CopyData(0, 1, DataType_State);
  if (c.ntr) w.grid->CopyData(0, 1, DataType_Tracers);
  Time time;
  w.model->GetHorizontalDynamics()->StepExplicit(0, 1, time, dt);
  w.grid->PostProcessSubstage(1, DataType_State);
  if (c.ntr) w.grid->PostProcessSubstage(1, DataType_Tracers);
  int seen = 0;
  w.each(NODE, [&](GridPatch *p, int i, int j, int k) {
    double x = p->GetLongitude()[i][j], y = p->GetLatitude()[i][j], e = 1e-6;
    if (x < e * c.lx || x > (1 - e) * c.lx || (!c.xz && (y < e * c.ly || y > (1 - e) * c.ly))) return;
    if (c.xz && (y < -e * c.ly || y > (1 + e) * c.ly)) return;
    seen++;
    const double q = f(k), l = level ? 1 : q, u = U.at(x, y) * l, v = V.at(x, y) * l;
    auto adv = [&](const Poly &P, double m) { return u * P.at(x, y, 1) * m + v * P.at(x, y, 2) * m; };
    auto div = [&](const Poly &P) { return adv(P, q) + (P.at(x, y) * q) * (U.at(x, y, 1) + V.at(x, y, 2)) * l; };
    auto rate = [&](int var) { return (p->GetDataState(1, NODE)[var][i][j][k] - p->GetDataState(0, NODE)[var][i][j][k]) / dt; };
    double cor = c.xz ? 0 : 2 * t->omega * (sin(c.reflat) + cos(c.reflat) / ph.GetEarthRadius() * (y - 0.5 * c.ly));
    double eu = -adv(U, l) + cor * v, ev = -adv(V, l) - cor * u;
    double ww = 0;
    if (vw) { ww = W.at(x, y) * (1 + 0.2 * (k + 0.5) / K); double uz = level ? 0 : 0.2 / c.ztop; eu -= ww * U.at(x, y) * uz; ev -= ww * V.at(x, y) * uz; }
    if (c.sw) { eu -= g * H.at(x, y, 1); ev -= g * H.at(x, y, 2); }
    else {
      const double rt = RT.at(x, y) * q, rho = RHO.at(x, y) * q, ex = cp * pow(ph.GetR() * rt / ph.GetP0(), kap / (1 - kap)) * (kap / (1 - kap)) / rt;
      eu -= rt / rho * ex * RT.at(x, y, 1) * q; ev -= rt / rho * ex * RT.at(x, y, 2) * q;
    }
    const double tol = atof(word("tol", "1e-8").c_str());
    ts_near(rate(0), eu, tol, "acceleration along x: advection, rotation and pressure gradient");
    if (!c.xz) ts_near(rate(1), ev, tol, "acceleration along y: advection, rotation and pressure gradient");
    if (c.sw) {
      double h = H.at(x, y) - Z.at(x, y);
      double e = -(u * (H.at(x, y, 1) - Z.at(x, y, 1)) + v * (H.at(x, y, 2) - Z.at(x, y, 2)) + h * (U.at(x, y, 1) + V.at(x, y, 2)));
      ts_near(rate(2), e, 1e-8, "the depth changes by the convergence of its flux");
    } else {
      ts_near(rate(4), -div(RHO), 1e-10, "the density changes by the convergence of its flux");
      if (w.loc(2) == NODE) ts_near(rate(2), -div(RT), 1e-8, "potential temperature density changes by the convergence of its flux");
    }
    for (int m = 0; m < c.ntr; m++) {
      const Poly &P = m ? Q2 : Q;
      ts_near((p->GetDataTracers(1)[m][i][j][k] - p->GetDataTracers(0)[m][i][j][k]) / dt, -div(P), 1e-10, "a tracer changes by the convergence of its flux");
    }
  });
  if (vw && level) w.each(EDGE, [&](GridPatch *p, int i, int j, int k) {
    double x = p->GetLongitude()[i][j], y = p->GetLatitude()[i][j], e = 1e-6;
    if (k == 0 || k == K) return;
    if (x < e * c.lx || x > (1 - e) * c.lx || y < e * c.ly || y > (1 - e) * c.ly) return;
    double q = 1 + 0.2 * k / K;
    ts_near((p->GetDataState(1, EDGE)[3][i][j][k] - p->GetDataState(0, EDGE)[3][i][j][k]) / dt / c.ztop, -(U.at(x, y) * W.at(x, y, 1) + V.at(x, y) * W.at(x, y, 2)) * q,
      atof(word("wtol", "1e-8").c_str()), "vertical velocity is carried by the horizontal wind");
  });
  ts_check(seen > 0, "nodes to compare");
  ts_reach("tend");
}

// explicit tendencies on the sphere: rotation about any axis under fields of degree two
static void sphtend() {
  World w(c);
  w.setup();
  std::vector<double> s = syms(4);
  PTest *t = new PTest(w.c);
  t->omega = 7.292e-5;
  w.test = t;
  w.attach();
  const PhysicalConstants &ph = w.model->GetPhysicalConstants();
  const double R = ph.GetEarthRadius(), g = ph.GetG(), cp = ph.GetCp(), kap = ph.GetR() / cp, dt = 50, rel = atof(word("tol", "0.01").c_str());
  const int K = w.grid->GetRElements();
  const double A[3] = {20 * s[0], 10 + 15 * s[1], 20 * s[2]};
  const double B1[3] = {0.5, -0.3, 0.8}, B2[3] = {0.4, -0.6, 0.3}, B3[3] = {-0.2, 0.7, 0.5};
  auto dot = [](const double *a, const double *b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; };
  auto cross = [](const double *a, const double *b, double *o) { o[0] = a[1] * b[2] - a[2] * b[1]; o[1] = a[2] * b[0] - a[0] * b[2]; o[2] = a[0] * b[1] - a[1] * b[0]; };
  // value and tangential gradient (per unit sphere) of (B.n)(C.n)
  auto quad = [&](const double *b, const double *e, const double *n, double *G) {
    double x = dot(b, n), y = dot(e, n);
    if (G) for (int d = 0; d < 3; d++) G[d] = x * e[d] + y * b[d] - 2 * x * y * n[d];
    return x * y;
  };
  const double h0 = 2000, h1 = 100, r1 = 0.05, q1 = 0.2;
  w.each(NODE, [&](GridPatch *p, int i, int j, int k) {
    double n[3], V[3], u[2]; w.position(p, i, j, n); cross(A, n, V);
    for (int d = 0; d < 3; d++) V[d] *= R;
    covar(w, p, i, j, V, u);
    const double f = c.sw ? 1 : 1 + 0.2 * k;
    auto &d = p->GetDataState(0, NODE);
    d[0][i][j][k] = u[0] * f; d[1][i][j][k] = u[1] * f;
    if (c.sw) d[2][i][j][k] = h0 + h1 * (0.6 + 0.4 * s[3]) * quad(B1, B2, n, 0);
    else { d[4][i][j][k] = (0.9 + r1 * (0.6 + 0.4 * s[3]) * quad(B1, B2, n, 0)) / f; if (w.loc(2) == NODE) d[2][i][j][k] = (280 + 10 * quad(B2, B3, n, 0)) / f; }
    for (int m = 0; m < c.ntr; m++) p->GetDataTracers(0)[m][i][j][k] = 0.8 + 0.1 * m + q1 * (0.6 - 0.4 * s[3]) * quad(m ? B3 : B1, B3, n, 0);
  });
  if (!c.sw) w.each(EDGE, [&](GridPatch *p, int i, int j, int k) {
    p->GetDataState(0, EDGE)[3][i][j][k] = 0;
    double n[3]; w.position(p, i, j, n);
    if (w.loc(2) == EDGE) p->GetDataState(0, EDGE)[2][i][j][k] = (280 + 10 * quad(B2, B3, n, 0)) / (0.9 + 0.2 * k);
  });
  w.grid->CopyData(0, 1, DataType_State);
  if (c.ntr) w.grid->CopyData(0, 1, DataType_Tracers);
  Time time;
  w.model->GetHorizontalDynamics()->StepExplicit(0, 1, time, dt);
  w.grid->PostProcessSubstage(1, DataType_State);
  if (c.ntr) w.grid->PostProcessSubstage(1, DataType_Tracers);
  w.each(NODE, [&](GridPatch *p, int i, int j, int k) {
    double n[3], V[3], G[3], D[3], X[3]; w.position(p, i, j, n); cross(A, n, V);
    const double f = c.sw ? 1 : 1 + 0.2 * k;
    for (int d = 0; d < 3; d++) V[d] *= f;
    auto &a = p->GetDataState(1, NODE), &b = p->GetDataState(0, NODE);
    // acceleration
    double an = dot(A, n), zf = 2 * an * f / R + 2 * t->omega * n[2];
    cross(n, V, X);
    for (int d = 0; d < 3; d++) D[d] = -zf * X[d] + an * (A[d] - an * n[d]) * f * f / R;
    if (c.sw) { quad(B1, B2, n, G); for (int d = 0; d < 3; d++) D[d] -= g * h1 * (0.6 + 0.4 * s[3]) * G[d] / R; }
    else if (w.loc(2) == NODE) {
      double x = quad(B2, B3, n, G), rt = (280 + 10 * x) / f, rho = (0.9 + r1 * (0.6 + 0.4 * s[3]) * quad(B1, B2, n, 0)) / f;
      // cp theta grad(Exner) = R/cv * Exner * theta / rt * grad(rt)
      double e = cp * pow(ph.GetR() * rt / ph.GetP0(), kap / (1 - kap)) * (kap / (1 - kap));
      for (int d = 0; d < 3; d++) D[d] -= e / rho * 10 * G[d] / f / R;
    }
    double u[2], T[3]; for (int q = 0; q < 2; q++) u[q] = (a[q][i][j][k] - b[q][i][j][k]) / dt;
    wind(w, p, i, j, u[0], u[1], T);
    if (c.sw || w.loc(2) == NODE) for (int d = 0; d < 3; d++) ts_near(T[d] / R * 1e4, D[d] * 1e4, 30 * rel, "acceleration on the sphere");
    // fluxes: the wind has no divergence
    auto flux = [&](double val, const double *b1, const double *b2, double scale, double size, double mean, const char *what) {
      double G2[3]; quad(b1, b2, n, G2);
      ts_near(val / size, -dot(V, G2) * scale / size, 30 * rel * std::max(1.0, 0.2 * mean), what);   // mean: of the field, in units of its variation
    };
    if (c.sw) flux((a[2][i][j][k] - b[2][i][j][k]) / dt * R, B1, B2, h1 * (0.6 + 0.4 * s[3]), h1, h0 / h1, "the depth changes by the convergence of its flux, on the sphere");
    else {
      flux((a[4][i][j][k] - b[4][i][j][k]) / dt * R, B1, B2, r1 * (0.6 + 0.4 * s[3]) / f, r1 * 4, 0.25 / r1, "the density changes by the convergence of its flux, on the sphere");
      if (w.loc(2) == NODE) flux((a[2][i][j][k] - b[2][i][j][k]) / dt * R, B2, B3, 10 / f, 20, 14, "potential temperature density changes by the convergence of its flux, on the sphere");
    }
    for (int m = 0; m < c.ntr; m++) flux((p->GetDataTracers(1)[m][i][j][k] - p->GetDataTracers(0)[m][i][j][k]) / dt * R, m ? B3 : B1, B3, q1 * (0.6 - 0.4 * s[3]), q1, 4, "a tracer changes by the convergence of its flux, on the sphere");
  });
  ts_reach("sphtend");
}
// states that have to stay as they are
static void rest() {
  World w(c);
  w.setup();
  if (c.cart) w.grid->SetReferenceLength(50000);
  std::vector<double> s = syms(3);
  STest *t = new STest(w.c);
  const bool flow = has(r, "flow");    // uniform wind on the plane
  t->omega = has(r, "still") || flow ? 0 : 7.292e-5;
  t->topo = atof(word("topo", "0").c_str()) * (has(r, "symtopo") ? 1 + 0.5 * s[2] : 1);
  t->utopo = t->topo * 0.5;
  w.test = t;
  w.attach();
  for (int v = 0; v < w.comps(); v++) w.each(w.loc(v), [&](GridPatch *p, int i, int j, int k) {
    const double z = w.loc(v) == EDGE ? k : k + 0.5;
    double &d = p->GetDataState(0, w.loc(v))[v][i][j][k];
    double wob = 1 + (c.sw ? 0 : 0.1 * noise(1, 2, v, 0, 0, k));   // any profile
    if (v < 2) d = flow ? (v ? -9 + 8 * s[1] : 11 + 9 * s[0]) * wob : 0;
    else if (v == 2) d = c.sw ? 2000 + 300 * s[0] : (300 - 5 * z) * wob;
    else if (v == 3) d = 0;
    else d = 0.9 * wob * (1 + 0.1 * s[2]) / (1 + 0.1 * z);
  });
  for (int m = 0; m < c.ntr; m++) w.each(NODE, [&](GridPatch *p, int i, int j, int k) {
    // at rest any distribution of tracers, in a uniform wind a uniform one
    double q = flow ? 0.7 * (1 + m) : 0.7 * (1 + m) * (1 + 0.3 * noise(3, 0, m, p->GetLongitude()[i][j] * 100, p->GetLatitude()[i][j] * 100, k) * s[1]);
    p->GetDataTracers(0)[m][i][j][k] = q;
  });
  if (c.ntr && !flow) dynamic_cast<GridGLL *>(w.grid)->ApplyDSS(0, DataType_Tracers);
  std::vector<double> was;
  for (int v = 0; v < w.comps(); v++) w.each(w.loc(v), [&](GridPatch *p, int i, int j, int k) { was.push_back(p->GetDataState(0, w.loc(v))[v][i][j][k]); });
  for (int m = 0; m < c.ntr; m++) w.each(NODE, [&](GridPatch *p, int i, int j, int k) { was.push_back(p->GetDataTracers(0)[m][i][j][k]); });
  size_t at = 0;
  const double dt = atof(word("dt", "100").c_str());
  const int ix = advance(w, dt);
  const double L = c.cart ? 1 : 6.4e6, tol[5] = {1e-9 * L, 1e-9 * L, c.sw ? 1e-8 : 1e-9, 1e-6, 1e-11};
  for (int v = 0; v < w.comps(); v++) w.each(w.loc(v), [&](GridPatch *p, int i, int j, int k) {
    const double x = was[at++];
    if (v == 3) return;
    ts_near(p->GetDataState(ix, w.loc(v))[v][i][j][k], x, tol[v], flow ? "a uniform flow stays uniform" : "a fluid at rest stays at rest");
  });
  for (int m = 0; m < c.ntr; m++) w.each(NODE, [&](GridPatch *p, int i, int j, int k) {
    ts_near(p->GetDataTracers(ix)[m][i][j][k], was[at++], 1e-10, flow ? "a uniform tracer stays uniform" : "tracers in a fluid at rest stay in place");
  });
  ts_reach("rest");
}
static void body(int argc, char **argv) {
  mpi_sim_as(0, 1);
  c = parseCfg(argc, argv, r);
  if (has(r, "sq")) c.ly = c.lx;
  if (has(r, "symm")) symm();
  if (has(r, "tend")) tend();
  if (has(r, "sphtend")) sphtend();
  if (has(r, "rest")) rest();
}
