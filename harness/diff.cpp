// Diffusion, the positive definite tracer filter and Rayleigh friction.
#include "common.h"
#include "HorizontalDynamicsFEM.h"
#include "HorizontalDynamicsFEMV2.h"
static void scales(World &w) {
  // Cartesian grids: reference length equal to the element width
  if (c.cart) w.grid->SetReferenceLength(c.lx / c.nx);
}
// copies of a node share one value
static void smooth(World &w, int ix) {
  dynamic_cast<GridGLL *>(w.grid)->ApplyDSS(ix, DataType_State);
  if (c.ntr) dynamic_cast<GridGLL *>(w.grid)->ApplyDSS(ix, DataType_Tracers);
}
static void after(World &w, int a, int b, int d, double dt) {
  Time t;
  w.model->GetHorizontalDynamics()->StepAfterSubCycle(a, b, d, t, dt);
}
static double val(World &w, GridPatch *p, int ix, int v, int i, int j, int k) {
  return v < w.comps() ? w.state(p, ix, v, i, j, k) : p->GetDataTracers(ix)[v - w.comps()][i][j][k];
}
static double integral(World &w, int ix, int v) { return v < w.comps() ? w.total(ix, v) : w.totalTracer(ix, v - w.comps()); }
static double square(World &w, int ix, int v) {
  double t = 0;
  DataLocation L = v < w.comps() ? w.loc(v) : DataLocation_Node;
  w.each(L, [&](GridPatch *p, int i, int j, int k) { double x = val(w, p, ix, v, i, j, k); t += x * x * World::area(p, L)[i][j][k]; });
  return t;
}
static double windSquare(World &w, int ix) {
  double t = 0;
  w.each(DataLocation_Node, [&](GridPatch *p, int i, int j, int k) {
    double a = w.state(p, ix, 0, i, j, k), b = w.state(p, ix, 1, i, j, k), V[3];
    if (c.cart) { V[0] = a; V[1] = b; V[2] = 0; } else w.vector3(p, i, j, a, b, V);
    t += (V[0] * V[0] + V[1] * V[1] + V[2] * V[2]) * World::area(p, DataLocation_Node)[i][j][k];
  });
  return t;
}
static double areaTotal(World &w) {
  double ar = 0;
  w.each(DataLocation_Node, [&](GridPatch *p, int i, int j, int k) { ar += World::area(p, DataLocation_Node)[i][j][k]; });
  return ar;
}
// mass and tracer mass are kept, scalar variance and wind energy do not grow
static void conserve() {
  World w(c);
  w.setup();
  scales(w);
  w.test->topo = atof(arg(r, "topo", "0").c_str());
  w.attach();
  std::vector<double> s = syms(atoi(arg(r, "ns", "1").c_str()));
  double sc[5] = {3e6, 2e6, 5, 1, 0.1};
  if (c.cart) { sc[0] = 5; sc[1] = 4; }
  if (c.sw) sc[2] = 100;
  if (has(r, "pure")) {   // anomalies only, so that variances are those of the anomalies
    for (int v = 0; v < w.comps(); v++) w.each(w.loc(v), [&](GridPatch *p, int i, int j, int k) { p->GetDataState(0, w.loc(v))[v][i][j][k] = 0; });
  }
  addNoise(w, 0, s, sc, 0.02);
  smooth(w, 0);
  double ar = areaTotal(w);
  after(w, 0, 1, 2, 20);
  int nv = w.comps() + c.ntr;
  for (int v = 2; v < nv; v++) {
    double sc1 = v == 2 ? 2000 : 2;
    ts_near(integral(w, 1, v), integral(w, 0, v), 1e-11 * ar * sc1, "diffusion keeps the integral of every scalar");
    if (s.size() == 1) {
      double d = square(w, 0, v) - square(w, 1, v);
      double tol = 1e-10 * ar * sc1 * sc1;
      ts_check(d >= -tol, "diffusion does not increase the variance of a scalar");
      if (has(r, "pure") && v < w.comps()) __ts_api_can_differ(d, 0, tol, "diffusion reduces scalar variance");
    }
  }
  if (s.size() == 1) {
    double d = windSquare(w, 0) - windSquare(w, 1);
    double tol = 1e-10 * ar * (c.cart ? 400 : 1e14);
    if (has(r, "pure")) {
      ts_check(d >= -tol, "diffusion does not increase the wind energy");
      __ts_api_can_differ(d, 0, tol, "diffusion reduces the wind energy");
    }
  }
  ts_reach("conserve");
}
// uniform fields are untouched
static void uniform() {
  World w(c);
  w.setup();
  scales(w);
  w.test->topo = atof(arg(r, "topo", "0").c_str());
  w.attach();
  std::vector<double> a = syms(w.comps() + c.ntr, 0.5, 2);
  double base[5] = {10, -7, 300, 1, 1};
  for (int v = 0; v < w.comps() + c.ntr; v++) {
    if (v < 2 && !c.cart) continue;
    DataLocation L = v < w.comps() ? w.loc(v) : DataLocation_Node;
    for (int n = 0; n < w.patches(); n++) {
      GridPatch *p = w.patch(n);
      const PatchBox &b = p->GetPatchBox();
      int K = L == DataLocation_REdge ? w.grid->GetRElements() + 1 : w.grid->GetRElements();
      for (int i = 0; i < b.GetATotalWidth(); i++) for (int j = 0; j < b.GetBTotalWidth(); j++) for (int k = 0; k < K; k++) {
        if (v < w.comps()) p->GetDataState(0, L)[v][i][j][k] = a[v] * base[v] * (1 + 0.1 * k);
        else p->GetDataTracers(0)[v - w.comps()][i][j][k] = a[v] * (1 + 0.1 * k);
      }
    }
  }
  after(w, 0, 1, 2, 20);
  for (int v = c.cart ? 0 : 2; v < w.comps() + c.ntr; v++)
    w.each(v < w.comps() ? w.loc(v) : DataLocation_Node, [&](GridPatch *p, int i, int j, int k) {
      ts_near(val(w, p, 1, v, i, j, k), val(w, p, 0, v, i, j, k), 1e-8, "a horizontally uniform field is not diffused");
    });
  ts_reach("uniform");
}
// viscosity applies nu times the Laplacian: exact for cubic fields inside an element
static void laplacian() {
  World w(c);
  w.setup();
  w.attach();
  double nus = ts_real("nuscale", 0.5, 2), dt = 20;
  std::vector<double> a = syms(6);
  double L = c.lx / c.nx, x0 = c.lx / c.nx * 1.3, y0 = c.ly / c.ny * 1.4;
  auto f = [&](double x, double y, double m[3]) {
    x = (x - x0) / L; y = (y - y0) / L;
    m[0] = a[0] * x * x + a[1] * x * y + a[2] * y * y + a[3] * x * x * x + a[4] * x * x * y + a[5] * y * y * y;
    m[1] = (2 * a[0] + 6 * a[3] * x + 2 * a[4] * y) / L / L;
    m[2] = (2 * a[2] + 6 * a[5] * y) / L / L;
  };
  int nv = w.comps() + c.ntr;
  for (int v = 2; v < nv; v++)
    w.each(v < w.comps() ? w.loc(v) : DataLocation_Node, [&](GridPatch *p, int i, int j, int k) {
      double m[3]; f(p->GetLongitude()[i][j], p->GetLatitude()[i][j], m);
      if (v < w.comps()) p->GetDataState(0, w.loc(v))[v][i][j][k] = (v + 1) * m[0]; else p->GetDataTracers(0)[v - w.comps()][i][j][k] = (v + 1) * m[0] + 1000;
    });
  (void)nus;
  after(w, 0, 1, 2, dt);
  int seen = 0;
  for (int v = 2; v < nv; v++)
    w.each(v < w.comps() ? w.loc(v) : DataLocation_Node, [&](GridPatch *p, int i, int j, int k) {
      const PatchBox &b = p->GetPatchBox();
      int gi = i - b.GetAInteriorBegin(), gj = j - b.GetBInteriorBegin();
      // nodes strictly inside the middle element
      if (gi <= c.order || gi >= 2 * c.order - 1 || gj <= c.order || gj >= 2 * c.order - 1) return;
      double m[3]; f(p->GetLongitude()[i][j], p->GetLatitude()[i][j], m);
      ts_near(val(w, p, 1, v, i, j, k) - val(w, p, 0, v, i, j, k), (v + 1) * dt * c.nuS * (m[1] + m[2]), 1e-9 * (1 + dt * c.nuS / L / L), "viscosity adds nu times the Laplacian");
      seen++;
    });
  ts_check(seen > 0, "interior nodes exist");
  ts_reach("laplacian");
}
// wind diffusion: nuD grad div - nuV curl curl, exact for cubic wind components inside an element
static void veclap() {
  World w(c);
  w.setup();
  w.attach();
  double dt = 20;
  std::vector<double> a = syms(8);
  double L = c.lx / c.nx, x0 = c.lx / c.nx * 1.3, y0 = c.ly / c.ny * 1.4;
  // u = a0 x^2 + a1 xy + a2 y^2 + a3 x^2 y ; v = a4 x^2 + a5 xy + a6 y^2 + a7 x y^2
  w.each(DataLocation_Node, [&](GridPatch *p, int i, int j, int k) {
    double x = (p->GetLongitude()[i][j] - x0) / L, y = (p->GetLatitude()[i][j] - y0) / L;
    p->GetDataState(0, DataLocation_Node)[0][i][j][k] = a[0] * x * x + a[1] * x * y + a[2] * y * y + a[3] * x * x * y;
    p->GetDataState(0, DataLocation_Node)[1][i][j][k] = a[4] * x * x + a[5] * x * y + a[6] * y * y + a[7] * x * y * y;
  });
  after(w, 0, 1, 2, dt);
  int seen = 0;
  w.each(DataLocation_Node, [&](GridPatch *p, int i, int j, int k) {
    const PatchBox &b = p->GetPatchBox();
    int gi = i - b.GetAInteriorBegin(), gj = j - b.GetBInteriorBegin();
    if (gi <= c.order || gi >= 2 * c.order - 1 || gj <= c.order || gj >= 2 * c.order - 1) return;
    double x = (p->GetLongitude()[i][j] - x0) / L, y = (p->GetLatitude()[i][j] - y0) / L;
    double uxx = 2 * a[0] + 2 * a[3] * y, uyy = 2 * a[2], uxy = a[1] + 2 * a[3] * x;
    double vxx = 2 * a[4], vyy = 2 * a[6] + 2 * a[7] * x, vxy = a[5] + 2 * a[7] * y;
    double gx = uxx + vxy, gy = uxy + vyy, zx = vxx - uxy, zy = vxy - uyy;
    double du = c.nuD * gx - c.nuV * zy, dv = c.nuD * gy + c.nuV * zx;
    double tol = 1e-9 * (1 + dt * (c.nuD + c.nuV) / L / L);
    ts_near(val(w, p, 1, 0, i, j, k) - val(w, p, 0, 0, i, j, k), dt * du / L / L, tol, "wind viscosity adds nuD grad div - nuV curl curl");
    ts_near(val(w, p, 1, 1, i, j, k) - val(w, p, 0, 1, i, j, k), c.xz ? 0 : dt * dv / L / L, tol, "wind viscosity adds nuD grad div - nuV curl curl");
    seen++;
  });
  ts_check(seen > 0, "interior nodes exist");
  ts_reach("veclap");
}
// on the sphere: spherical harmonics of degree one and two are multiplied by their eigenvalues
static void sphlap() {
  World w(c);
  w.setup();
  w.attach();
  const double R = w.model->GetPhysicalConstants().GetEarthRadius(), dt = 20;
  std::vector<double> s = syms(4);
  const double P[2][3] = {{0.5, -0.3, 0.8}, {0.6, 0.7, -0.2}}, Q[3] = {0.4, -0.6, -0.475};
  double tolS = atof(arg(r, "tol", "0.02").c_str()), tolV = atof(arg(r, "vtol", "0.05").c_str());
  auto dot = [](const double *a, const double *b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; };
  // potentials: s0 of degree one, s1 of degree two (traceless); their surface gradients on the unit sphere
  auto Y = [&](int m, const double *n) { return m == 0 ? dot(n, P[0]) : dot(n, P[0]) * dot(n, Q) - dot(P[0], Q) / 3; };
  auto grad = [&](int m, const double *n, double *G) {
    for (int d = 0; d < 3; d++) G[d] = m == 0 ? P[0][d] : P[0][d] * dot(n, Q) + Q[d] * dot(n, P[0]);
    double r_ = dot(G, n);
    for (int d = 0; d < 3; d++) G[d] -= r_ * n[d];
  };
  const double ev[2] = {2, 6};
  auto wind = [&](GridPatch *p, int i, int j, const double co[4], double &ua, double &ub) {
    double n[3], E[2][3], V[3] = {0, 0, 0}, G[3];
    w.position(p, i, j, n); w.tangents(p, i, j, E);
    for (int m = 0; m < 2; m++) {
      grad(m, n, G);
      double Z[3] = {n[1] * G[2] - n[2] * G[1], n[2] * G[0] - n[0] * G[2], n[0] * G[1] - n[1] * G[0]};
      for (int d = 0; d < 3; d++) V[d] = V[d] + co[m] * G[d] + co[2 + m] * Z[d];
    }
    ua = R * (V[0] * E[0][0] + V[1] * E[0][1] + V[2] * E[0][2]);
    ub = R * (V[0] * E[1][0] + V[1] * E[1][1] + V[2] * E[1][2]);
  };
  const int nv = w.comps() + c.ntr;
  for (int v = 2; v < nv; v++) {
    DataLocation L = v < w.comps() ? w.loc(v) : DataLocation_Node;
    w.each(L, [&](GridPatch *p, int i, int j, int k) {
      double n[3]; w.position(p, i, j, n);
      double f = 3 + (s[0] * Y(0, n) + s[1] * Y(1, n)) * (1 + 0.1 * v) * (1 + 0.2 * k);
      if (v < w.comps()) p->GetDataState(0, L)[v][i][j][k] = f; else p->GetDataTracers(0)[v - w.comps()][i][j][k] = f;
    });
  }
  w.each(DataLocation_Node, [&](GridPatch *p, int i, int j, int k) {
    double ua, ub, co[4] = {s[0] * (1 + 0.2 * k), s[1], s[2], s[3] * (1 - 0.1 * k)};
    wind(p, i, j, co, ua, ub);
    p->GetDataState(0, DataLocation_Node)[0][i][j][k] = ua; p->GetDataState(0, DataLocation_Node)[1][i][j][k] = ub;
  });
  after(w, 0, 1, 2, dt);
  const double q = dt / R / R;
  for (int v = 2; v < nv; v++) {
    DataLocation L = v < w.comps() ? w.loc(v) : DataLocation_Node;
    w.each(L, [&](GridPatch *p, int i, int j, int k) {
      double n[3]; w.position(p, i, j, n);
      double e = -(s[0] * Y(0, n) * ev[0] + s[1] * Y(1, n) * ev[1]) * (1 + 0.1 * v) * (1 + 0.2 * k);
      ts_near((val(w, p, 1, v, i, j, k) - val(w, p, 0, v, i, j, k)) / (q * c.nuS), e, tolS * 8, "viscosity on the sphere adds nu times the Laplacian");
    });
  }
  w.each(DataLocation_Node, [&](GridPatch *p, int i, int j, int k) {
    double ua, ub, co[4] = {-c.nuD * ev[0] * s[0] * (1 + 0.2 * k), -c.nuD * ev[1] * s[1], -c.nuV * ev[0] * s[2], -c.nuV * ev[1] * s[3] * (1 - 0.1 * k)};
    wind(p, i, j, co, ua, ub);
    double t = tolV * 12 * (c.nuD + c.nuV) * R;
    ts_near((val(w, p, 1, 0, i, j, k) - val(w, p, 0, 0, i, j, k)) / q, ua, t, "wind viscosity on the sphere adds nuD grad div - nuV curl curl");
    ts_near((val(w, p, 1, 1, i, j, k) - val(w, p, 0, 1, i, j, k)) / q, ub, t, "wind viscosity on the sphere adds nuD grad div - nuV curl curl");
  });
  ts_reach("sphlap");
}
// fourth order: old - dt nu (dx/ref)^3.2 L(L old), L from the second-order operator
static void compose() {
  std::vector<double> s = syms(2);
  double sc[5] = {3e6, 2e6, 5, 1, 0.1};
  if (c.cart) { sc[0] = 5; sc[1] = 4; }
  if (c.sw) sc[2] = 100;
  Cfg c2 = c;
  c2.hyp = 2; c2.nuS = 1; c2.nuD = 1; c2.nuV = 1;
  World w(c), w2(c2);
  double ref = c.cart ? c.lx * 0.4 : 0.3;
  w.setup(); w.grid->SetReferenceLength(ref); w.attach();
  addNoise(w, 0, s, sc, 0.02); smooth(w, 0);
  w2.setup(); w2.attach();
  addNoise(w2, 0, s, sc, 0.02); smooth(w2, 0);
  double dt = 20;
  after(w, 0, 1, 2, dt);
  double h = w.patch(0) ? dynamic_cast<GridPatchGLL *>(w.patch(0))->GetElementDeltaA() : 0;
  double f = pow(h / ref, 3.2);
  // L x = (x + L x) - x ; magnify to keep the differences accurate
  double big = c.cart ? 1e8 : 1e13;
  after(w2, 0, 1, 2, big);
  w2.grid->CopyData(1, 2, DataType_State);
  for (int n = 0; n < w2.patches(); n++) {
    GridPatch *p = w2.patch(n);
    for (int L = 0; L < 2; L++) {
      DataLocation DL = L ? DataLocation_REdge : DataLocation_Node;
      DataArray4D<double> &x = p->GetDataState(0, DL), &y = p->GetDataState(1, DL);
      for (size_t v = 0; v < x.GetSize(0); v++) for (size_t i = 0; i < x.GetSize(1); i++) for (size_t j = 0; j < x.GetSize(2); j++) for (size_t k = 0; k < x.GetSize(3); k++)
        y[v][i][j][k] = (y[v][i][j][k] - x[v][i][j][k]);
    }
  }
  after(w2, 1, 3, 4, big);
  for (int v = 0; v < w.comps(); v++)
    for (int n = 0; n < w.patches(); n++) {
      GridPatch *p = w.patch(n), *p2 = w2.patch(n);
      const PatchBox &b = p->GetPatchBox();
      double nu = v == 0 || v == 1 ? c.nuD : c.nuS;
      for (int i = b.GetAInteriorBegin(); i < b.GetAInteriorEnd(); i++) for (int j = b.GetBInteriorBegin(); j < b.GetBInteriorEnd(); j++) for (int k = 0; k < w.nk(v); k++) {
        double LL = (val(w2, p2, 3, v, i, j, k) - val(w2, p2, 1, v, i, j, k)) / big / big;
        double e = val(w, p, 0, v, i, j, k) - dt * nu * f * LL;
        ts_near(val(w, p, 1, v, i, j, k), e, 1e-7 * (v < 2 ? sc[v] : 1), "hyperviscosity is minus nu times the Laplacian applied twice");
        if (i == b.GetAInteriorBegin() + 1 && j == b.GetBInteriorBegin() + 1 && n == 0 && k == (c.sw ? 0 : 1) && (v == 0 || v == 2))
          __ts_api_can_differ(val(w, p, 1, v, i, j, k), val(w, p, 0, v, i, j, k), 1e-6 * (v < 2 ? sc[v] : 1), "hyperviscosity acts");
      }
    }
  ts_reach("compose");
}
// positive definite tracers
static void filter() {
  World w(c);
  w.setup();
  scales(w);
  w.attach();
  int ns = atoi(arg(r, "ns", "2").c_str());
  std::vector<double> s = syms(ns);
  bool posit = has(r, "positive");
  double sc = atof(arg(r, "scale", "1").c_str());   // trace amounts
  for (int t = 0; t < c.ntr; t++)
    w.each(DataLocation_Node, [&](GridPatch *p, int i, int j, int k) {
      double d = posit ? 1.0 : 0.35;
      const PatchBox &b = p->GetPatchBox();
      int gi = i - b.GetAInteriorBegin(), gj = j - b.GetBInteriorBegin();
      // one node in a few carries an undershoot
      if (posit || ((gi % c.order) * 3 + (gj % c.order) * 5 + k + t) % 7 == 0)
        for (int m = 0; m < ns; m++) d += (posit ? 0.45 : 0.5) * s[m] * noise(m + 3 * (k == 0), p->GetPatchIndex() % 2, 20 + t, gi % c.order, gj % c.order, k);
      p->GetDataTracers(0)[t][i][j][k] = sc * d;
    });
  // element totals before
  struct El { GridPatch *p; int a, b; };
  std::vector<double> m0, ar;
  auto elements = [&](std::function<void(GridPatch *, int, int, int, int)> f) {
    for (int n = 0; n < w.patches(); n++) {
      GridPatchGLL *p = dynamic_cast<GridPatchGLL *>(w.patch(n));
      for (int a = 0; a < p->GetElementCountA(); a++) for (int b = 0; b < p->GetElementCountB(); b++) for (int t = 0; t < c.ntr; t++) for (int k = 0; k < w.grid->GetRElements(); k++)
        f(p, p->GetPatchBox().GetAInteriorBegin() + a * c.order, p->GetPatchBox().GetBInteriorBegin() + b * c.order, t, k);
    }
  };
  auto mass = [&](GridPatch *p, int ia, int ib, int t, int k, int ix) {
    double m = 0;
    for (int i = 0; i < c.order; i++) for (int j = 0; j < c.order; j++) m += p->GetDataTracers(ix)[t][ia + i][ib + j][k] * World::area(p, DataLocation_Node)[ia + i][ib + j][k];
    return m;
  };
  elements([&](GridPatch *p, int a, int b, int t, int k) { double m = mass(p, a, b, t, k, 0) / sc; ts_assume(m >= 0); m0.push_back(m); });
  w.grid->CopyData(0, 1, DataType_Tracers);
  HorizontalDynamics *h = w.model->GetHorizontalDynamics();
  if (HorizontalDynamicsFEM *f = dynamic_cast<HorizontalDynamicsFEM *>(h)) f->FilterNegativeTracers(1);
  else if (HorizontalDynamicsFEMV2 *f = dynamic_cast<HorizontalDynamicsFEMV2 *>(h)) f->FilterNegativeTracers(1);
  double at = areaTotal(w);
  size_t e = 0;
  elements([&](GridPatch *p, int a, int b, int t, int k) {
    double m1 = mass(p, a, b, t, k, 1) / sc;
    ts_near(m1, m0[e], 1e-11 * at, "the filter keeps the tracer mass of every element");
    e++;
    for (int i = 0; i < c.order; i++) for (int j = 0; j < c.order; j++) {
      double x0 = p->GetDataTracers(0)[t][a + i][b + j][k] / sc, x1 = p->GetDataTracers(1)[t][a + i][b + j][k] / sc;
      ts_check(x1 >= -1e-13, "no negative tracer after the filter");
      if (posit) ts_near(x1, x0, 1e-11, "a positive field is not changed by the filter");
      else if (!__ts_api_is_sym(x0) && i + j == 0) ts_check(x1 <= x0 + 1e-12, "positive values are only reduced");
    }
  });
  // the filter runs as part of the sub-cycle update
  after(w, 0, 2, 3, 20);
  w.each(DataLocation_Node, [&](GridPatch *p, int i, int j, int k) {
    for (int t = 0; t < c.ntr; t++) ts_check(p->GetDataTracers(2)[t][i][j][k] >= -1e-13 * sc, "no negative tracer after the diffusion step");
  });
  ts_reach("filter");
}
// sponge layer
static void sponge() {
  World w(c);
  w.setup();
  w.test->s = syms(2);
  w.test->topo = atof(arg(r, "topo", "0").c_str());
  w.attach();
  double dt = 150;
  after(w, 0, 1, 2, dt);
  bool acted = false, top = false;
  for (int v = 0; v < w.comps(); v++)
    w.each(w.loc(v), [&](GridPatch *p, int i, int j, int k) {
      DataLocation L = w.loc(v);
      double z = L == DataLocation_REdge ? p->GetZInterfaces()[i][j][k] : p->GetZLevels()[i][j][k];
      double nu = w.test->EvaluateRayleighStrength(z, 0, 0);
      double x0 = w.state(p, 0, v, i, j, k), x1 = w.state(p, 1, v, i, j, k), ref = p->GetReferenceState(L)[v][i][j][k];
      double f = 1;
      bool damped = v != 4 && !(v == 1 && c.xz);
      if (damped) for (int q = 0; q < 10; q++) f /= 1 + dt * nu / 10;
      ts_near(x1, ref + (x0 - ref) * f, (v < 2 && !c.cart) ? 1e-1 : 1e-8, damped ? "the departure from the reference state is damped at the prescribed rate" : "density and tracers are not damped");
      if (damped && f < 0.9) { acted = true; if (L == DataLocation_REdge && k == w.grid->GetRElements()) top = true; }
    });
  for (int t = 0; t < c.ntr; t++) w.each(DataLocation_Node, [&](GridPatch *p, int i, int j, int k) {
    ts_near(p->GetDataTracers(1)[t][i][j][k], p->GetDataTracers(0)[t][i][j][k], 1e-11, "density and tracers are not damped");
  });
  ts_check(acted, "the sponge acts somewhere");
  ts_check(top, "the sponge reaches the model top");
  ts_reach("sponge");
}
static void body(int argc, char **argv) {
  mpi_sim_as(0, 1);
  c = parseCfg(argc, argv, r);
  if (has(r, "conserve")) conserve();
  if (has(r, "uniform")) uniform();
  if (has(r, "laplacian")) laplacian();
  if (has(r, "veclap")) veclap();
  if (has(r, "sphlap")) sphlap();
  if (has(r, "compose")) compose();
  if (has(r, "filter")) filter();
  if (has(r, "sponge")) sponge();
}
