// A small model built through the code's own set-up path, with a test case whose
// initial state depends on symbolic amplitudes.
#ifndef WORLD_H
#define WORLD_H
#include "TempestInitialize.h"
#include "TestCase.h"
#include "GridPatchGLL.h"
#include "tsym.h"
#include "mpi_sim.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include "CubedSphereTrans.h"
#include <functional>
#include <unistd.h>
#include <fcntl.h>

struct Cfg {
  bool cart, sw, ref, tracers, xz;
  int order, levels, vorder, nx, ny, hyp, vhyp, ntr, user;
  double nuS, nuD, nuV, inud, ztop, lx, ly, reflat;
  int bc[4];
  std::string h, v, scheme, stagger, stretch, vdisc;
  bool expl, massflux, rayleigh, scoeff;
  Time dt, end;
  double udS, udV;
  Cfg() : cart(true), sw(false), ref(false), tracers(false), xz(false), order(4), levels(3), vorder(1), nx(2), ny(2), hyp(4), vhyp(0), ntr(0), user(0),
          nuS(0), nuD(0), nuV(0), inud(0), ztop(10000), lx(100000), ly(80000), reflat(0), h("v1"), v("v1"), scheme("strang"),
          stagger("lor"), stretch("uniform"), vdisc("fe"), expl(false), massflux(false), rayleigh(false), scoeff(false),
          dt(0, 0, 0, 20, 0), end(0, 0, 0, 20, 0), udS(0), udV(0) { bc[0] = bc[1] = bc[2] = bc[3] = 0; }
};

// common command words of the model harnesses
inline Cfg parseCfg(int argc, char **argv, std::vector<std::string> &rest) {
  Cfg c;
  bool nset = false;
  for (int a = 1; a < argc; a++) {
    std::string s = argv[a], k = s, v;
    size_t p = s.find('=');
    if (p != std::string::npos) { k = s.substr(0, p); v = s.substr(p + 1); }
    if (k == "cart") c.cart = true;
    else if (k == "cs") { c.cart = false; if (!nset) c.nx = 1; }
    else if (k == "sw") { c.sw = true; c.v = "none"; c.ztop = 1; }
    else if (k == "nh") c.sw = false;
    else if (k == "h") c.h = v;
    else if (k == "v") c.v = v;
    else if (k == "o") c.order = atoi(v.c_str());
    else if (k == "l") c.levels = atoi(v.c_str());
    else if (k == "vo") c.vorder = atoi(v.c_str());
    else if (k == "n") { c.nx = c.ny = atoi(v.c_str()); nset = true; }
    else if (k == "nx") { c.nx = atoi(v.c_str()); nset = true; }
    else if (k == "ny") { c.ny = atoi(v.c_str()); nset = true; }
    else if (k == "xz") { c.xz = true; c.ny = 1; }
    else if (k == "tr") c.ntr = v.empty() ? 1 : atoi(v.c_str());
    else if (k == "user") c.user = atoi(v.c_str());
    else if (k == "scheme") c.scheme = v;
    else if (k == "stag") c.stagger = v;
    else if (k == "stretch") c.stretch = v;
    else if (k == "vdisc") c.vdisc = v;
    else if (k == "ref") c.ref = true;
    else if (k == "expl") c.expl = true;
    else if (k == "massflux") c.massflux = true;
    else if (k == "ray") { c.rayleigh = true; c.ref = true; }
    else if (k == "hyp") c.hyp = atoi(v.c_str());
    else if (k == "vhyp") c.vhyp = atoi(v.c_str());
    else if (k == "nu") c.nuS = c.nuD = c.nuV = atof(v.c_str());
    else if (k == "nus") c.nuS = atof(v.c_str());
    else if (k == "nud") c.nuD = atof(v.c_str());
    else if (k == "nuv") c.nuV = atof(v.c_str());
    else if (k == "inud") c.inud = atof(v.c_str());
    else if (k == "ud") c.udS = c.udV = atof(v.c_str());
    else if (k == "f") c.reflat = atof(v.c_str());
    else if (k == "bc") for (int q = 0; q < 4; q++) c.bc[q] = v[q] - '0';
    else rest.push_back(s);
  }
  return c;
}
inline bool has(const std::vector<std::string> &r, const char *w) { for (auto &x : r) if (x == w) return true; return false; }
inline std::string arg(const std::vector<std::string> &r, const char *k, const char *d) {
  std::string p = std::string(k) + "=";
  for (auto &x : r) if (x.compare(0, p.size(), p) == 0) return x.substr(p.size());
  return d;
}

struct WTest : public TestCase {
  const Cfg &c;
  std::vector<double> s;          // amplitudes (symbolic)
  double topo;                    // topography amplitude (may be symbolic)
  double utopo;                   // second topography mode
  std::vector<double> tr;         // tracer amplitudes
  double waveU, waveT, waveH;     // size of the state modes
  double bgU, bgV;                // background wind
  WTest(const Cfg &c_) : c(c_), topo(0), utopo(0), waveU(5), waveT(2), waveH(50), bgU(20), bgV(0) {}
  EquationSet::Type GetEquationSetType() const { return c.sw ? EquationSet::ShallowWaterEquations : EquationSet::PrimitiveNonhydrostaticEquations; }
  double GetZtop() const { return c.ztop; }
  bool HasReferenceState() const { return c.ref; }
  bool HasRayleighFriction() const { return c.rayleigh; }
  double EvaluateRayleighStrength(double z, double, double) const { double r = z / c.ztop - 0.4; return r > 0 ? 0.01 * r : 0; }
  void GetUniformDiffusionCoeffs(double &a, double &b) const { a = c.udS; b = c.udV; }
  // smooth mode m at a point (concrete numbers), between -1 and 1
  double mode(int m, double x, double y, double z) const {
    if (c.cart) {
      double kx = 2 * M_PI / c.lx, ky = 2 * M_PI / c.ly, zz = z / c.ztop;
      switch (m % 4) {
        case 0: return sin(kx * x + 0.3) * (0.6 + 0.4 * cos(ky * y)) * (1 - 0.5 * zz);
        case 1: return cos(ky * y + 0.7 + zz) * (0.7 - 0.3 * sin(kx * x));
        case 2: return 0.5 * sin(kx * x + ky * y) + 0.4 * cos(M_PI * zz);
        default: return 0.8 * cos(kx * x - 2 * ky * y + 0.1) * (0.3 + 0.7 * zz * zz);
      }
    }
    double X = cos(y) * cos(x), Y = cos(y) * sin(x), Z = sin(y), zz = z / c.ztop;
    switch (m % 4) {
      case 0: return (0.6 * X + 0.3 * Z) * (1 - 0.4 * zz);
      case 1: return 0.7 * Y * X + 0.2 * Z + 0.1 * zz;
      case 2: return 0.5 * Z * Z - 0.4 * Y;
      default: return (X * Y * Z + 0.3 * X) * (0.5 + 0.5 * zz);
    }
  }
  double EvaluateTopography(const PhysicalConstants &, double x, double y) const {
    return topo * (0.5 + 0.5 * mode(0, x, y, 0)) + utopo * (0.5 + 0.5 * mode(1, x, y, 0));
  }
  double amp(int m) const { return m < (int)s.size() ? s[m] : 0.0; }
  void eval(const PhysicalConstants &phys, double z, double x, double y, double *S, double *T, bool pert) const {
    double p[4];
    for (int m = 0; m < 4; m++) p[m] = mode(m, x, y, z);
    double e[4];
    for (int m = 0; m < 4; m++) e[m] = pert ? amp(m) : 0.0;
    // a field varying with every amplitude, in a different way per variable
    double a = e[0] * p[0] + e[1] * p[1] + e[2] * p[2] + e[3] * p[3];
    double b = e[0] * p[1] - e[1] * p[2] + e[2] * p[3] - e[3] * p[0];
    double d = e[0] * p[2] + e[1] * p[3] - e[2] * p[0] + e[3] * p[1];
    double w = e[0] * p[3] + e[1] * p[0] + e[2] * p[1] - e[3] * p[2];
    double cy = c.cart ? 1.0 : cos(y);
    if (c.sw) {
      S[0] = (pert ? bgU * cy * (1 + 0.2 * p[1]) : 0) + waveU * cy * a;
      S[1] = (pert ? bgV * cy * (1 + 0.2 * p[0]) : 0) + waveU * cy * b;
      S[2] = 2000 + (pert ? 100 * p[2] : 0) + waveH * d;
    } else {
      double g = phys.GetG(), th0 = 300, N2 = 1e-4, cp = phys.GetCp();
      double th = th0 * exp(N2 / g * z);
      double pi = 1 + g * g / (cp * th0 * N2) * (exp(-N2 / g * z) - 1);
      double rho = phys.GetP0() / (phys.GetR() * th) * pow(pi, phys.GetCv() / phys.GetR());
      S[0] = (pert ? bgU * cy * (1 + 0.2 * p[1]) : 0) + waveU * cy * a;
      S[1] = (pert ? bgV * cy * (1 + 0.2 * p[0]) : 0) + waveU * cy * b;
      S[2] = th + (pert ? p[0] : 0) + waveT * d;
      S[3] = (pert ? 0.1 * sin(M_PI * z / c.ztop) : 0) * w * waveU;
      S[4] = rho * (1 + (pert ? 0.002 * p[1] + 0.01 * (waveT / 2) * w : 0));
    }
    if (T) for (int t = 0; t < c.ntr; t++) {
      double v = t == 0 && !tr.empty() ? 0 : 0.5 + 0.3 * p[t % 4];
      for (size_t m = 0; m < tr.size(); m++) v += tr[m] * p[(t + m) % 4];
      T[t] = c.sw ? v * S[2] : v * S[4];
    }
  }
  void EvaluateReferenceState(const PhysicalConstants &phys, double z, double x, double y, double *S) const { eval(phys, z, x, y, S, 0, false); }
  void EvaluatePointwiseState(const PhysicalConstants &phys, const Time &, double z, double x, double y, double *S, double *T) const {
    eval(phys, z, x, y, S, c.ntr ? T : 0, true);
  }
};

inline void quiet() {
  static bool done = false;
  if (done) return;
  done = true;
  int fd = open("/dev/null", O_WRONLY);
  if (!getenv("TS_VERBOSE")) { fflush(stdout); if (!ts_native()) dup2(fd, 1); }
}

struct World {
  Cfg c;
  Model *model;
  Grid *grid;
  WTest *test;
  _TempestCommandLineVariables v;
  static EquationSet eqn(const Cfg &c) {
    EquationSet e(c.sw ? EquationSet::ShallowWaterEquations : EquationSet::PrimitiveNonhydrostaticEquations);
    for (int t = 0; t < c.ntr; t++) { std::string n = "Q0"; n[1] += t; e.InsertTracer(n, n); }
    return e;
  }
  static UserDataMeta meta(const Cfg &c) {
    UserDataMeta m;
    for (int q = 0; q < c.user; q++) { std::string n = "U0"; n[1] += q; m.InsertDataItem2D(n); }
    return m;
  }
  World(const Cfg &cc) : c(cc), model(0), grid(0), test(0) {
    v.fNoOutput = true; v.strOutputDir = ""; v.strOutputPrefix = "x"; v.strRestartFile = ""; v.fRestartPerturbation = false;
    v.nOutputsPerFile = -1; v.timeOutputRestartDeltaT = Time(0, 0, 0, 0, 0, Time::CalendarNoLeap, Time::TypeDelta);
    v.nOutputResX = 8; v.nOutputResY = 4; v.nOutputResZ = 0;
    v.fOutputVorticity = v.fOutputDivergence = v.fOutputTemperature = v.fOutputSurfacePressure = v.fOutputRichardson = false;
    v.fNoReferenceState = !c.ref; v.fNoTracers = !c.ntr; v.fNoHyperviscosity = false;
    v.nHyperviscosityOrder = c.hyp; v.dNuScalar = c.nuS; v.dNuDiv = c.nuD; v.dNuVort = c.nuV; v.dInstepNuDiv = c.inud;
    v.fExplicitVertical = c.expl; v.strVerticalStaggering = c.stagger; v.strVerticalDiscretization = c.vdisc;
    v.fForceMassFluxOnLevels = c.massflux; v.strVerticalStretch = c.stretch; v.nVerticalHyperdiffOrder = c.vhyp;
    v.strTimestepScheme = c.scheme; v.strHorizontalDynamics = c.h; v.strVerticalDynamics = c.v;
    v.nResolutionX = c.nx; v.nResolutionY = c.ny; v.nLevels = c.sw ? 1 : c.levels;
    v.timeOutputDeltaT = Time(0, 0, 1, 0, 0, Time::CalendarNoLeap, Time::TypeDelta);
    v.timeDeltaT = c.dt; v.timeEndTime = c.end;
    v.nHorizontalOrder = c.order; v.nVerticalOrder = c.sw ? 1 : c.vorder;
  }
  // the code's own set-up path
  void setup() {
    quiet();
    model = new Model(eqn(c), meta(c));
    if (c.cart) {
      double dim[6] = {0, c.lx, 0, c.ly, 0, c.ztop};
      _TempestSetupCartesianModel(*model, dim, c.reflat, c.bc, c.xz, v);
    } else {
      _TempestSetupCubedSphereModel(*model, v);
    }
    grid = model->GetGrid();
    test = new WTest(c);
  }
  // the same with a chosen number of patches on this rank
  void setupPatches(int np) {
    quiet();
    model = new Model(eqn(c), meta(c));
    model->SetDeltaT(v.timeDeltaT);
    model->SetEndTime(v.timeEndTime);
    _TempestSetupMethodOfLines(*model, v);
    Grid::VerticalStaggering st = c.stagger == "lev" ? Grid::VerticalStaggering_Levels : c.stagger == "int" ? Grid::VerticalStaggering_Interfaces
      : c.stagger == "cph" ? Grid::VerticalStaggering_CharneyPhillips : Grid::VerticalStaggering_Lorenz;
    Grid::VerticalDiscretization vd = c.vdisc == "fv" ? Grid::VerticalDiscretization_FiniteVolume : Grid::VerticalDiscretization_FiniteElement;
    GridGLL *g;
    if (c.cart) {
      double dim[6] = {0, c.lx, 0, c.ly, 0, c.ztop};
      GridCartesianGLL *q = new GridCartesianGLL(*model);
      q->DefineParameters();
      q->SetParameters(v.nLevels, np, v.nResolutionX, v.nResolutionY, 4, v.nHorizontalOrder, v.nVerticalOrder, dim, c.reflat, c.bc, c.xz, vd, st);
      g = q;
    } else {
      GridCSGLL *q = new GridCSGLL(*model);
      q->DefineParameters();
      q->SetParameters(v.nLevels, np < 6 ? 6 : np, v.nResolutionX, 4, v.nHorizontalOrder, v.nVerticalOrder, vd, st);
      g = q;
    }
    g->InitializeDataLocal();
    if (c.stretch == "cubic") g->SetVerticalStretchFunction(new VerticalStretchCubic);
    if (c.stretch == "pwlinear") g->SetVerticalStretchFunction(new VerticalStretchPiecewiseLinear);
    model->SetGrid(g, np);
    grid = model->GetGrid();
    test = new WTest(c);
  }
  void attach() {
    model->SetTestCase(test);
    // a run that ends where it starts only initialises the components
    Time end = model->GetEndTime();
    model->SetEndTime(model->GetStartTime());
    model->Go();
    model->SetEndTime(end);
  }
  int patches() const { return grid->GetActivePatchCount(); }
  GridPatch *patch(int n) const { return grid->GetActivePatch(n); }
  int comps() const { return c.sw ? 3 : 5; }
  DataLocation loc(int var) const { return grid->GetVarLocation(var); }
  int nk(int var) const { return loc(var) == DataLocation_REdge ? grid->GetRElements() + 1 : grid->GetRElements(); }
  // apply f(patch, i, j, k) to every interior node
  template <class F> void each(DataLocation L, F f) const {
    for (int n = 0; n < patches(); n++) {
      const PatchBox &b = patch(n)->GetPatchBox();
      int K = L == DataLocation_None ? 1 : L == DataLocation_REdge ? grid->GetRElements() + 1 : grid->GetRElements();
      for (int i = b.GetAInteriorBegin(); i < b.GetAInteriorEnd(); i++)
        for (int j = b.GetBInteriorBegin(); j < b.GetBInteriorEnd(); j++)
          for (int k = 0; k < K; k++) f(patch(n), i, j, k);
    }
  }
  // physical position of a node (sphere: unit vector; plane: x, y reduced to the period)
  void position(GridPatch *p, int i, int j, double P[3]) const {
    double x = p->GetLongitude()[i][j], y = p->GetLatitude()[i][j];
    if (c.cart) {
      P[0] = x - c.lx * floor(x / c.lx + 1e-9);
      P[1] = y - c.ly * floor(y / c.ly + 1e-9);
      if (c.bc[0] != 0) P[0] = x;
      if (c.bc[1] != 0) P[1] = y;
      P[0] /= c.lx; P[1] /= c.ly; P[2] = 0;
    } else { P[0] = cos(y) * cos(x); P[1] = cos(y) * sin(x); P[2] = sin(y); }
  }
  struct Node { GridPatch *p; int i, j; };
  // groups of coincident nodes
  std::vector<std::vector<Node> > groups() const {
    std::vector<std::vector<Node> > G;
    std::map<std::vector<long>, std::vector<int> > cell;
    each(DataLocation_None, [&](GridPatch *p, int i, int j, int) {
      double P[3]; position(p, i, j, P);
      std::vector<long> key(3);
      int found = -1;
      for (int d = 0; d < 27 && found < 0; d++) {
        key[0] = (long)floor(P[0] * 1e5) + d % 3 - 1; key[1] = (long)floor(P[1] * 1e5) + d / 3 % 3 - 1; key[2] = (long)floor(P[2] * 1e5) + d / 9 - 1;
        std::map<std::vector<long>, std::vector<int> >::iterator it = cell.find(key);
        if (it != cell.end()) for (size_t q = 0; q < it->second.size() && found < 0; q++) {
          const Node &o = G[it->second[q]][0]; double Q[3]; position(o.p, o.i, o.j, Q);
          if (fabs(P[0] - Q[0]) + fabs(P[1] - Q[1]) + fabs(P[2] - Q[2]) < 1e-7) found = it->second[q];
        }
      }
      Node n = {p, i, j};
      if (found >= 0) G[found].push_back(n);
      else {
        key[0] = (long)floor(P[0] * 1e5); key[1] = (long)floor(P[1] * 1e5); key[2] = (long)floor(P[2] * 1e5);
        cell[key].push_back(G.size()); G.push_back(std::vector<Node>(1, n));
      }
    });
    return G;
  }
  // tangent vectors e_alpha, e_beta (3D) at a node of the sphere, from the coordinate map itself
  void tangents(GridPatch *p, int i, int j, double E[2][3]) const {
    double h = 1e-5;
    for (int d = 0; d < 2; d++) {
      double P[4][3];
      for (int q = 0; q < 4; q++) {
        double o = (q == 0 ? -2 : q == 1 ? -1 : q == 2 ? 1 : 2) * h, lon, lat;
        CubedSphereTrans::RLLFromABP(p->GetANode(i) + (d == 0 ? o : 0), p->GetBNode(j) + (d == 1 ? o : 0), p->GetPatchBox().GetPanel(), lon, lat);
        P[q][0] = cos(lat) * cos(lon); P[q][1] = cos(lat) * sin(lon); P[q][2] = sin(lat);
      }
      for (int m = 0; m < 3; m++) E[d][m] = (P[0][m] - 8 * P[1][m] + 8 * P[2][m] - P[3][m]) / (12 * h);
    }
  }
  // 3D vector (times radius) from covariant components
  void vector3(GridPatch *p, int i, int j, double ua, double ub, double V[3]) const {
    double E[2][3]; tangents(p, i, j, E);
    double g00 = 0, g01 = 0, g11 = 0;
    for (int m = 0; m < 3; m++) { g00 += E[0][m] * E[0][m]; g01 += E[0][m] * E[1][m]; g11 += E[1][m] * E[1][m]; }
    double D = g00 * g11 - g01 * g01;
    double ca = (g11 * ua - g01 * ub) / D, cb = (g00 * ub - g01 * ua) / D;
    for (int m = 0; m < 3; m++) V[m] = ca * E[0][m] + cb * E[1][m];
  }
  double state(GridPatch *p, int ix, int var, int i, int j, int k) const { return p->GetDataState(ix, loc(var))[var][i][j][k]; }
  static const DataArray3D<double> &area(GridPatch *p, DataLocation L) { return L == DataLocation_REdge ? p->GetElementAreaREdge() : p->GetElementAreaNode(); }
  // integral of a conserved density over the domain
  double total(int ix, int var) const {
    double t = 0;
    const DataLocation L = loc(var);
    each(L, [&](GridPatch *p, int i, int j, int k) { t += p->GetDataState(ix, L)[var][i][j][k] * area(p, L)[i][j][k]; });
    return t;
  }
  double totalTracer(int ix, int t_) const {
    double t = 0;
    each(DataLocation_Node, [&](GridPatch *p, int i, int j, int k) { t += p->GetDataTracers(ix)[t_][i][j][k] * area(p, DataLocation_Node)[i][j][k]; });
    return t;
  }
};

static void body(int argc, char **argv);
void ts_harness(int argc, char **argv) {
  try { body(argc, argv); }
  catch (Exception &e) { fprintf(stderr, "exception: %s\n", e.ToString().c_str()); throw; }
}
#endif
