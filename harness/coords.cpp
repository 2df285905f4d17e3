// Coordinate, vector and index transforms of the cubed sphere.
#include "tsym.h"
#include "CubedSphereTrans.h"
#include "Direction.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
// axes of the panels: P ~ X ex + Y ey + ez
static const int AX[6][3][3] = {
  {{0, 1, 0}, {0, 0, 1}, {1, 0, 0}}, {{-1, 0, 0}, {0, 0, 1}, {0, 1, 0}}, {{0, -1, 0}, {0, 0, 1}, {-1, 0, 0}},
  {{1, 0, 0}, {0, 0, 1}, {0, -1, 0}}, {{0, 1, 0}, {-1, 0, 0}, {0, 0, 1}}, {{0, 1, 0}, {1, 0, 0}, {0, 0, -1}}};
static void ray(int p, double X, double Y, double *q) { for (int a = 0; a < 3; a++) q[a] = X * AX[p][0][a] + Y * AX[p][1][a] + AX[p][2][a]; }
static double dotAx(const double *q, int p, int k) { double s = 0; for (int a = 0; a < 3; a++) if (AX[p][k][a]) s += AX[p][k][a] * q[a]; return s; }
// tangents of the unit sphere, divided by the distance factor s = 1/sqrt(1+X^2+Y^2)
static void tang(int p, double X, double Y, double *Ta, double *Tb) {
  double q[3]; ray(p, X, Y, q); double d2 = 1 + X * X + Y * Y;
  for (int a = 0; a < 3; a++) { Ta[a] = (1 + X * X) * (AX[p][0][a] - X / d2 * q[a]); Tb[a] = (1 + Y * Y) * (AX[p][1][a] - Y / d2 * q[a]); }
}
struct Range { double x0, x1, y0, y1; };
static Range range(const char *w) {
  // quadrants of a panel, edges, the axes
  Range r = {-1, 1, -1, 1};
  if (!strcmp(w, "pp")) r = Range{1e-6, 1, 0, 1};
  if (!strcmp(w, "pm")) r = Range{1e-6, 1, -1, 0};
  if (!strcmp(w, "mp")) r = Range{-1, -1e-6, 0, 1};
  if (!strcmp(w, "mm")) r = Range{-1, -1e-6, -1, 0};
  if (!strcmp(w, "yp")) r = Range{0, 0, 1e-6, 1};
  if (!strcmp(w, "ym")) r = Range{0, 0, -1, -1e-6};
  if (!strcmp(w, "o")) r = Range{0, 0, 0, 0};
  return r;
}
static double pick(const char *n, double a, double b) { return a == b ? a : ts_real(n, a, b); }
// geographical coordinates denote the point of the projection
static void rll(int p, Range R) {
  double X = pick("X", R.x0, R.x1), Y = pick("Y", R.y0, R.y1), lon, lat, x[3], q[3];
  CubedSphereTrans::RLLFromXYP(X, Y, p, lon, lat);
  ts_check((int)(lon >= 0) & (int)(lon <= 2 * M_PI), "longitude in range");
  ts_check((int)(lat >= -M_PI / 2) & (int)(lat <= M_PI / 2), "latitude in range");
  CubedSphereTrans::XYZFromXYP(X, Y, p, x[0], x[1], x[2]);
  ray(p, X, Y, q); double s = 1 / sqrt(1 + X * X + Y * Y);
  for (int a = 0; a < 3; a++) ts_near(x[a], s * q[a], 1e-12, "Cartesian position");
  ts_near(cos(lat) * cos(lon), s * q[0], 1e-9, "geographical position x");
  ts_near(cos(lat) * sin(lon), s * q[1], 1e-9, "geographical position y");
  ts_near(sin(lat), s * q[2], 1e-9, "geographical position z");
}
static void rllabp(int p, Range R) {
  double A = pick("A", R.x0 * M_PI / 4, R.x1 * M_PI / 4), B = pick("B", R.y0 * M_PI / 4, R.y1 * M_PI / 4), lon, lat, l2, a2;
  CubedSphereTrans::RLLFromABP(A, B, p, lon, lat);
  CubedSphereTrans::RLLFromXYP(tan(A), tan(B), p, l2, a2);
  ts_near(lon, l2, 1e-12, "equiangular longitude"); ts_near(lat, a2, 1e-12, "equiangular latitude");
}
// and back
static void back(int p, Range R) {
  double X = pick("X", R.x0 * 0.999, R.x1 * 0.999), Y = pick("Y", R.y0 * 0.999, R.y1 * 0.999), lon, lat, X2, Y2; int p2;
  CubedSphereTrans::RLLFromXYP(X, Y, p, lon, lat);
  CubedSphereTrans::XYPFromRLL(lon, lat, X2, Y2, p2);
  ts_check(p2 == p, "the same panel");
  ts_near(X2, X, 1e-8, "X again"); ts_near(Y2, Y, 1e-8, "Y again");
}
static void backabp(int p, Range R) {
  double X = pick("X", R.x0 * 0.999, R.x1 * 0.999), Y = pick("Y", R.y0 * 0.999, R.y1 * 0.999), lon, lat, A, B; int p2;
  CubedSphereTrans::RLLFromXYP(X, Y, p, lon, lat);
  CubedSphereTrans::ABPFromRLL(lon, lat, A, B, p2);
  ts_check(p2 == p, "the same panel");
  ts_near(tan(A), X, 1e-8, "alpha again"); ts_near(tan(B), Y, 1e-8, "beta again");
}
// geographical components of a tangent vector; e_lon = (-y, x, 0)/r, e_lat = north
static void vec(int p, Range R) {
  double X = pick("X", R.x0, R.x1), Y = pick("Y", R.y0, R.y1);
  double ul = ts_real("ulon", -1, 1), ut = ts_real("ulat", -1, 1), ca, cb, va, vb, wl, wt, zl, zt;
  double lon, lat; CubedSphereTrans::RLLFromXYP(X, Y, p, lon, lat);
  CubedSphereTrans::CoVecTransABPFromRLL(X, Y, p, ul, ut, ca, cb);
  CubedSphereTrans::VecTransABPFromRLL(X, Y, p, ul, ut, va, vb);
  CubedSphereTrans::CoVecTransRLLFromABP(X, Y, p, ca, cb, wl, wt);
  double Ta[3], Tb[3], q[3]; tang(p, X, Y, Ta, Tb); ray(p, X, Y, q);
  double s = 1 / sqrt(1 + X * X + Y * Y), el[3], et[3];
  if (X == 0 && Y == 0 && p > 3) {
    double sg = p == 4 ? -1 : 1;
    el[0] = -sin(lon); el[1] = cos(lon); el[2] = 0; et[0] = sg * cos(lon); et[1] = sg * sin(lon); et[2] = 0;
  } else {
    double r = sqrt(q[0] * q[0] + q[1] * q[1]);
    el[0] = -q[1] / r; el[1] = q[0] / r; el[2] = 0;
    for (int a = 0; a < 2; a++) et[a] = -q[2] * s * q[a] / r;
    et[2] = r * s;
    CubedSphereTrans::VecTransRLLFromABP(X, Y, p, va, vb, zl, zt);
    ts_near(zl, ul, 1e-8, "east again (vector)"); ts_near(zt, ut, 1e-8, "north again (vector)");
  }
  double da = 0, db = 0;
  for (int a = 0; a < 3; a++) { double V = ul * el[a] + ut * et[a]; da += V * Ta[a] * s; db += V * Tb[a] * s; }
  ts_near(ca, da, 1e-8, "covariant alpha component"); ts_near(cb, db, 1e-8, "covariant beta component");
  for (int a = 0; a < 3; a++) ts_near(s * (va * Ta[a] + vb * Tb[a]), ul * el[a] + ut * et[a], 1e-8, "contravariant components");
  ts_near(wl, ul, 1e-8, "east again (covector)"); ts_near(wt, ut, 1e-8, "north again (covector)");
}
// vectors seen from a neighbouring panel
static void panels(int s, int d) {
  double b[4] = {-1.2, 1.2, -1.2, 1.2};
  // the part of the destination panel's plane that lies on the side of the source panel
  int cx = 0, cy = 0; for (int a = 0; a < 3; a++) { cx += AX[s][2][a] * AX[d][0][a]; cy += AX[s][2][a] * AX[d][1][a]; }
  if (cx) { b[0] = cx > 0 ? 0.8 : -1.2; b[1] = cx > 0 ? 1.2 : -0.8; }
  if (cy) { b[2] = cy > 0 ? 0.8 : -1.2; b[3] = cy > 0 ? 1.2 : -0.8; }
  double X = ts_real("X", b[0], b[1]), Y = ts_real("Y", b[2], b[3]), q[3], q1[3];
  ray(d, X, Y, q); double zs = dotAx(q, s, 2), Xs = dotAx(q, s, 0) / zs, Ys = dotAx(q, s, 1) / zs, X1, Y1;
  CubedSphereTrans::XYPFromXYP(Xs, Ys, s, d, X1, Y1);
  ts_near(X1, X, 1e-9, "X on the other panel"); ts_near(Y1, Y, 1e-9, "Y on the other panel");
  double ua = ts_real("ua", -1, 1), ub = ts_real("ub", -1, 1), Ta[3], Tb[3], Sa[3], Sb[3];
  tang(d, X, Y, Ta, Tb); tang(s, Xs, Ys, Sa, Sb);
  double a = ua, c = ub; CubedSphereTrans::VecPanelTrans(s, d, a, c, X, Y);
  for (int k = 0; k < 3; k++) ts_near(a * Ta[k] + c * Tb[k], zs * (ua * Sa[k] + ub * Sb[k]), 1e-8, "vector on the other panel");
  // covector: the components along the destination tangents of the vector with the given source components
  // va, vb contravariant source components; wa = V.Sa
  double g11 = 0, g12 = 0, g22 = 0, e1 = 0, e2 = 0;
  for (int k = 0; k < 3; k++) { double V = ua * Sa[k] + ub * Sb[k]; g11 += V * Sa[k]; g22 += V * Sb[k]; e1 += V * Ta[k]; e2 += V * Tb[k]; }
  a = zs * g11; c = zs * g22; (void)g12;
  CubedSphereTrans::CoVecPanelTrans(s, d, a, c, X, Y);
  ts_near(a, e1, 1e-8, "covector on the other panel (alpha)"); ts_near(c, e2, 1e-8, "covector on the other panel (beta)");
}
// neighbours and indices
static int dotI(const long *q, int p, int k, long &r) { r = 0; for (int a = 0; a < 3; a++) r += AX[p][k][a] * q[a]; return 0; }
static const Direction DIRS[4] = {Direction_Right, Direction_Top, Direction_Left, Direction_Bottom};
static const int DV[4][2] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}};
struct Edge { int dest, back, parAxis, parSign, swap, perpFlip; };
static Edge edge(int s, int e) {
  Edge E; memset(&E, 0, sizeof E);
  int out[3]; for (int a = 0; a < 3; a++) out[a] = DV[e][0] * AX[s][0][a] + DV[e][1] * AX[s][1][a];
  for (int d = 0; d < 6; d++) { int m = 1; for (int a = 0; a < 3; a++) m &= AX[d][2][a] == out[a]; if (m) E.dest = d; }
  int d = E.dest;
  for (int f = 0; f < 4; f++) { int m = 1; for (int a = 0; a < 3; a++) m &= DV[f][0] * AX[d][0][a] + DV[f][1] * AX[d][1][a] == AX[s][2][a]; if (m) E.back = f; }
  int sa = e % 2 == 0 ? 1 : 0;           // parallel axis of the source
  E.parAxis = E.back % 2 == 0 ? 1 : 0;   // and of the destination
  int dp = 0; for (int a = 0; a < 3; a++) dp += AX[s][sa][a] * AX[d][E.parAxis][a];
  E.parSign = dp; E.swap = sa != E.parAxis;
  int so = DV[e][0] + DV[e][1], si = -(DV[E.back][0] + DV[E.back][1]);
  E.perpFlip = so != si;
  return E;
}
static void index(int s) {
  long N = ts_int("N", 1, 1000), i = ts_int("i", 0, 999), dep = ts_int("d", 0, 999);
  ts_assume((int)(i < N) & (int)(dep < N));
  int e = (int)ts_choice("edge", 0, 3); Edge E = edge(s, e);
  long ix = e == 0 ? N + dep : e == 2 ? -1 - dep : i, jx = e == 1 ? N + dep : e == 3 ? -1 - dep : i;
  int p, xi, yi; bool ab, pa, pe;
  CubedSphereTrans::RelativeCoord((int)N, s, (int)ix, (int)jx, p, xi, yi, ab, pa, pe);
  long along = E.parSign > 0 ? i : N - 1 - i;
  long depth = (E.back < 2) ? N - 1 - dep : dep;
  ts_check(p == E.dest, "panel across the edge");
  ts_check((E.parAxis == 0 ? (long)xi : (long)yi) == along, "index along the edge");
  ts_check((E.parAxis == 0 ? (long)yi : (long)xi) == depth, "index across the edge");
  ts_check((int)ab == E.swap, "exchange of the axes"); ts_check((int)pa == (E.parSign < 0), "reversal along the edge"); ts_check((int)pe == E.perpFlip, "reversal across the edge");
  // inside and corners
  int q, a, b; CubedSphereTrans::RelativeCoord((int)N, s, (int)i, (int)dep, q, a, b, ab, pa, pe);
  ts_check((int)(q == s) & (int)(a == i) & (int)(b == dep) & (int)!ab & (int)!pa & (int)!pe, "interior indices are unchanged");
  CubedSphereTrans::RelativeCoord((int)N, s, (int)(e < 2 ? N + dep : -1 - dep), (int)(e % 2 ? N + i : -1 - i), q, a, b, ab, pa, pe);
  ts_check(q == InvalidPanel, "no panel beyond a corner");
}
static Direction dirOf(int x, int y) {
  if (x > 0) return y > 0 ? Direction_TopRight : y < 0 ? Direction_BottomRight : Direction_Right;
  if (x < 0) return y > 0 ? Direction_TopLeft : y < 0 ? Direction_BottomLeft : Direction_Left;
  return y > 0 ? Direction_Top : y < 0 ? Direction_Bottom : Direction_Middle;
}
static void directions() {
  int s = (int)ts_choice("panel", 0, 5), e = (int)ts_choice("edge", 0, 3), k = (int)ts_choice("side", -1, 1);
  Edge E = edge(s, e);
  int x = DV[e][0], y = DV[e][1]; if (k) { if (e % 2 == 0) y = k; else x = k; }
  Direction o = CubedSphereTrans::OpposingDirection(s, E.dest, dirOf(x, y));
  // inward on the destination, continued along the edge, reversed
  int bx = DV[E.back][0], by = DV[E.back][1]; if (k) { if (E.parAxis == 0) bx = -k * E.parSign; else by = -k * E.parSign; }
  ts_check(o == dirOf(bx, by), "direction of return");
  ts_check(CubedSphereTrans::OpposingDirection(s, s, dirOf(x, y)) == dirOf(-x, -y), "direction of return inside a panel");
  if (!k) {
    int r; Direction dd; CubedSphereTrans::RelativePanel(s, DIRS[e], r, dd);
    ts_check(r == E.dest, "neighbouring panel"); ts_check(dd == DIRS[E.back], "direction back to the panel");
    ts_check(CubedSphereTrans::PanelFromDirection(s, DIRS[e]) == E.dest, "panel in a direction");
    ts_check(CubedSphereTrans::DirectionFromPanel(s, E.dest) == DIRS[e], "direction of a panel");
  }
}
static void area() {
  double X = ts_real("X", -1, 1), Y = ts_real("Y", -1, 1);
  double g = CubedSphereTrans::GnomonicGridAngle(X, Y);
  double Ta[3], Tb[3], ab = 0, aa = 0, bb = 0; tang(0, X, Y, Ta, Tb);
  for (int k = 0; k < 3; k++) { ab += Ta[k] * Tb[k]; aa += Ta[k] * Ta[k]; bb += Tb[k] * Tb[k]; }
  double c = cos(g); ts_near(c * c * aa * bb, ab * ab, 1e-9, "angle between the grid lines"); ts_check(c * X * Y <= 1e-12, "acute or obtuse angle");
  double u = ts_real("dX", 0.01, 1), v = ts_real("dY", 0.01, 1);
  (void)u; (void)v;
  ts_near(CubedSphereTrans::GnomonicElementArea(-1, 2, -1, 2, 1), 4 * M_PI / 6, 1e-12, "area of a panel");
}
void ts_harness(int argc, char **argv) {
  std::string m = argc > 1 ? argv[1] : "rll"; int p = argc > 2 ? atoi(argv[2]) : 0; const char *q = argc > 3 ? argv[3] : "all";
  if (m == "rll") rll(p, range(q));
  if (m == "rllabp") rllabp(p, range(q));
  if (m == "back") back(p, range(q));
  if (m == "backabp") backabp(p, range(q));
  if (m == "vec") vec(p, range(q));
  if (m == "panels") panels(p, argc > 3 ? atoi(argv[3]) : 1);
  if (m == "index") index(p);
  if (m == "directions") directions();
  if (m == "area") area();
  ts_reach(m.c_str());
}
