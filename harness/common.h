// Helpers shared by the model harnesses.
#ifndef COMMON_H
#define COMMON_H
#include "world.h"
static Cfg c;
static std::vector<std::string> r;
static std::vector<double> syms(int n, double lo = -1, double hi = 1) {
  std::vector<double> s;
  for (int m = 0; m < n; m++) { char b[8]; sprintf(b, "s%d", m); s.push_back(ts_real(b, lo, hi)); }
  return s;
}
static unsigned hashu(unsigned a) { a ^= a >> 16; a *= 0x7feb352du; a ^= a >> 15; a *= 0x846ca68bu; a ^= a >> 16; return a; }
// pseudo-random concrete number in [-1,1]
static double noise(int m, int n, int v, int i, int j, int k) {
  unsigned h = hashu(m * 7919 + 13); h = hashu(h ^ (n * 104729 + 7)); h = hashu(h ^ (v * 31 + 5)); h = hashu(h ^ (i * 977)); h = hashu(h ^ (j * 3571)); h = hashu(h ^ k);
  return (h % 20001) / 10000.0 - 1.0;
}
static void addNoise(World &w, int ix, const std::vector<double> &s, const double *sc, double trAmp = 0.1) {
  for (int v = 0; v < w.comps(); v++) {
    DataLocation L = w.loc(v);
    w.each(L, [&](GridPatch *p, int i, int j, int k) {
      double d = 0;
      for (size_t m = 0; m < s.size(); m++) d += s[m] * noise(m, p->GetPatchIndex(), v, i, j, k);
      p->GetDataState(ix, L)[v][i][j][k] += sc[v] * d;
    });
  }
  for (int t = 0; t < w.c.ntr; t++)
    w.each(DataLocation_Node, [&](GridPatch *p, int i, int j, int k) {
      double d = 0;
      for (size_t m = 0; m < s.size(); m++) d += s[m] * noise(m, p->GetPatchIndex(), 20 + t, i, j, k);
      p->GetDataTracers(ix)[t][i][j][k] += trAmp * d;
    });
}
static int massVar() { return c.sw ? 2 : 4; }
#endif
