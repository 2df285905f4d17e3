// Native (uninstrumented) implementation of the harness API: replays one
// concrete assignment (a solver counterexample) against the real code.
#include "tsym.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <map>
#include <string>
#include <unistd.h>
static std::map<std::string, std::string> g_val;
static std::map<std::string, int> g_cnt;
static int g_viol = 0, g_assume_fail = 0;
static double hash01(const std::string &s) {
  unsigned long h = 1469598103934665603UL;
  for (char c : s) { h ^= (unsigned char)c; h *= 1099511628211UL; }
  h ^= h >> 33; h *= 0xff51afd7ed558ccdUL; h ^= h >> 33;
  return (double)(h >> 11) / 9007199254740992.0;
}
static std::string uniq(const char *n) {
  int k = g_cnt[n]++;
  if (k == 0) return n;
  return std::string(n) + "#" + std::to_string(k);
}
extern "C" {
double __ts_api_real(const char *name, double lo, double hi) {
  std::string u = uniq(name);
  auto it = g_val.find(u);
  if (it != g_val.end()) return strtod(it->second.c_str(), 0);
  return lo + (hi - lo) * hash01(u);
}
long __ts_api_int(const char *name, long lo, long hi) {
  std::string u = uniq(name);
  auto it = g_val.find(u);
  if (it != g_val.end()) return strtol(it->second.c_str(), 0, 10);
  return lo + (long)((double)(hi - lo) * hash01(u));
}
void __ts_api_assume(bool c) {
  if (!c) { printf("REPLAY-ASSUME-FALSE\n"); g_assume_fail = 1; fflush(stdout); _exit(g_viol ? 1 : 3); }
}
void __ts_api_check(bool c, const char *w) {
  if (!c) { printf("REPLAY-VIOLATED %s\n", w); fflush(stdout); g_viol++; }
}
void __ts_api_near(double a, double b, double t, const char *w) {
  if (!(std::fabs(a - b) <= t)) {
    printf("REPLAY-VIOLATED %s: %.17g vs %.17g (tol %.3g)\n", w, a, b, t); fflush(stdout); g_viol++;
  }
}
void __ts_api_can_differ(double, double, double, const char *) {}
long __ts_api_fix(long v) { return v; }
void __ts_api_note(const char *, long) {}
void __ts_api_reach(const char *) {}
int __ts_api_is_native(void) { return 1; }
int __ts_api_is_sym(double) { return 0; }
int __ts_api_same(double a, double b) { return a == b; }
void __ts_api_skip_path(const char *) { fflush(stdout); _exit(g_viol ? 1 : 3); }
void __ts_api_dump(double v, const char *w) { printf("%s = %.17g\n", w, v); }
double __ts_api_diff(double, double) { return 0; }
int __ts_memsym(const void *, long) { return 0; }
void __ts_aborted(const char *why) { printf("REPLAY-VIOLATED aborted: %s\n", why); fflush(stdout); _exit(1); }
}
int main(int argc, char **argv) {
  const char *f = getenv("TS_ASSIGN");
  if (f) {
    std::ifstream in(f);
    std::string k, v;
    while (in >> k >> v) g_val[k] = v;
  }
  try { ts_harness(argc, argv); }
  catch (std::exception &e) { printf("REPLAY-VIOLATED uncaught-exception: %s\n", e.what()); g_viol++; }
  catch (...) { printf("REPLAY-VIOLATED uncaught-exception\n"); g_viol++; }
  fflush(stdout);
  printf("REPLAY-DONE violations=%d\n", g_viol);
  fflush(stdout);
  _exit(g_viol ? 1 : 0);
}
