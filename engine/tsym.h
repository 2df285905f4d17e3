// tsym harness API.  The same harness source is built twice: instrumented
// (symbolic execution, runtime.cpp) and natively (replay, native_rt.cpp).
#ifndef TSYM_H
#define TSYM_H
extern "C" {
// fresh symbolic inputs
double __ts_api_real(const char *name, double lo, double hi);
long __ts_api_int(const char *name, long lo, long hi);
// restrict the explored inputs
void __ts_api_assume(bool c);
// claims: decided by the solver for every value of the inputs on this path
void __ts_api_check(bool c, const char *what);
void __ts_api_near(double a, double b, double tol, const char *what);
// |a-b| <= tol is established in the negative (vacuity twin): must be falsifiable
void __ts_api_can_differ(double a, double b, double tol, const char *what);
// force a concrete value (forks over all feasible ones)
long __ts_api_fix(long v);
void __ts_api_note(const char *key, long v);
void __ts_api_reach(const char *label);
int __ts_api_is_native(void);
int __ts_api_is_sym(double v);
// the two values are the same expression
int __ts_api_same(double a, double b);
void __ts_api_skip_path(const char *why);
void __ts_api_dump(double v, const char *what);
// dv/dx of the expression of v with respect to the input variable held by x
double __ts_api_diff(double v, double x);
}
inline double ts_real(const char *n, double lo, double hi) { return __ts_api_real(n, lo, hi); }
inline long ts_int(const char *n, long lo, long hi) { return __ts_api_int(n, lo, hi); }
inline void ts_assume(bool c) { __ts_api_assume(c); }
inline void ts_check(bool c, const char *w) { __ts_api_check(c, w); }
inline void ts_near(double a, double b, double t, const char *w) { __ts_api_near(a, b, t, w); }
inline long ts_fix(long v) { return __ts_api_fix(v); }
inline long ts_choice(const char *n, long lo, long hi) { return __ts_api_fix(__ts_api_int(n, lo, hi)); }
inline void ts_note(const char *k, long v) { __ts_api_note(k, v); }
inline void ts_reach(const char *l) { __ts_api_reach(l); }
inline bool ts_native() { return __ts_api_is_native() != 0; }
// the harness entry point
void ts_harness(int argc, char **argv);
#endif
