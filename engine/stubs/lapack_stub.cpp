// LAPACK/BLAS entry points as called by the code under test (linked with
// --wrap).  Concrete data goes to the real library.  Symbolic data: BLAS-1 and
// triangular solves are carried out by their definition; a linear system with
// concrete matrix is solved through the real factorisation; a symbolic matrix
// is handled by elimination (tiny systems) or by contract (lapack_mode).
#include "lapack_stub.h"
#include "tsym.h"
#include <cmath>
#include <cstdio>
#include <cstring>
#include <cstdlib>
extern "C" int __ts_memsym(const void *p, long n);
std::vector<LapackCall> lapack_calls;
int lapack_mode = 0;
double lapack_xmag = 10.0;
static bool sy(const void *p, long n) { return n > 0 && __ts_memsym(p, n); }
extern "C" {
int __real_dgesv_(int *, int *, double *, int *, int *, double *, int *, int *);
int __real_dgbsv_(int *, int *, int *, int *, double *, int *, int *, double *, int *, int *);
int __real_dgtsv_(int *, int *, double *, double *, double *, double *, int *, int *);
int __real_dgetrf_(int *, int *, double *, int *, int *, int *);
int __real_dgetri_(int *, double *, int *, int *, double *, int *, int *);
int __real_dgetrs_(char *, int *, int *, double *, int *, int *, double *, int *, int *);
int __real_dgbtrf_(int *, int *, int *, int *, double *, int *, int *, int *);
int __real_dgbtrs_(char *, int *, int *, int *, int *, double *, int *, int *, double *, int *, int *);
int __real_dgemm_(char *, char *, int *, int *, int *, double *, double *, int *, double *, int *, double *, double *, int *);
int __real_dgeqrf_(int *, int *, double *, int *, double *, double *, int *, int *);
int __real_dorgqr_(int *, int *, int *, double *, int *, double *, double *, int *, int *);
int __real_dgesvd_(char *, char *, int *, int *, double *, int *, double *, double *, int *, double *, int *, double *, int *, int *);
int __real_dtpsv_(char *, char *, char *, int *, double *, double *, int *);
int __real_dtrtri_(char *, char *, int *, double *, int *, int *);
}
static void nosym(const char *f, const void *p, long n) {
  if (sy(p, n)) { ts_check(false, f); __ts_api_skip_path(f); }
}
// dense solve with symbolic matrix
int __attribute__((noinline)) solveSym(int n, int nrhs, std::vector<double> A, double *b, int ldb) {
  if (lapack_mode == 2)
    // the solution as an unknown function of the system: equal systems, equal solutions
    for (size_t q = 0; q < lapack_calls.size(); q++) {
      const LapackCall &c = lapack_calls[q];
      bool eq = c.n == n && c.nrhs == nrhs;
      for (int k = 0; eq && k < nrhs; k++) for (int i = 0; eq && i < n; i++) eq = __ts_api_same(c.b[k * n + i], b[k * ldb + i]);
      for (int i = 0; eq && i < n * n; i++) eq = __ts_api_same(c.A[i], A[i]);
      if (!eq) continue;
      for (int k = 0; k < nrhs; k++) for (int i = 0; i < n; i++) b[k * ldb + i] = c.x[k * n + i];
      return 0;
    }
  if (lapack_mode) {
    LapackCall c;
    c.n = n; c.nrhs = nrhs; c.A = A;
    for (int k = 0; k < nrhs; k++)
      for (int i = 0; i < n; i++) c.b.push_back(b[k * ldb + i]);
    for (int k = 0; k < nrhs; k++)
      for (int i = 0; i < n; i++) {
        double x = ts_real("lapack_x", -lapack_xmag, lapack_xmag);
        b[k * ldb + i] = x;
        c.x.push_back(x);
      }
    lapack_calls.push_back(c);
    return 0;
  }
  // Gaussian elimination without pivoting (the pivot is assumed non-zero)
  for (int p = 0; p < n; p++) {
    for (int i = p + 1; i < n; i++) {
      double f = A[i * n + p] / A[p * n + p];
      for (int j = p; j < n; j++) A[i * n + j] -= f * A[p * n + j];
      for (int k = 0; k < nrhs; k++) b[k * ldb + i] -= f * b[k * ldb + p];
    }
  }
  for (int k = 0; k < nrhs; k++)
    for (int i = n - 1; i >= 0; i--) {
      double s = b[k * ldb + i];
      for (int j = i + 1; j < n; j++) s -= A[i * n + j] * b[k * ldb + j];
      b[k * ldb + i] = s / A[i * n + i];
    }
  return 0;
}
// concrete dense inverse applied to symbolic right-hand sides
static int solveConc(int n, int nrhs, const std::vector<double> &A, double *b, int ldb) {
  std::vector<double> M(n * n), I(n * n, 0.0);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) M[j * n + i] = A[i * n + j];
  for (int i = 0; i < n; i++) I[i * n + i] = 1;
  std::vector<int> pv(n);
  int info = 0;
  __real_dgesv_(&n, &n, &M[0], &n, &pv[0], &I[0], &n, &info);
  if (info) return info;
  for (int k = 0; k < nrhs; k++) {
    std::vector<double> x(n);
    for (int i = 0; i < n; i++) {
      double s = 0;
      for (int j = 0; j < n; j++) if (I[j * n + i] != 0) s += I[j * n + i] * b[k * ldb + j];
      x[i] = s;
    }
    for (int i = 0; i < n; i++) b[k * ldb + i] = x[i];
  }
  return 0;
}
// replays: keep what the harness would look at in a symbolic run
static bool rec() { return lapack_mode && ts_native(); }
static LapackCall dense(int n, int nrhs, const double *b, int ldb) {
  LapackCall c;
  c.n = n; c.nrhs = nrhs; c.A.assign(n * n, 0.0);
  for (int k = 0; k < nrhs; k++) for (int i = 0; i < n; i++) c.b.push_back(b[k * ldb + i]);
  return c;
}
static void solved(LapackCall &c, const double *b, int ldb) {
  for (int k = 0; k < c.nrhs; k++) for (int i = 0; i < c.n; i++) c.x.push_back(b[k * ldb + i]);
  lapack_calls.push_back(c);
}
static std::vector<std::pair<double *, std::vector<double> > > fact;
static std::vector<double> &factored(double *a) {
  for (size_t i = 0; i < fact.size(); i++) if (fact[i].first == a) return fact[i].second;
  fact.push_back(std::make_pair(a, std::vector<double>()));
  return fact.back().second;
}
extern "C" {
int __wrap_dgesv_(int *n, int *nrhs, double *a, int *lda, int *ipiv, double *b, int *ldb, int *info) {
  long na = (long)*lda * *n * 8;
  bool sa = sy(a, na), sb = sy(b, (long)*ldb * *nrhs * 8);
  if (!sa && !sb) return __real_dgesv_(n, nrhs, a, lda, ipiv, b, ldb, info);
  std::vector<double> A(*n * *n);
  for (int i = 0; i < *n; i++)
    for (int j = 0; j < *n; j++) A[i * *n + j] = a[j * *lda + i];
  for (int i = 0; i < *n; i++) ipiv[i] = i + 1;
  *info = sa ? solveSym(*n, *nrhs, A, b, *ldb) : solveConc(*n, *nrhs, A, b, *ldb);
  return 0;
}
int __wrap_dgbsv_(int *n, int *kl, int *ku, int *nrhs, double *ab, int *ldab, int *ipiv, double *b, int *ldb, int *info) {
  bool sa = sy(ab, (long)*ldab * *n * 8), sb = sy(b, (long)*ldb * *nrhs * 8);
  if (!sa && !sb && !rec()) return __real_dgbsv_(n, kl, ku, nrhs, ab, ldab, ipiv, b, ldb, info);
  std::vector<double> A(*n * *n, 0.0);
  for (int j = 0; j < *n; j++)
    for (int i = 0; i < *n; i++)
      if (i - j <= *kl && j - i <= *ku) A[i * *n + j] = ab[j * *ldab + *kl + *ku + i - j];
  if (rec()) {
    LapackCall c = dense(*n, *nrhs, b, *ldb);
    c.A = A;
    int q = __real_dgbsv_(n, kl, ku, nrhs, ab, ldab, ipiv, b, ldb, info);
    solved(c, b, *ldb);
    return q;
  }
  for (int i = 0; i < *n; i++) ipiv[i] = i + 1;
  *info = sa ? solveSym(*n, *nrhs, A, b, *ldb) : solveConc(*n, *nrhs, A, b, *ldb);
  return 0;
}
int __wrap_dgtsv_(int *n, int *nrhs, double *dl, double *d, double *du, double *b, int *ldb, int *info) {
  bool sa = sy(dl, (*n - 1) * 8) || sy(d, *n * 8) || sy(du, (*n - 1) * 8), sb = sy(b, (long)*ldb * *nrhs * 8);
  if (!sa && !sb) return __real_dgtsv_(n, nrhs, dl, d, du, b, ldb, info);
  std::vector<double> A(*n * *n, 0.0);
  for (int i = 0; i < *n; i++) {
    A[i * *n + i] = d[i];
    if (i + 1 < *n) { A[i * *n + i + 1] = du[i]; A[(i + 1) * *n + i] = dl[i]; }
  }
  *info = sa ? solveSym(*n, *nrhs, A, b, *ldb) : solveConc(*n, *nrhs, A, b, *ldb);
  return 0;
}
// a symbolic matrix is kept unfactored and marked, dgetrs solves it
static std::vector<std::pair<double *, std::vector<double> > > pend;
static std::vector<double> *pending(double *a) {
  for (size_t i = 0; i < pend.size(); i++) if (pend[i].first == a) return &pend[i].second;
  return 0;
}
static void setPending(double *a, const std::vector<double> &A) {
  for (size_t i = 0; i < pend.size(); i++) if (pend[i].first == a) { pend[i].second = A; return; }
  pend.push_back(std::make_pair(a, A));
}
static void clearPending(double *a) {
  for (size_t i = 0; i < pend.size(); i++) if (pend[i].first == a) { pend.erase(pend.begin() + i); return; }
}
int __wrap_dgetrf_(int *m, int *n, double *a, int *lda, int *ipiv, int *info) {
  clearPending(a);
  if (!sy(a, (long)*lda * *n * 8)) return __real_dgetrf_(m, n, a, lda, ipiv, info);
  std::vector<double> A(*n * *n);
  for (int i = 0; i < *n; i++)
    for (int j = 0; j < *n; j++) A[i * *n + j] = a[j * *lda + i];
  setPending(a, A);
  for (int i = 0; i < *n; i++) ipiv[i] = i + 1;
  *info = 0;
  return 0;
}
int __wrap_dgetrs_(char *trans, int *n, int *nrhs, double *a, int *lda, int *ipiv, double *b, int *ldb, int *info) {
  std::vector<double> *P = pending(a);
  bool T = (*trans == 'T' || *trans == 't' || *trans == 'C' || *trans == 'c');
  if (P) {
    std::vector<double> A = *P;
    if (T) for (int i = 0; i < *n; i++) for (int j = 0; j < *n; j++) A[i * *n + j] = (*P)[j * *n + i];
    *info = solveSym(*n, *nrhs, A, b, *ldb);
    return 0;
  }
  if (!sy(b, (long)*ldb * *nrhs * 8)) return __real_dgetrs_(trans, n, nrhs, a, lda, ipiv, b, ldb, info);
  std::vector<double> I(*n * *n, 0.0);
  for (int i = 0; i < *n; i++) I[i * *n + i] = 1;
  __real_dgetrs_(trans, n, n, a, lda, ipiv, &I[0], n, info);
  for (int k = 0; k < *nrhs; k++) {
    std::vector<double> x(*n);
    for (int i = 0; i < *n; i++) {
      double s = 0;
      for (int j = 0; j < *n; j++) if (I[j * *n + i] != 0) s += I[j * *n + i] * b[k * *ldb + j];
      x[i] = s;
    }
    for (int i = 0; i < *n; i++) b[k * *ldb + i] = x[i];
  }
  return 0;
}
int __wrap_dgbtrf_(int *m, int *n, int *kl, int *ku, double *ab, int *ldab, int *ipiv, int *info) {
  clearPending(ab);
  if (!sy(ab, (long)*ldab * *n * 8) && !rec()) return __real_dgbtrf_(m, n, kl, ku, ab, ldab, ipiv, info);
  std::vector<double> A(*n * *n, 0.0);
  for (int j = 0; j < *n; j++)
    for (int i = 0; i < *n; i++)
      if (i - j <= *kl && j - i <= *ku) A[i * *n + j] = ab[j * *ldab + *kl + *ku + i - j];
  if (rec()) {
    factored(ab) = A;
    return __real_dgbtrf_(m, n, kl, ku, ab, ldab, ipiv, info);
  }
  setPending(ab, A);
  for (int i = 0; i < *n; i++) ipiv[i] = i + 1;
  *info = 0;
  return 0;
}
int __wrap_dgbtrs_(char *trans, int *n, int *kl, int *ku, int *nrhs, double *ab, int *ldab, int *ipiv, double *b, int *ldb, int *info) {
  std::vector<double> *P = pending(ab);
  bool T = (*trans == 'T' || *trans == 't' || *trans == 'C' || *trans == 'c');
  if (P) {
    std::vector<double> A = *P;
    if (T) for (int i = 0; i < *n; i++) for (int j = 0; j < *n; j++) A[i * *n + j] = (*P)[j * *n + i];
    *info = solveSym(*n, *nrhs, A, b, *ldb);
    return 0;
  }
  if (rec()) {
    LapackCall c = dense(*n, *nrhs, b, *ldb);
    if (!T) c.A = factored(ab);
    int q = __real_dgbtrs_(trans, n, kl, ku, nrhs, ab, ldab, ipiv, b, ldb, info);
    solved(c, b, *ldb);
    return q;
  }
  if (!sy(b, (long)*ldb * *nrhs * 8)) return __real_dgbtrs_(trans, n, kl, ku, nrhs, ab, ldab, ipiv, b, ldb, info);
  std::vector<double> I(*n * *n, 0.0);
  for (int i = 0; i < *n; i++) I[i * *n + i] = 1;
  __real_dgbtrs_(trans, n, kl, ku, n, ab, ldab, ipiv, &I[0], n, info);
  for (int k = 0; k < *nrhs; k++) {
    std::vector<double> x(*n);
    for (int i = 0; i < *n; i++) {
      double s = 0;
      for (int j = 0; j < *n; j++) if (I[j * *n + i] != 0) s += I[j * *n + i] * b[k * *ldb + j];
      x[i] = s;
    }
    for (int i = 0; i < *n; i++) b[k * *ldb + i] = x[i];
  }
  return 0;
}
int __wrap_dgetri_(int *n, double *a, int *lda, int *ipiv, double *w, int *lw, int *info) {
  nosym("dgetri_ on symbolic data", a, (long)*lda * *n * 8);
  return __real_dgetri_(n, a, lda, ipiv, w, lw, info);
}
int __wrap_dgemm_(char *ta, char *tb, int *m, int *n, int *k, double *al, double *a, int *lda, double *b, int *ldb, double *be, double *c, int *ldc) {
  bool TA = *ta == 'T' || *ta == 't', TB = *tb == 'T' || *tb == 't';
  if (!sy(al, 8) && !sy(be, 8) && !sy(a, (long)*lda * (TA ? *m : *k) * 8) && !sy(b, (long)*ldb * (TB ? *k : *n) * 8) && !sy(c, (long)*ldc * *n * 8))
    return __real_dgemm_(ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc);
  for (int j = 0; j < *n; j++)
    for (int i = 0; i < *m; i++) {
      double s = 0;
      for (int l = 0; l < *k; l++) s += (TA ? a[i * *lda + l] : a[l * *lda + i]) * (TB ? b[l * *ldb + j] : b[j * *ldb + l]);
      c[j * *ldc + i] = *be == 0.0 ? *al * s : *al * s + *be * c[j * *ldc + i];
    }
  return 0;
}
int __wrap_dgeqrf_(int *m, int *n, double *a, int *lda, double *tau, double *work, int *lwork, int *info) {
  nosym("dgeqrf_ on symbolic data", a, (long)*lda * *n * 8);
  return __real_dgeqrf_(m, n, a, lda, tau, work, lwork, info);
}
int __wrap_dorgqr_(int *m, int *n, int *k, double *a, int *lda, double *tau, double *work, int *lwork, int *info) {
  nosym("dorgqr_ on symbolic data", a, (long)*lda * *n * 8);
  return __real_dorgqr_(m, n, k, a, lda, tau, work, lwork, info);
}
int __wrap_dgesvd_(char *ju, char *jv, int *m, int *n, double *a, int *lda, double *s, double *u, int *ldu, double *vt, int *ldvt, double *w, int *lw, int *info) {
  nosym("dgesvd_ on symbolic data", a, (long)*lda * *n * 8);
  return __real_dgesvd_(ju, jv, m, n, a, lda, s, u, ldu, vt, ldvt, w, lw, info);
}
int __wrap_dtrtri_(char *uplo, char *diag, int *n, double *a, int *lda, int *info) {
  nosym("dtrtri_ on symbolic data", a, (long)*lda * *n * 8);
  return __real_dtrtri_(uplo, diag, n, a, lda, info);
}
int __wrap_dtpsv_(char *uplo, char *trans, char *diag, int *n, double *ap, double *x, int *incx) {
  long np = (long)*n * (*n + 1) / 2 * 8;
  if (!sy(ap, np) && !sy(x, (long)*n * *incx * 8)) return __real_dtpsv_(uplo, trans, diag, n, ap, x, incx);
  bool U = *uplo == 'U' || *uplo == 'u', T = *trans == 'T' || *trans == 't', D = *diag == 'U' || *diag == 'u';
  int N = *n, s = *incx;
  // element (i,j) of the packed triangle (column major)
#define EL(i, j) (U ? ap[(i) + (j) * ((j) + 1) / 2] : ap[(i) + (j) * (2 * N - (j) - 1) / 2])
#define AT(i, j) (T ? EL(j, i) : EL(i, j))
  bool upper = U != T;
  for (int q = 0; q < N; q++) {
    int i = upper ? N - 1 - q : q;
    double v = x[i * s];
    if (upper) for (int j = i + 1; j < N; j++) v -= AT(i, j) * x[j * s];
    else for (int j = 0; j < i; j++) v -= AT(i, j) * x[j * s];
    x[i * s] = D ? v : v / AT(i, i);
  }
  return 0;
}
// BLAS-1 by definition
int __wrap_daxpy_(int *n, double *a, double *x, int *ix, double *y, int *iy) {
  for (int i = 0; i < *n; i++) y[i * *iy] += *a * x[i * *ix];
  return 0;
}
int __wrap_dcopy_(int *n, double *x, int *ix, double *y, int *iy) {
  for (int i = 0; i < *n; i++) y[i * *iy] = x[i * *ix];
  return 0;
}
double __wrap_ddot_(int *n, double *x, int *ix, double *y, int *iy) {
  double s = 0;
  for (int i = 0; i < *n; i++) s += x[i * *ix] * y[i * *iy];
  return s;
}
int __wrap_dscal_(int *n, double *a, double *x, int *ix) {
  for (int i = 0; i < *n; i++) x[i * *ix] *= *a;
  return 0;
}
int __wrap_dswap_(int *n, double *x, int *ix, double *y, int *iy) {
  for (int i = 0; i < *n; i++) { double t = x[i * *ix]; x[i * *ix] = y[i * *iy]; y[i * *iy] = t; }
  return 0;
}
double __wrap_dnrm2_(int *n, double *x, int *ix) {
  double s = 0;
  for (int i = 0; i < *n; i++) s += x[i * *ix] * x[i * *ix];
  return sqrt(s);
}
}
