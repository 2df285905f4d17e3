// Instrumented models of the libc string/format functions used by the code
// under test (compiled with the tsym pass, -fno-builtin).
#include <cstdarg>
#include <cstddef>
extern "C" {
void __ts_saveargs();
long __ts_api_argint(int k, long v);
double __ts_api_argreal(int k, double v);
int snprintf(char *, size_t, const char *, ...);
double strtod(const char *, char **);
void *malloc(size_t);
int __ts_fmtptr(char *, int, void *);
int __ts_fmtreal(char *, int, const char *, double);

size_t __tsl_strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int __tsl_strcmp(const char *a, const char *b) {
  for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
}
int __tsl_strncmp(const char *a, const char *b, size_t n) {
  for (; n; n--, a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
  return 0;
}
int __tsl_memcmp(const void *p, const void *q, size_t n) {
  const unsigned char *a = (const unsigned char *)p, *b = (const unsigned char *)q;
  for (; n; n--, a++, b++) if (*a != *b) return *a < *b ? -1 : 1;
  return 0;
}
int __tsl_bcmp(const void *p, const void *q, size_t n) { return __tsl_memcmp(p, q, n); }
char *__tsl_strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *__tsl_strncpy(char *d, const char *s, size_t n) {
  size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *__tsl_strcat(char *d, const char *s) { __tsl_strcpy(d + __tsl_strlen(d), s); return d; }
char *__tsl_strdup(const char *s) { size_t n = __tsl_strlen(s) + 1; char *r = (char *)malloc(n); for (size_t i = 0; i < n; i++) r[i] = s[i]; return r; }
char *__tsl_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
void *__tsl_memchr(const void *p, int c, size_t n) {
  const unsigned char *a = (const unsigned char *)p;
  for (; n; n--, a++) if (*a == (unsigned char)c) return (void *)a;
  return 0;
}
char *__tsl_strstr(const char *h, const char *n) {
  size_t m = __tsl_strlen(n);
  for (;; h++) { if (!__tsl_strncmp(h, n, m)) return (char *)h; if (!*h) return 0; }
}
int __tsl_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int __tsl_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int __tsl_isdigit(int c) { return c >= '0' && c <= '9'; }
int __tsl_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
long __tsl_strtol(const char *s, char **end, int base) {
  const char *p = s;
  while (__tsl_isspace((unsigned char)*p)) p++;
  bool neg = false;
  if (*p == '+' || *p == '-') { neg = *p == '-'; p++; }
  long v = 0; bool any = false;
  if (base == 0) base = 10;
  while (*p >= '0' && *p <= '9') { v = v * base + (*p - '0'); p++; any = true; }
  if (end) *end = (char *)(any ? p : s);
  return neg ? -v : v;
}
long long __tsl_strtoll(const char *s, char **e, int b) { return __tsl_strtol(s, e, b); }
unsigned long __tsl_strtoul(const char *s, char **e, int b) { return __tsl_strtol(s, e, b); }
int __tsl_atoi(const char *s) { return (int)__tsl_strtol(s, 0, 10); }
long __tsl_atol(const char *s) { return __tsl_strtol(s, 0, 10); }
double __tsl_strtod(const char *s, char **end) {
  const char *p = s;
  while (__tsl_isspace((unsigned char)*p)) p++;
  bool neg = false;
  if (*p == '+' || *p == '-') { neg = *p == '-'; p++; }
  double v = 0; bool any = false;
  while (*p >= '0' && *p <= '9') { v = v * 10.0 + (double)(*p - '0'); p++; any = true; }
  if (*p == '.') {
    p++;
    double sc = 1;
    while (*p >= '0' && *p <= '9') { v = v * 10.0 + (double)(*p - '0'); sc = sc * 10.0; p++; any = true; }
    v = v / sc;
  }
  if (any && (*p == 'e' || *p == 'E')) {
    const char *q = p + 1; bool en = false;
    if (*q == '+' || *q == '-') { en = *q == '-'; q++; }
    if (*q >= '0' && *q <= '9') {
      int e = 0;
      while (*q >= '0' && *q <= '9') { e = e * 10 + (*q - '0'); q++; }
      p = q;
      for (int k = 0; k < e; k++) v = en ? v / 10.0 : v * 10.0;
    }
  }
  if (end) *end = (char *)(any ? p : s);
  return neg ? -v : v;
}
double __tsl_atof(const char *s) { return __tsl_strtod(s, 0); }

static size_t emitStr(char *o, size_t cap, size_t n, const char *s, long width, long prec) {
  size_t len = 0; while ((prec < 0 || (long)len < prec) && s[len]) len++;
  for (long k = len; k < width; k++) { if (n + 1 < cap) o[n] = ' '; n++; }
  for (size_t k = 0; k < len; k++) { if (n + 1 < cap) o[n] = s[k]; n++; }
  return n;
}
static size_t emitInt(char *o, size_t cap, size_t n, long v, int width, bool zero) {
  bool neg = v < 0;
  if (neg) v = -v;
  int digits = 1; long p = 1;
  // zero-padded and fitting: no need to know the number of significant digits
  if (zero && !neg && width > 0 && width < 18) {
    long q = 1;
    for (int k = 1; k < width; k++) q *= 10;
    if (v < q * 10) { digits = width; p = q; }
  }
  while (digits < 19 && v >= p * 10) { p *= 10; digits++; }
  int total = digits + (neg ? 1 : 0);
  if (!zero) for (int k = total; k < width; k++) { if (n + 1 < cap) o[n] = ' '; n++; }
  if (neg) { if (n + 1 < cap) o[n] = '-'; n++; }
  if (zero) for (int k = total; k < width; k++) { if (n + 1 < cap) o[n] = '0'; n++; }
  for (int k = 0; k < digits; k++) { if (n + 1 < cap) o[n] = (char)('0' + (v / p) % 10); n++; p /= 10; }
  return n;
}
static int core(char *o, size_t cap, const char *f, va_list ap, int slot) {
  size_t n = 0;
  for (; *f; f++) {
    if (*f != '%') { if (n + 1 < cap) o[n] = *f; n++; continue; }
    const char *st = f++;
    bool zero = false, left = false;
    for (;; f++) { if (*f == '0') zero = true; else if (*f == '-') left = true; else if (*f == '+' || *f == ' ' || *f == '#') ; else break; }
    int width = 0, prec = -1, lng = 0;
    if (*f == '*') { width = va_arg(ap, int); slot++; f++; }
    while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); slot++; f++; } while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    while (*f == 'l' || *f == 'z' || *f == 'h') { if (*f != 'h') lng++; f++; }
    (void)left;
    switch (*f) {
      case 'd': case 'i': case 'u': {
        long v;
        if (lng) v = va_arg(ap, long); else if (*f == 'u') v = va_arg(ap, unsigned); else v = va_arg(ap, int);
        if (slot >= 0 && slot < 64) v = __ts_api_argint(slot, v);
        slot++;
        n = emitInt(o, cap, n, v, width, zero);
        break;
      }
      case 's': { const char *s = va_arg(ap, const char *); slot++; n = emitStr(o, cap, n, s ? s : "(null)", width, prec); break; }
      case 'c': { int c = va_arg(ap, int); if (slot >= 0 && slot < 64) c = (int)__ts_api_argint(slot, c); slot++; if (n + 1 < cap) o[n] = (char)c; n++; break; }
      case '%': if (n + 1 < cap) o[n] = '%'; n++; break;
      case 'p': { void *p = va_arg(ap, void *); slot++; char t[40]; __ts_fmtptr(t, 40, p); n = emitStr(o, cap, n, t, width, -1); break; }
      case 'x': case 'X': { long v = lng ? va_arg(ap, long) : va_arg(ap, unsigned); slot++; n = emitInt(o, cap, n, v, width, zero); break; }
      default: { // floating: concrete digits
        double d = va_arg(ap, double); slot++;
        char fm[32]; int k = 0; for (const char *q = st; q <= f && k < 30; q++) fm[k++] = *q; fm[k] = 0;
        char t[512];
        __ts_fmtreal(t, 512, fm, d);
        n = emitStr(o, cap, n, t, 0, -1);
      }
    }
  }
  if (cap) o[n < cap ? n : cap - 1] = 0;
  return (int)n;
}
int __tsl_sprintf(char *o, const char *f, ...) {
  __ts_saveargs();
  va_list ap; va_start(ap, f);
  int r = core(o, (size_t)1 << 30, f, ap, 2);
  va_end(ap);
  return r;
}
int __tsl_snprintf(char *o, size_t cap, const char *f, ...) {
  __ts_saveargs();
  va_list ap; va_start(ap, f);
  int r = core(o, cap, f, ap, 3);
  va_end(ap);
  return r;
}
int __tsl_vsnprintf(char *o, size_t cap, const char *f, va_list ap) { return core(o, cap, f, ap, -1000); }
}
