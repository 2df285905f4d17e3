// File streams of the instrumented build: files live in memory, contents keep their symbolic
// shadows, and paths explored in parallel do not share them.
#ifndef TS_VFS_H
#define TS_VFS_H
#ifdef __cplusplus
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
extern "C" {
void *ts_vfs_open(const char *name, int create, int trunc);
long ts_vfs_size(void *f);
void ts_vfs_put(void *f, long pos, const char *p, long n);
void ts_vfs_get(void *f, long pos, char *p, long n);
void ts_vfs_truncate(const char *name, long n);
}
namespace std {
class ts_fstream {
  void *f; long g, p, gc; int st; ios_base::openmode m;
public:
  typedef char char_type;
  ts_fstream() : f(0), g(0), p(0), gc(0), st(0), m(ios_base::in) {}
  ~ts_fstream() { f = 0; }
  void open_(const char *n, ios_base::openmode mode) {
    if (f) { st |= 4; return; }
    m = mode; g = p = gc = 0; st = 0;
    bool out = mode & (ios_base::out | ios_base::app), in = mode & ios_base::in;
    f = ts_vfs_open(n, out && (!in || (mode & ios_base::trunc) || (mode & ios_base::app)), (mode & ios_base::trunc) || (out && !in && !(mode & ios_base::app)));
    if (!f) { st |= 4; return; }
    if (mode & (ios_base::ate | ios_base::app)) p = g = ts_vfs_size(f);
  }
  bool is_open() const { return f != 0; }
  void close() { if (!f) st |= 4; f = 0; }
  bool fail() const { return (st & 5) != 0; }
  bool bad() const { return (st & 1) != 0; }
  bool eof() const { return (st & 2) != 0; }
  bool good() const { return st == 0; }
  void clear() { st = 0; }
  bool operator!() const { return fail(); }
  explicit operator bool() const { return !fail(); }
  ts_fstream &write(const char *b, streamsize n) {
    if (!f) st |= 1;
    if (!st && n > 0) { if (m & ios_base::app) p = ts_vfs_size(f); ts_vfs_put(f, p, b, n); p += n; g = p; }
    return *this;
  }
  ts_fstream &put(char c) { return write(&c, 1); }
  ts_fstream &flush() { return *this; }
  ts_fstream &read(char *b, streamsize n) {
    gc = 0;
    if (!f) st |= 4;
    if (st) { st |= 4; return *this; }
    long a = ts_vfs_size(f) - g;
    if (a < n) {   // (what a short read delivers is left out: the length may be symbolic)
      st |= 6;
      gc = a < 0 ? 0 : a; g += gc; p = g;
      return *this;
    }
    ts_vfs_get(f, g, b, n);
    gc = n; g += n; p = g;
    return *this;
  }
  int get() { char c; read(&c, 1); return gc == 1 ? (unsigned char)c : -1; }
  int peek() { if (st || !f) return -1; if (g >= ts_vfs_size(f)) { st |= 2; return -1; } char c; ts_vfs_get(f, g, &c, 1); return (unsigned char)c; }
  ts_fstream &ignore(streamsize n = 1) { char c; for (long i = 0; i < n; i++) read(&c, 1); return *this; }
  streamsize gcount() const { return gc; }
  streampos tellg() { return fail() || !f ? streampos(-1) : streampos(g); }
  streampos tellp() { return fail() || !f ? streampos(-1) : streampos(p); }
  ts_fstream &seekg(streampos x) { st &= ~2; if (!fail()) { long q = (long)(streamoff)x; if (q < 0) st |= 4; else g = p = q; } return *this; }
  ts_fstream &seekp(streampos x) { if (!fail()) { long q = (long)(streamoff)x; if (q < 0) st |= 4; else g = p = q; } return *this; }
  ts_fstream &seekg(streamoff o, ios_base::seekdir d) { return seekg(streampos(o + (d == ios_base::beg ? 0 : d == ios_base::cur ? g : f ? ts_vfs_size(f) : 0))); }
  ts_fstream &seekp(streamoff o, ios_base::seekdir d) { return seekp(streampos(o + (d == ios_base::beg ? 0 : d == ios_base::cur ? p : f ? ts_vfs_size(f) : 0))); }
  void open(const char *n, ios_base::openmode mode = ios_base::in | ios_base::out) { open_(n, mode); }
  void open(const std::string &n, ios_base::openmode mode = ios_base::in | ios_base::out) { open_(n.c_str(), mode); }
  ts_fstream(const char *n, ios_base::openmode mode = ios_base::in | ios_base::out) : f(0), g(0), p(0), gc(0), st(0) { open_(n, mode); }
  ts_fstream(const std::string &n, ios_base::openmode mode = ios_base::in | ios_base::out) : f(0), g(0), p(0), gc(0), st(0) { open_(n.c_str(), mode); }
};
class ts_ofstream : public ts_fstream {
public:
  ts_ofstream() {}
  ts_ofstream(const char *n, ios_base::openmode mode = ios_base::out) { open_(n, mode | ios_base::out); }
  ts_ofstream(const std::string &n, ios_base::openmode mode = ios_base::out) { open_(n.c_str(), mode | ios_base::out); }
  void open(const char *n, ios_base::openmode mode = ios_base::out) { open_(n, mode | ios_base::out); }
  void open(const std::string &n, ios_base::openmode mode = ios_base::out) { open_(n.c_str(), mode | ios_base::out); }
};
class ts_ifstream : public ts_fstream {
public:
  ts_ifstream() {}
  ts_ifstream(const char *n, ios_base::openmode mode = ios_base::in) { open_(n, mode | ios_base::in); }
  ts_ifstream(const std::string &n, ios_base::openmode mode = ios_base::in) { open_(n.c_str(), mode | ios_base::in); }
  void open(const char *n, ios_base::openmode mode = ios_base::in) { open_(n, mode | ios_base::in); }
  void open(const std::string &n, ios_base::openmode mode = ios_base::in) { open_(n.c_str(), mode | ios_base::in); }
};
inline ts_fstream &getline(ts_fstream &s, std::string &l, char d = '\n') {
  l.clear();
  if (!s) return s;
  bool any = false;
  for (;;) {
    int c = s.peek();
    if (c < 0) break;
    s.get(); any = true;
    if ((char)c == d) return s;
    l.push_back((char)c);
  }
  if (!any) { char x; s.read(&x, 1); }
  return s;
}
}
#define fstream ts_fstream
#define ofstream ts_ofstream
#define ifstream ts_ifstream
#endif
#endif
