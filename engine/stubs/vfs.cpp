// In-memory files of the instrumented build.
#include "vfs.h"
#include <cstdlib>
#include <cstring>
#include <vector>
struct TsFile { char name[512]; char *d; long n, cap; };
static std::vector<TsFile *> g_files;
static TsFile *find(const char *name) {
  for (size_t i = 0; i < g_files.size(); i++) if (!strcmp(g_files[i]->name, name)) return g_files[i];
  return 0;
}
extern "C" {
void *ts_vfs_open(const char *name, int create, int trunc) {
  TsFile *f = find(name);
  if (!f) {
    if (!create) return 0;
    f = new TsFile;
    strncpy(f->name, name, 511); f->name[511] = 0;
    f->d = 0; f->n = f->cap = 0;
    g_files.push_back(f);
  }
  if (trunc) f->n = 0;
  return f;
}
long ts_vfs_size(void *f) { return ((TsFile *)f)->n; }
void ts_vfs_put(void *v, long pos, const char *p, long n) {
  TsFile *f = (TsFile *)v;
  if (pos + n > f->cap) {
    long c = (pos + n) * 3 / 2 + 4096;
    char *d = (char *)malloc(c);
    memset(d, 0, c);
    if (f->n) memcpy(d, f->d, f->n);
    free(f->d);
    f->d = d; f->cap = c;
  }
  memcpy(f->d + pos, p, n);
  if (pos + n > f->n) f->n = pos + n;
}
void ts_vfs_get(void *v, long pos, char *p, long n) { if (n > 0) memcpy(p, ((TsFile *)v)->d + pos, n); }
void ts_vfs_truncate(const char *name, long n) { TsFile *f = find(name); if (f && n < f->n) f->n = n; }
}
