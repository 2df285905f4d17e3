#include "nc_stub.h"
#include <netcdf.h>
#include <cstring>
std::vector<NcMemFile> nc_files;
static NcMemFile *F(int id) { return id >= 0 && id < (int)nc_files.size() && nc_files[id].open ? &nc_files[id] : 0; }
static NcMemVar *V(int id, int v) { NcMemFile *f = F(id); return f && v >= 0 && v < (int)f->var.size() ? &f->var[v] : 0; }
extern "C" {
int nc__create(const char *path, int, size_t, size_t *, int *id) {
  NcMemFile f; f.path = path; f.open = true; nc_files.push_back(f); *id = nc_files.size() - 1; return NC_NOERR;
}
int nc__open(const char *, int, size_t *, int *) { return NC_EPERM; }
int nc_set_fill(int id, int m, int *o) { if (o) *o = m; return F(id) ? NC_NOERR : NC_EBADID; }
int nc_redef(int id) { return F(id) ? NC_NOERR : NC_EBADID; }
int nc_enddef(int id) { return F(id) ? NC_NOERR : NC_EBADID; }
int nc_sync(int id) { return F(id) ? NC_NOERR : NC_EBADID; }
int nc_abort(int id) { return F(id) ? NC_NOERR : NC_EBADID; }
int nc_close(int id) { NcMemFile *f = F(id); if (!f) return NC_EBADID; f->open = false; return NC_NOERR; }
int nc_inq_ndims(int id, int *n) { NcMemFile *f = F(id); if (!f) return NC_EBADID; *n = f->dimName.size(); return NC_NOERR; }
int nc_inq_nvars(int id, int *n) { NcMemFile *f = F(id); if (!f) return NC_EBADID; *n = f->var.size(); return NC_NOERR; }
int nc_inq_natts(int id, int *n) { NcMemFile *f = F(id); if (!f) return NC_EBADID; *n = f->att.size(); return NC_NOERR; }
int nc_def_dim(int id, const char *name, size_t len, int *d) {
  NcMemFile *f = F(id); if (!f) return NC_EBADID;
  for (auto &n : f->dimName) if (n == name) return NC_ENAMEINUSE;
  f->dimName.push_back(name); f->dimLen.push_back(len); f->unlimited.push_back(len == NC_UNLIMITED); if (d) *d = f->dimName.size() - 1; return NC_NOERR;
}
int nc_inq_unlimdim(int id, int *d) { NcMemFile *f = F(id); if (!f) return NC_EBADID; *d = -1; for (size_t q = 0; q < f->unlimited.size(); q++) if (f->unlimited[q]) *d = q; return NC_NOERR; }
int nc_inq_dimlen(int id, int d, size_t *n) { NcMemFile *f = F(id); if (!f || d < 0 || d >= (int)f->dimLen.size()) return NC_EBADDIM; *n = f->dimLen[d]; return NC_NOERR; }
int nc_inq_dimname(int id, int d, char *n) { NcMemFile *f = F(id); if (!f || d < 0 || d >= (int)f->dimLen.size()) return NC_EBADDIM; strcpy(n, f->dimName[d].c_str()); return NC_NOERR; }
int nc_inq_dimid(int id, const char *n, int *d) { NcMemFile *f = F(id); if (!f) return NC_EBADID; for (size_t q = 0; q < f->dimName.size(); q++) if (f->dimName[q] == n) { *d = q; return NC_NOERR; } return NC_EBADDIM; }
int nc_def_var(int id, const char *name, nc_type t, int nd, const int *d, int *v) {
  NcMemFile *f = F(id); if (!f) return NC_EBADID;
  for (auto &x : f->var) if (x.name == name) return NC_ENAMEINUSE;
  NcMemVar x; x.name = name; x.type = t; x.dims.assign(d, d + nd); f->var.push_back(x); if (v) *v = f->var.size() - 1; return NC_NOERR;
}
int nc_inq_varid(int id, const char *n, int *v) { NcMemFile *f = F(id); if (!f) return NC_EBADID; for (size_t q = 0; q < f->var.size(); q++) if (f->var[q].name == n) { *v = q; return NC_NOERR; } return NC_ENOTVAR; }
int nc_inq_varname(int id, int v, char *n) { NcMemVar *x = V(id, v); if (!x) return NC_ENOTVAR; strcpy(n, x->name.c_str()); return NC_NOERR; }
int nc_inq_vartype(int id, int v, nc_type *t) { NcMemVar *x = V(id, v); if (!x) return NC_ENOTVAR; *t = x->type; return NC_NOERR; }
int nc_inq_varndims(int id, int v, int *n) { NcMemVar *x = V(id, v); if (!x) return NC_ENOTVAR; *n = x->dims.size(); return NC_NOERR; }
int nc_inq_varnatts(int id, int v, int *n) { NcMemVar *x = V(id, v); if (!x) return NC_ENOTVAR; *n = x->att.size(); return NC_NOERR; }
int nc_inq_var(int id, int v, char *n, nc_type *t, int *nd, int *d, int *na) {
  NcMemVar *x = V(id, v); if (!x) return NC_ENOTVAR;
  if (n) strcpy(n, x->name.c_str()); if (t) *t = x->type; if (nd) *nd = x->dims.size(); if (d) for (size_t q = 0; q < x->dims.size(); q++) d[q] = x->dims[q]; if (na) *na = x->att.size();
  return NC_NOERR;
}
int nc_put_att_text(int id, int v, const char *n, size_t len, const char *s) {
  NcMemFile *f = F(id); if (!f) return NC_EBADID;
  if (v == NC_GLOBAL) f->att[n] = std::string(s, len); else if (V(id, v)) V(id, v)->att[n] = std::string(s, len); else return NC_ENOTVAR;
  return NC_NOERR;
}
int nc_put_att_double(int id, int v, const char *n, nc_type, size_t, const double *) { return nc_put_att_text(id, v, n, 0, ""); }
int nc_put_att_int(int id, int v, const char *n, nc_type, size_t, const int *) { return nc_put_att_text(id, v, n, 0, ""); }
int nc_put_att_float(int id, int v, const char *n, nc_type, size_t, const float *) { return nc_put_att_text(id, v, n, 0, ""); }
int nc_put_vara_double(int id, int v, const size_t *start, const size_t *count, const double *p) {
  NcMemFile *f = F(id); NcMemVar *x = V(id, v); if (!x) return NC_ENOTVAR;
  size_t nd = x->dims.size(), n = 1;
  for (size_t q = 0; q < nd; q++) {
    n *= count[q];
    if (f->unlimited[x->dims[q]]) { if (start[q] + count[q] > f->dimLen[x->dims[q]]) f->dimLen[x->dims[q]] = start[q] + count[q]; }
    else if (start[q] + count[q] > f->dimLen[x->dims[q]]) return NC_EEDGE;
  }
  for (size_t m = 0; m < n; m++) {
    std::vector<size_t> ix(nd); size_t w = m;
    for (size_t q = nd; q-- > 0;) { ix[q] = start[q] + w % count[q]; w /= count[q]; }
    x->val[ix] = p[m]; x->writes[ix]++;
  }
  return NC_NOERR;
}
}
