// Writing a restart file and starting again from it.
#include <string>
#include <vector>
#include <map>
#include <iostream>
#include <fstream>
#include <sstream>
#include <functional>
#include <cmath>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <sys/stat.h>
#define private public
#define protected public
#include "common.h"
#include "vfs.h"
#include "lapack_stub.h"
#undef private
#undef protected

static std::string g_dir;
static std::string scratch() {
  if (!ts_native()) return "/restart";
  if (g_dir.empty()) { char b[] = "/tmp/ts_restart_XXXXXX"; g_dir = mkdtemp(b); }
  return g_dir;
}
static void cleanup() {
  if (ts_native() && !g_dir.empty()) {
    std::string c = "rm -rf -- " + g_dir;
    if (g_dir.compare(0, 16, "/tmp/ts_restart_") == 0 && system(c.c_str())) {}
  }
}
static std::vector<double> g_s, g_t;
static int g_np, g_steps, g_at;
struct Snap { std::vector<double> v; std::vector<int> key; };
// everything a continuing run depends on
static void snap(World &w, std::map<std::vector<int>, double> &S, bool geo) {
  for (int n = 0; n < w.patches(); n++) {
    GridPatch *p = w.patch(n);
    const PatchBox &b = p->GetPatchBox();
    for (int i = b.GetAInteriorBegin(); i < b.GetAInteriorEnd(); i++) for (int j = b.GetBInteriorBegin(); j < b.GetBInteriorEnd(); j++) {
      std::vector<int> key(6);
      key[0] = p->GetPatchIndex(); key[1] = i; key[2] = j;
      for (int v = 0; v < w.comps(); v++) for (int k = 0; k < w.nk(v); k++) {
        key[3] = v; key[4] = k; key[5] = 0;
        S[key] = w.state(p, 0, v, i, j, k);
        if (c.ref) { key[5] = 1; S[key] = p->GetReferenceState(w.loc(v))[v][i][j][k]; }
      }
      for (int t = 0; t < c.ntr; t++) for (int k = 0; k < w.grid->GetRElements(); k++) { key[3] = 20 + t; key[4] = k; key[5] = 0; S[key] = p->GetDataTracers(0)[t][i][j][k]; }
      if (!geo) continue;
      key[5] = 2; key[4] = 0;
      key[3] = 0; S[key] = p->GetTopography()[i][j];
      key[3] = 1; S[key] = p->GetTopographyDeriv()[i][j][0];
      key[3] = 2; S[key] = p->GetTopographyDeriv()[i][j][1];
      key[3] = 3; S[key] = p->GetLongitude()[i][j];
      key[3] = 4; S[key] = p->GetLatitude()[i][j];
      key[3] = 5; S[key] = p->GetCoriolisF()[i][j];
      key[3] = 6; S[key] = p->GetJacobian2D()[i][j];
      for (int k = 0; k < w.grid->GetRElements(); k++) {
        key[4] = k;
        key[3] = 7; S[key] = p->GetJacobian()[i][j][k];
        key[3] = 8; S[key] = p->GetZLevels()[i][j][k];
        key[3] = 9; S[key] = p->GetElementAreaNode()[i][j][k];
        if (c.rayleigh) { key[3] = 10; S[key] = p->GetRayleighStrength(DataLocation_Node)[i][j][k]; }
      }
    }
  }
}
static void same(const std::map<std::vector<int>, double> &A, const std::map<std::vector<int>, double> &B, const char *what) {
  ts_check(A.size() == B.size() && A.size() > 0, "the restarted run has the same nodes");
  std::map<std::vector<int>, double>::const_iterator a, b;
  for (a = A.begin(); a != A.end(); ++a) {
    b = B.find(a->first);
    if (b == B.end()) { ts_check(false, "the restarted run has the same nodes"); continue; }
    ts_near(a->second, b->second, 0, what);
  }
}
static Time at(int n) { Time t; for (int q = 0; q < n; q++) t += c.dt; return t; }
static std::map<std::vector<int>, double> A0, A1, B0, B1;   // at the restart, at the end
static std::string g_file;
struct Probe : public WorkflowProcess {
  World &w; std::map<std::vector<int>, double> &S; Time t;
  Probe(World &w_, std::map<std::vector<int>, double> &S_, Time t_) : WorkflowProcess(*w_.model, Time(0, 0, 0, 0, 0, Time::CalendarNoLeap, Time::TypeDelta)), w(w_), S(S_), t(t_) {}
  bool IsReady(const Time &x) { return true; }
  void Perform(const Time &x) { if (x == t) snap(w, S, true); }
};
static void makeModel(World &w) {
  if (w.v.strRestartFile != "" || !g_np) w.setup(); else w.setupPatches(g_np);
  for (size_t i = 0; i < w.model->m_vecOutMan.size(); i++) delete w.model->m_vecOutMan[i];
  w.model->m_vecOutMan.clear();
  w.test->s = g_s;
  w.test->topo = atof(arg(r, "topo", "0").c_str());
}
static World *g_w[32], *g_x[32];
static int g_ranks = 1, g_ch = 0;
static bool g_more;
#include <mpi.h>
// only the initial state is written; the schedule of the writing is symbolic
static void runW(int rank, void *) {
  World &w = *g_w[rank];
  makeModel(w);
  w.model->SetTestCase(w.test);
  double sc[5] = {c.cart ? 1. : 3e5, c.cart ? 1. : 3e5, c.sw ? 10. : 1., 0.1, 0.01};
  addNoise(w, 0, g_s, sc, 0.05);
  w.model->SetEndTime(w.model->GetStartTime());
  w.model->Go();
  snap(w, A0, true);
  OutputManagerComposite out(*w.grid, c.dt, scratch(), "run");
  MPI_Barrier(MPI_COMM_WORLD);
  if (!g_more) { g_more = true; mpi_sim_more(g_ch); }
  out.PerformOutput(at(0));
  ts_check(!out.IsFileOpen(), "the restart file is closed after it is written");
}
static void runR(int rank, void *) {
  World &w = *g_x[rank];
  makeModel(w);
  snap(w, B0, false);
  w.model->SetTestCase(w.test);
  w.model->SetEndTime(w.model->GetStartTime());
  w.model->Go();
  snap(w, B1, true);
}
static void writing() {
  g_s = syms(atoi(arg(r, "ns", "2").c_str()));
  g_np = atoi(arg(r, "np", "0").c_str());
  g_ranks = atoi(arg(r, "ranks", "1").c_str());
  g_ch = atoi(arg(r, "ch", "0").c_str());
  int ranks2 = atoi(arg(r, "ranks2", "1").c_str());
  scratch();
  for (int q = 0; q < g_ranks; q++) g_w[q] = new World(c);
  if (g_ranks > 1) mpi_sim_run(g_ranks, runW, 0, 0); else runW(0, 0);
  mpi_sim_as(0, 1);
  for (int q = 0; q < ranks2; q++) {
    g_x[q] = new World(c);
    g_x[q]->v.strRestartFile = scratch() + "/run." + at(0).ToShortString() + ".restart.dat";
  }
  if (ranks2 > 1) mpi_sim_run(ranks2, runR, 0, 0); else runR(0, 0);
  mpi_sim_as(0, 1);
  std::map<std::vector<int>, double> Z;
  for (std::map<std::vector<int>, double>::iterator it = A0.begin(); it != A0.end(); ++it) if (it->first[5] < 2) Z[it->first] = it->second;
  same(Z, B0, "the fields read from the restart file are the fields written");
  same(A0, B1, "the restarted model has the same fields and geometry");
  ts_reach("writing");
}
// uninterrupted run writing a restart file at step g_at
static void runA(int rank, void *) {
  World &w = *g_w[rank];
  makeModel(w);
  Time delta = c.dt;
  Time freq(0, 0, 0, g_at * 20, 0, Time::CalendarNoLeap, Time::TypeDelta);
  w.model->AttachOutputManager(new OutputManagerComposite(*w.grid, freq, scratch(), "run"));
  w.model->SetTestCase(w.test);
  if (has(r, "noise")) {
    double sc[5] = {c.cart ? 1. : 3e5, c.cart ? 1. : 3e5, c.sw ? 10. : 1., 0.1, 0.01};
    if (g_s.size()) addNoise(w, 0, g_s, sc, 0.005);
    for (int t = 0; t < c.ntr; t++)
      w.each(DataLocation_Node, [&](GridPatch *p, int i, int j, int k) {
        for (size_t m = 0; m < g_t.size(); m++) p->GetDataTracers(0)[t][i][j][k] += 0.01 * g_t[m] * noise(m, p->GetPatchIndex(), 20 + t, i, j, k);
      });
  }
  w.model->AttachWorkflowProcess(new Probe(w, A0, at(g_at)));
  w.model->SetEndTime(at(g_steps));
  w.model->Go();
  snap(w, A1, true);
}
static void runB(int rank, void *) {
  World &w = *g_x[rank];
  makeModel(w);
  ts_check(w.model->GetStartTime() == at(g_at) && w.model->GetCurrentTime() == at(g_at), "the restarted run begins at the time of the restart file");
  ts_check(w.grid->GetPatchCount() > 0, "patches read");
  snap(w, B0, false);
  w.model->SetTestCase(w.test);
  w.model->SetEndTime(at(g_steps));
  w.model->Go();
  ts_check(w.model->GetCurrentTime() == at(g_steps), "the restarted run ends at the same time");
  snap(w, B1, true);
}
static void restart() {
  g_s = syms(atoi(arg(r, "ns", "1").c_str()));
  if (c.ntr) for (int q = 0; q < atoi(arg(r, "ts", "2").c_str()); q++) { char b[8]; sprintf(b, "q%d", q); g_t.push_back(ts_real(b, -1, 1)); }
  g_np = atoi(arg(r, "np", "0").c_str());
  g_at = atoi(arg(r, "at", "1").c_str());
  g_steps = atoi(arg(r, "steps", "2").c_str());
  g_ranks = atoi(arg(r, "ranks", "1").c_str());
  int ranks2 = atoi(arg(r, "ranks2", "1").c_str()), ch = atoi(arg(r, "ch", "0").c_str());
  c.dt = Time(0, 0, 0, 20, 0, Time::CalendarNoLeap, Time::TypeDelta);
  scratch();
  for (int q = 0; q < g_ranks; q++) g_w[q] = new World(c);
  if (g_ranks > 1) mpi_sim_run(g_ranks, runA, 0, ch); else runA(0, 0);
  g_file = scratch() + "/run." + at(g_at).ToShortString() + ".restart.dat";
  if (has(r, "bad")) return;
  mpi_sim_as(0, 1);
  for (int q = 0; q < ranks2; q++) {
    g_x[q] = new World(c);
    g_x[q]->v.strRestartFile = g_file;
  }
  if (ranks2 > 1) mpi_sim_run(ranks2, runB, 0, ch); else runB(0, 0);
  mpi_sim_as(0, 1);
  std::map<std::vector<int>, double> Z;
  for (std::map<std::vector<int>, double>::iterator it = A0.begin(); it != A0.end(); ++it) if (it->first[5] < 2) Z[it->first] = it->second;
  same(Z, B0, "the fields read from the restart file are the fields written");
  same(A1, B1, "the restarted run continues exactly like the uninterrupted one");
  double d = 0;
  for (std::map<std::vector<int>, double>::iterator it = A1.begin(); it != A1.end(); ++it) if (it->first[3] == massVar() && it->first[5] == 0 && A0.count(it->first)) d += (it->second - A0[it->first]) * (it->first[1] + 2 * it->first[2] + it->first[4]);
  __ts_api_can_differ(d, 0, 1e-12, "the flow evolves between the restart and the end");
  ts_reach("restart");
}
// a file that is not a complete restart file is refused
static void bad() {
  restart();
  long size;
  int what = (int)ts_choice("kind", 0, 2);     // 0: other check bits, 1: shortened, 2: missing
  long cut = 0;
  std::string f = g_file;
  if (ts_native()) { struct stat st; stat(f.c_str(), &st); size = st.st_size; } else size = ts_vfs_size(ts_vfs_open(f.c_str(), 0, 0));
  if (what == 0) {
    int bits = (int)ts_int("bits", -2147483647, 2147483647);
    ts_assume(bits != 171456);
    std::fstream o(f.c_str(), std::ios::in | std::ios::out | std::ios::binary);
    o.write((const char *)&bits, sizeof(int));
    o.close();
  } else if (what == 1) {
    cut = ts_int("cut", 1, size);
    long n = size - cut;
    if (ts_native()) { if (truncate(f.c_str(), n)) {} } else ts_vfs_truncate(f.c_str(), n);
  } else f += ".none";
  World w(c);
  w.v.strRestartFile = f;
  bool thrown = false;
  try { w.setup(); } catch (Exception &e) { thrown = true; }
  ts_check(thrown, what == 0 ? "a file without the check value is refused" : what == 1 ? "an incomplete restart file is refused" : "a missing restart file is refused");
  ts_reach("bad");
}
static void body(int argc, char **argv) {
  mpi_sim_as(0, 1);
  lapack_mode = 2;
  lapack_xmag = 1e-3;
  c = parseCfg(argc, argv, r);
  if (has(r, "bad")) bad(); else if (has(r, "writing")) writing(); else if (has(r, "restart")) restart();
  cleanup();
}
