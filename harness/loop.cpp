// The run loop of the model: steps, output times, file rotation, periodic processes.
#include <sstream>
#include <iostream>
#include <set>
#define private public
#define protected public
#include "Model.h"
#undef private
#undef protected
#include "common.h"
#include "OutputManager.h"
#include "WorkflowProcess.h"
#include "TimestepScheme.h"

static const int CUM[13] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365};
// microseconds since year 0, calendar without leap years
static long usec(const Time &t) {
  int m = ts_fix(t.GetMonth()) - 1;
  ts_check(m >= 0 && m < 12, "month of a model time is valid");
  return (((long)t.GetYear() * 365 + CUM[m] + t.GetDay() - 1) * 86400 + t.GetSecond()) * 1000000 + t.GetMicroSecond();
}
// a span of n units, in the field of that unit
static std::string un;
static Time delta(long n, long us = 0) {
  const int d = un == "d" ? (int)n : 0, s = un == "h" ? (int)n * 3600 : un == "m" ? (int)n * 60 : un == "s" ? (int)n : 0;
  const int u = un == "us" ? (int)n : un == "ms" ? (int)n * 1000 : 0;
  return Time(0, 0, d, s, u + us, Time::CalendarNoLeap, Time::TypeDelta);
}
struct StepRec { bool first, last; long at; double dt; };
struct Scheme : public TimestepScheme {
  std::vector<StepRec> rec;
  int inits;
  Scheme(Model &m) : TimestepScheme(m), inits(0) {}
  int GetComponentDataInstances() const { return 2; }
  int GetTracerDataInstances() const { return 2; }
  void Initialize() { inits++; }
  void Step(bool f, bool l, const Time &t, double d) {
    StepRec r = {f, l, usec(t), d};
    rec.push_back(r);
    ts_check(usec(m_model.GetCurrentTime()) == r.at, "a step is taken at the current model time");
  }
};
struct Out : public OutputManager {
  struct Rec { long at; int file, idx, steps; Time t; };
  std::vector<Rec> rec;
  std::vector<std::pair<std::string, long> > opened;
  std::vector<int> closedAfter;
  Scheme *sch; int bad; bool open; long now;
  Out(Grid &g, const Time &f, int per, Scheme *s) : OutputManager(g, f, "", "out", per), sch(s), bad(0), open(false), now(0) {}
  void restart() { m_fFromRestartFile = true; }
  bool OpenFile(const std::string &n) {
    if (open) bad++;
    open = true;
    opened.push_back(std::make_pair(n, (long)rec.size()));
    return true;
  }
  void CloseFile() { if (!open) bad++; open = false; closedAfter.push_back(rec.size()); }
  void Output(const Time &t) {
    if (!open) bad++;
    Rec r = {usec(t), m_ixOutputFile, m_ixOutputTime, (int)sch->rec.size(), t};
    rec.push_back(r);
  }
};
struct Proc : public WorkflowProcess {
  std::vector<std::pair<long, int> > rec;
  Scheme *sch; size_t *outs; int late;
  Out *o;
  Proc(Model &m, const Time &f, Scheme *s, Out *o_) : WorkflowProcess(m, f), sch(s), outs(0), late(0), o(o_) {}
  void Perform(const Time &t) {
    rec.push_back(std::make_pair(usec(t), (int)sch->rec.size()));
    // the output of a time is written after the processes of that time
    if (!o->rec.empty() && o->rec.back().steps == (int)sch->rec.size()) late++;
    WorkflowProcess::Perform(t);
  }
};

static void body(int argc, char **argv) {
  c = parseCfg(argc, argv, r);
  c.cart = true; c.sw = true; c.v = "none"; c.ztop = 1; c.order = 2; c.nx = 2; c.ny = 1;
  // unit of all time spans in microseconds
  un = arg(r, "unit", "s");
  const long U = un == "us" ? 1 : un == "h" ? 3600000000L : un == "m" ? 60000000L : un == "ms" ? 1000 : un == "d" ? 86400000000L : 1000000;
  const int N = atoi(arg(r, "steps", "4").c_str());
  const long DT = atol(arg(r, "dt", "7200").c_str());
  const long FR = atol(arg(r, "freq", "20000").c_str());
  const int per = atoi(arg(r, "per", "-1").c_str());
  const bool zero = has(r, "zero"), resume = has(r, "resume"), process = has(r, "process");
  const int sd = atoi(arg(r, "date", "0").c_str());

  World w(c);
  // start dates next to a month end, a year end, a day start
  static const int D[4][5] = {{2003, 1, 27, 82800, 0}, {1999, 11, 30, 86399, 999990}, {2000, 6, 14, 0, 0}, {2004, 1, 27, 43200, 500000}};
  Time start(D[sd][0], D[sd][1], D[sd][2], D[sd][3], D[sd][4], Time::CalendarNoLeap, Time::TypeFixed);
  const long s0 = usec(start);

  w.setup();
  const long dt = ts_int("dt", 1, DT), e = ts_int("end", has(r, "nothing") ? 0 : 1, has(r, "nothing") ? 0 : N * DT);
  const long f = zero ? 0 : ts_int("freq", 1, FR);
  ts_assume(e <= N * dt);
  const long dtu = dt * U, eu = e * U, fu = f * U;

  w.model->SetTestCase(w.test);
  Scheme *sch = new Scheme(*w.model);
  // recorders in place of the scheme and the output
  w.model->m_pTimestepScheme = 0;
  w.model->m_vecOutMan.clear();
  w.model->SetTimestepScheme(sch);
  w.model->SetStartTime(start);
  Time end = start;
  end += delta(e);
  ts_check(usec(end) == s0 + eu, "the end time is the start time plus the length of the run");
  w.model->SetEndTime(end);
  w.model->SetDeltaT(delta(dt));
  Out *out = new Out(*w.grid, delta(f), per, sch);
  Out *ends = new Out(*w.grid, delta(0), per, sch);   // only the first and last state
  if (resume) { out->restart(); ends->restart(); }
  w.model->AttachOutputManager(out);
  w.model->AttachOutputManager(ends);
  Proc *pr = new Proc(*w.model, delta(f), sch, out);
  if (process) w.model->AttachWorkflowProcess(pr);
  w.model->Go();

  ts_check(sch->inits == 1, "the time scheme is initialised once");
  if (has(r, "nothing")) {
    ts_check(sch->rec.empty() && out->rec.empty() && ends->rec.empty() && pr->rec.empty(), "a run that ends at its start takes no step and writes nothing");
    ts_reach("loop");
    return;
  }
  // steps
  const int n = sch->rec.size();
  ts_check(n >= 1 && n <= N, "number of steps");
  if (n < 1 || n > N) return;
  ts_check((int)((n - 1) * dtu < eu) & (int)(eu <= n * dtu), "the number of steps covers the run and no more");
  for (int i = 0; i < n; i++) {
    ts_check(sch->rec[i].at == s0 + i * dtu, "step starts where the previous one ended");
    ts_check(sch->rec[i].first == (i == 0), "only the first step is marked first");
    ts_check(sch->rec[i].last == (i == n - 1), "only the last step is marked last");
    const long len = i == n - 1 ? eu - i * dtu : dtu;
    ts_near(sch->rec[i].dt * 1e6, (double)len, 0.01 + 1e-9 * N * DT * U, "length of the step in seconds");
  }
  ts_check(usec(w.model->GetCurrentTime()) == s0 + eu, "the run ends exactly at the end time");

  // at which steps something of this frequency falls due: a multiple of the frequency in (t_{i-1}, t_i]
  std::vector<int> due(n + 1, 0);
  for (int i = 1; i <= n && !zero; i++) {
    const long a = (i - 1) * dtu, b = i == n ? eu : i * dtu;
    int d = 0;
    for (int j = 1; j <= n; j++) d |= (int)(a < j * fu) & (int)(j * fu <= b);
    // shorter than the step: at every step
    due[i] = ts_fix(d | ((int)(i < n) & (int)(fu <= dtu)));
  }
  for (int q = 0; q < 2; q++) {
    Out *o = q ? ends : out;
    std::vector<int> want;
    if (!resume) want.push_back(0);
    for (int i = 1; i < n; i++) if (!q && due[i]) want.push_back(i);
    want.push_back(n);
    ts_check(o->rec.size() == want.size(), q ? "without a frequency only the first and last state are written" : "number of outputs");
    if (o->rec.size() != want.size()) continue;
    for (size_t m = 0; m < want.size(); m++) {
      ts_check(o->rec[m].steps == want[m], "state written after the right step");
      ts_check(o->rec[m].at == s0 + (want[m] == n ? eu : want[m] * dtu), "output labelled with the time of the state");
      ts_check(o->rec[m].file == (per > 0 ? (int)m / per : 0) && o->rec[m].idx == (per > 0 ? (int)m % per : (int)m), "file and index of an output");
    }
    ts_check(o->bad == 0, "files are opened before and closed after use");
    const size_t files = per > 0 ? (want.size() + per - 1) / per : 1;
    ts_check(o->opened.size() == files, "number of files");
    for (size_t k = 0; k < o->opened.size(); k++) {
      ts_check(o->opened[k].second == (long)k * (per > 0 ? per : 0), "a new file starts after the given number of outputs");
      const std::string &nm = o->opened[k].first;
      ts_check(nm.size() == 21 && nm.compare(0, 5, "/out.") == 0, "name of a file");
      if (nm.size() != 21 || o->opened[k].second >= (long)o->rec.size()) continue;
      const Time &t = o->rec[o->opened[k].second].t;
      char b[40];
      sprintf(b, "%04i-%02i-%02i-%05i", t.GetYear(), t.GetMonth(), t.GetDay(), t.GetSecond());
      int same = 1;
      for (int z = 0; z < 16; z++) same &= (int)(nm[5 + z] == b[z]);
      ts_check(same, "a file is named after the time of its first output");
    }
  }
  if (process) {
    std::vector<int> want;
    for (int i = 1; i <= n; i++) {
      if (i < n) { if (due[i]) want.push_back(i); }
      // on the last step a process runs only if its time has come
      else {
        int k = 0;   // performed so far
        for (int z = 1; z < n; z++) k += due[z];
        if (!zero && ts_fix((k + 1) * fu <= eu)) want.push_back(i);
      }
    }
    ts_check(pr->rec.size() == want.size(), "number of times the process ran");
    if (pr->rec.size() == want.size())
      for (size_t m = 0; m < want.size(); m++) {
        ts_check(pr->rec[m].second == want[m], "process runs after the right step");
        ts_check(pr->rec[m].first == s0 + (want[m] == n ? eu : want[m] * dtu), "process given the time of the state");
      }
    ts_check(pr->late == 0, "a process runs before the output of the same time");
  }
  ts_reach("loop");
}
