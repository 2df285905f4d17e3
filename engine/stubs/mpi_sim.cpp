#include "mpi.h"
#include "mpi_sim.h"
#include "tsym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <ucontext.h>
#include <vector>
struct Msg { int src, dst, tag; long bytes; char *data; long seq; const void *lazy; int req; };
struct Req { bool active, recv, done; int src, tag, owner; void *buf; long cap; int rsrc, rtag; long rbytes; };
struct Rank { ucontext_t c; bool done, started; int rank; };
static int g_rank = 0, g_size = 1;
static std::vector<Msg> g_msgs;
static std::vector<Req> g_reqs;
static std::vector<Rank *> g_ranks;
static ucontext_t g_sched;
static bool g_run = false, g_lazy = false;
static int g_choices = 0;
static long g_seq = 0, g_progress = 0;
long mpi_sim_messages = 0, mpi_sim_decisions = 0;
bool mpi_sim_deadlock = false;
static void (*g_body)(int, void *);
static void *g_arg;
static std::exception_ptr g_exc;
// further symbolic decisions from here on
void mpi_sim_more(int n) { g_choices += n; g_lazy = n > 0 && g_size > 1 && ts_choice("rendezvous", 0, 1) == 1; }
int mpi_sim_rank() { return g_rank; }
int mpi_sim_size() { return g_size; }
void mpi_sim_as(int r, int n) { g_rank = r; g_size = n; }
static int esize(MPI_Datatype t) { return t == MPI_INT || t == MPI_FLOAT ? 4 : t == MPI_LONG || t == MPI_DOUBLE ? 8 : 1; }
static void trampoline() {
  Rank *r = g_ranks[g_rank];
  try { g_body(r->rank, g_arg); }
  catch (...) { if (!g_exc) g_exc = std::current_exception(); }
  r->done = true;
  g_progress++;
  for (;;) swapcontext(&r->c, &g_sched);
}
static void yield_() {
  if (!g_run) { throw std::runtime_error("MPI simulation: blocking call outside of a run"); }
  Rank *r = g_ranks[g_rank];
  swapcontext(&r->c, &g_sched);
}
// one symbolic decision among n alternatives
static int choose(const char *n, int k) {
  if (g_choices <= 0 || k <= 1) return 0;
  g_choices--;
  mpi_sim_decisions++;
  return (int)ts_choice(n, 0, k - 1);
}
void mpi_sim_run(int n, void (*body)(int, void *), void *arg, int nChoices) {
  g_size = n; g_rank = 0; g_msgs.clear(); g_reqs.clear(); mpi_sim_deadlock = false; mpi_sim_messages = 0; mpi_sim_decisions = 0;
  g_choices = nChoices; g_exc = nullptr;
  // either every message is buffered by the library, or data leaves the send buffer only when received
  g_lazy = nChoices > 0 && n > 1 && ts_choice("rendezvous", 0, 1) == 1;
  if (n == 1) { body(0, arg); return; }
  g_body = body; g_arg = arg; g_run = true;
  for (auto *r : g_ranks) delete r;
  g_ranks.clear();
  for (int i = 0; i < n; i++) {
    Rank *r = new Rank; r->done = false; r->started = false; r->rank = i;
    getcontext(&r->c);
    size_t ss = 64UL << 20;
    r->c.uc_stack.ss_sp = mmap(0, ss, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    r->c.uc_stack.ss_size = ss; r->c.uc_link = &g_sched;
    makecontext(&r->c, trampoline, 0);
    g_ranks.push_back(r);
  }
  int next = 0; long lastp = -1; int idle = 0;
  for (;;) {
    std::vector<int> live;
    for (int i = 0; i < n; i++) if (!g_ranks[(next + i) % n]->done) live.push_back((next + i) % n);
    if (live.empty()) break;
    if (g_exc) break;
    int k = choose("sched", (int)live.size());
    g_rank = live[k];
    next = (g_rank + 1) % n;
    swapcontext(&g_sched, &g_ranks[g_rank]->c);
    if (g_progress == lastp) { if (++idle > 8 * n) { mpi_sim_deadlock = true; break; } }
    else { lastp = g_progress; idle = 0; }
  }
  g_run = false; g_rank = 0;
  for (auto *r : g_ranks) munmap(r->c.uc_stack.ss_sp, r->c.uc_stack.ss_size);
  if (g_exc) { std::exception_ptr e = g_exc; g_exc = nullptr; std::rethrow_exception(e); }
  if (mpi_sim_deadlock) ts_check(false, "MPI: ranks deadlock");
}
static bool tryMatch(Req &q) {
  if (q.done) return true;
  if (!q.recv) return false;
  // non-overtaking per (source, tag): the oldest matching message of each source is eligible
  std::vector<int> cand; std::vector<int> srcs;
  for (size_t i = 0; i < g_msgs.size(); i++) {
    Msg &m = g_msgs[i];
    if (m.dst != q.owner) continue;
    if (q.src != MPI_ANY_SOURCE && m.src != q.src) continue;
    if (q.tag == MPI_ANY_TAG ? m.tag >= (1 << 30) : m.tag != q.tag) continue;
    bool older = false;
    for (int s : srcs) if (s == m.src) older = true;
    if (older) continue;
    cand.push_back((int)i); srcs.push_back(m.src);
  }
  if (cand.empty()) return false;
  int c = choose("match", (int)cand.size());
  Msg m = g_msgs[cand[c]];
  if (m.bytes > q.cap) { throw std::runtime_error("MPI simulation: message truncated"); }
  memcpy(q.buf, m.lazy ? m.lazy : m.data, m.bytes);
  if (m.lazy) g_reqs[m.req].done = true; else free(m.data);
  g_msgs.erase(g_msgs.begin() + cand[c]);
  q.done = true; q.rsrc = m.src; q.rtag = m.tag; q.rbytes = m.bytes;
  g_progress++;
  return true;
}
static void setst(MPI_Status *s, const Req &q) { if (s) { s->MPI_SOURCE = q.rsrc; s->MPI_TAG = q.rtag; s->MPI_ERROR = 0; s->count = (int)q.rbytes; } }
template <class T> static void comb(T *a, const T *b, int n, MPI_Op op) {
  for (int i = 0; i < n; i++) { if (op == MPI_SUM) a[i] += b[i]; else if (op == MPI_MAX) { if (b[i] > a[i]) a[i] = b[i]; } else { if (b[i] < a[i]) a[i] = b[i]; } }
}
extern "C" {
int MPI_Init(int *, char ***) { return 0; }
int MPI_Finalize(void) { return 0; }
int MPI_Initialized(int *f) { *f = 1; return 0; }
int MPI_Abort(MPI_Comm, int) { throw std::runtime_error("MPI_Abort"); }
int MPI_Comm_rank(MPI_Comm, int *r) { *r = g_rank; return 0; }
int MPI_Comm_size(MPI_Comm, int *n) { *n = g_size; return 0; }
int MPI_Isend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm, MPI_Request *rq) {
  if (dst < 0 || dst >= g_size) throw std::runtime_error("MPI simulation: bad destination rank");
  Msg m; m.src = g_rank; m.dst = dst; m.tag = tag; m.bytes = (long)n * esize(t); m.seq = g_seq++;
  m.lazy = g_lazy && dst != g_rank ? b : 0; m.req = (int)g_reqs.size(); m.data = 0;
  if (!m.lazy) { m.data = (char *)malloc(m.bytes ? m.bytes : 1); memcpy(m.data, b, m.bytes); }
  g_msgs.push_back(m);
  mpi_sim_messages++; g_progress++;
  Req q; q.active = true; q.recv = false; q.done = !m.lazy; q.src = g_rank; q.tag = tag; q.owner = g_rank; q.buf = 0; q.cap = 0; q.rsrc = g_rank; q.rtag = tag; q.rbytes = m.bytes;
  g_reqs.push_back(q);
  *rq = (int)g_reqs.size() - 1;
  return 0;
}
int MPI_Irecv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm, MPI_Request *rq) {
  Req q; q.active = true; q.recv = true; q.done = false; q.src = src; q.tag = tag; q.owner = g_rank; q.buf = b; q.cap = (long)n * esize(t);
  q.rsrc = q.rtag = 0; q.rbytes = 0;
  g_reqs.push_back(q);
  *rq = (int)g_reqs.size() - 1;
  g_progress++;
  return 0;
}
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { MPI_Request r; MPI_Isend(b, n, t, d, tag, c, &r); return MPI_Wait(&r, 0); }
static void progressOrdered(int ix) {
  // receives posted earlier for the same (source, tag) match first
  for (int i = 0; i < ix; i++) {
    Req &o = g_reqs[i];
    if (o.recv && o.active && !o.done && o.owner == g_reqs[ix].owner && o.src == g_reqs[ix].src && o.tag == g_reqs[ix].tag) tryMatch(o);
  }
}
int MPI_Test(MPI_Request *rq, int *flag, MPI_Status *st) {
  if (*rq == MPI_REQUEST_NULL) { *flag = 1; return 0; }
  progressOrdered(*rq);
  Req &q = g_reqs[*rq];
  // a message in flight may or may not have arrived yet
  bool can = q.done;
  if (!can && q.recv) for (auto &m : g_msgs) if (m.dst == q.owner && (q.src == MPI_ANY_SOURCE || m.src == q.src) && (q.tag == MPI_ANY_TAG ? m.tag < (1 << 30) : m.tag == q.tag)) can = true;
  if (can && !q.done && choose("arrived", 2) == 1) can = false;
  if (can && tryMatch(q)) { *flag = 1; setst(st, q); q.active = false; *rq = MPI_REQUEST_NULL; g_progress++; return 0; }
  *flag = 0;
  if (g_run) yield_();
  return 0;
}
int MPI_Wait(MPI_Request *rq, MPI_Status *st) {
  if (*rq == MPI_REQUEST_NULL) return 0;
  for (;;) {
    progressOrdered(*rq);
    Req &q = g_reqs[*rq];
    if (tryMatch(q)) { setst(st, q); q.active = false; *rq = MPI_REQUEST_NULL; g_progress++; return 0; }
    yield_();
  }
}
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *s) {
  for (int i = 0; i < n; i++) MPI_Wait(&r[i], s ? &s[i] : 0);
  return 0;
}
int MPI_Recv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status *st) {
  MPI_Request r; MPI_Irecv(b, n, t, src, tag, c, &r);
  return MPI_Wait(&r, st);
}
static const int COLL = 1 << 30;
int MPI_Barrier(MPI_Comm c) {
  if (g_size == 1) return 0;
  char x = 0;
  int me = g_rank, n = g_size;
  if (me == 0) { for (int i = 1; i < n; i++) MPI_Recv(&x, 1, MPI_BYTE, i, COLL, c, 0); for (int i = 1; i < n; i++) MPI_Send(&x, 1, MPI_BYTE, i, COLL + 1, c); }
  else { MPI_Send(&x, 1, MPI_BYTE, 0, COLL, c); MPI_Recv(&x, 1, MPI_BYTE, 0, COLL + 1, c, 0); }
  return 0;
}
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) {
  if (g_size == 1) return 0;
  if (g_rank == root) { for (int i = 0; i < g_size; i++) if (i != root) MPI_Send(b, n, t, i, COLL + 2, c); }
  else MPI_Recv(b, n, t, root, COLL + 2, c, 0);
  return 0;
}
static void combine(void *a, const void *b, int n, MPI_Datatype t, MPI_Op op) {
  if (t == MPI_DOUBLE) comb((double *)a, (const double *)b, n, op);
  else if (t == MPI_LONG) comb((long *)a, (const long *)b, n, op);
  else if (t == MPI_INT) comb((int *)a, (const int *)b, n, op);
  else throw std::runtime_error("MPI simulation: reduction type");
}
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
  long bytes = (long)n * esize(t);
  if (g_rank == root) {
    if (s != MPI_IN_PLACE && s != r) memcpy(r, s, bytes);
    char *tmp = (char *)malloc(bytes ? bytes : 1);
    for (int i = 0; i < g_size; i++) if (i != root) { MPI_Recv(tmp, n, t, i, COLL + 3, c, 0); combine(r, tmp, n, t, op); }
    free(tmp);
  } else MPI_Send(s, n, t, root, COLL + 3, c);
  return 0;
}
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  long bytes = (long)n * esize(t);
  if (s != MPI_IN_PLACE && s != r) memcpy(r, s, bytes);
  if (g_size == 1) return 0;
  if (g_rank == 0) MPI_Reduce(MPI_IN_PLACE, r, n, t, op, 0, c);
  else MPI_Reduce(r, 0, n, t, op, 0, c);
  return MPI_Bcast(r, n, t, 0, c);
}
}
