// S03: the same calls alone and from several threads at once, on shared inputs.
// Under the thread sanitizer every conflicting pair of accesses that nothing
// orders is a report; in the plain build results and the ledger are judged.
#include "props.h"
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>

namespace vf {
enum { MAXT = 8 };
struct Job {
  Call c;
  Exp e;
  Live l;
  Status st;
  bool has, owner;
  TV v;
  Job() : st(STATUS_SUCCESS), has(false), owner(true) {}
};
struct Plan {
  std::vector<Job> *jobs;
  std::vector<int> order;
  u64 seed;
  int me;
  u64 calls, bytes;
  char err[900];
};
// Relaxed accesses only: the harness must not order what the library leaves
// unordered.
static u32 go, trace_n;
static u8 trace[4096];
static __thread u64 t_rng;
static __thread int t_me = -1;
static u64 next(u64 &x) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; }
static void hook() {              // at every memory request and release
  if (t_me < 0) return;
  u32 k = __atomic_fetch_add(&trace_n, 1, __ATOMIC_RELAXED);
  if (k < sizeof trace) __atomic_store_n(&trace[k], (u8)t_me, __ATOMIC_RELAXED);
  u64 r = next(t_rng);
  if (r % 8 == 0) sched_yield();
  else if (r % 8 < 3) for (volatile int i = 0; i < (int)(r >> 8 & 1023); i++) {}
  else if (r % 512 == 3) { struct timespec ts = {0, (long)(r >> 10 & 0xffff)}; nanosleep(&ts, NULL); }
}
static bool same_as_alone(const Job &j, Status st, const Tensor out, char *m, size_t n) {
  if (st != j.st) { snprintf(m, n, "status %s, alone %s", status_name(st), status_name(j.st)); return false; }
  if (st != STATUS_SUCCESS) return true;
  TV v;
  if (!out || out == kSentinel || !read_tensor(out, v)) { snprintf(m, n, "no readable result"); return false; }
  if (v.dt != j.v.dt || v.dims != j.v.dims || v.dev.type != j.v.dev.type || v.dev.id != j.v.dev.id) { snprintf(m, n, "another shape, type or device than alone"); return false; }
  if (j.c.op == K_CREATE && !j.c.give_data) return true;
  if (j.c.op == K_DROPOUT) return compare(j.e, j.c, out, m, n);
  int sz = kSize[v.dt];
  for (size_t i = 0; i < v.data.size(); i += sz)
    if (memcmp(&v.data[i], &j.v.data[i], sz)) {
      u64 x = 0, y = 0;
      memcpy(&x, &v.data[i], sz);
      memcpy(&y, &j.v.data[i], sz);
      snprintf(m, n, "element %llu has bits %llx, alone %llx", (unsigned long long)(i / sz), (unsigned long long)x, (unsigned long long)y);
      return false;
    }
  return true;
}
static void *worker(void *arg) {
  Plan &p = *(Plan *)arg;
  t_rng = p.seed | 1;
  t_me = p.me;
  __atomic_fetch_add(&go, 1, __ATOMIC_RELAXED);
  for (u32 spin = 0; __atomic_load_n(&go, __ATOMIC_RELAXED) < 1000; spin++) if (spin > 2000) sched_yield();
  for (int k : p.order) {
    Job &j = (*p.jobs)[k];
    Tensor out = kSentinel;
    Live mine = j.l;              // handles and arrays are shared
    Status st = invoke(j.c, mine, &out);
    p.calls++;
    char m[600];
    if (!same_as_alone(j, st, out, m, sizeof m)) {
      char d[200];
      t_me = -1;
      describe(j.c, d, sizeof d);
      snprintf(p.err, sizeof p.err, "%s: %s", d, m);
      return NULL;
    }
    if (st == STATUS_SUCCESS) { p.bytes += (u64)aitisa_tensor_size(out); aitisa_destroy(&out); }
  }
  t_me = -1;
  return NULL;
}
void s03(Src &s) {
  Gen g(s);
  int n_jobs = (int)s.range(1, 6), n_threads = (int)s.range(2, s.chance(20) ? MAXT : 4);
  std::vector<Job> jobs;
  u64 sig = 5, h0 = mem::live_hash();
  int focus = s.chance(50) ? (int)s.below(NOPS) : -1;  // many threads in one operator
  bool derived = false;
  for (int tries = 0; (int)jobs.size() < n_jobs && tries < 40; tries++) {
    Job j;
    int op = focus >= 0 && s.chance(80) ? focus : (int)s.below(NOPS);
    g.budget = s.chance(6) ? 6000 : s.chance(50) ? 300 : 30;
    if (!jobs.empty() && s.chance(50)) {  // another operator on an input of an earlier call
      static const int un[] = {K_RELU, K_DUP, K_SOFTMAX, K_DROPOUT, K_SQRT, K_SIGMOID, K_TANH, K_CAST, K_ADD, K_MUL};
      const Job &o = jobs[s.below(jobs.size())];
      if (o.c.t.empty() || o.l.t.empty()) continue;
      j.c = Call();
      j.c.op = un[s.below(10)];
      j.c.t.push_back(o.c.t[0]);
      j.c.nargs = j.c.op == K_ADD || j.c.op == K_MUL ? 2 : 1;
      j.c.dt = g.any_dt();
      j.c.axis = -1;
      j.c.d = 0.5;
      if (j.c.op == K_CAST && is_float(j.c.t[0].dt)) j.c.dt = F64;
      if ((j.c.op == K_ADD || j.c.op == K_MUL) && !is_float(j.c.t[0].dt)) continue;
      classify(j.c, j.e);
      if (j.e.cls == INVALID || cost(j.c, j.e) > 2e5L) continue;
      j.l.t.push_back(o.l.t[0]);
      j.owner = false;
      derived = true;
    } else {
      if (s.chance(15)) g.invalid(op, j.c); else g.valid(op, j.c);
      classify(j.c, j.e);
      if (cost(j.c, j.e) > 2e5L) continue;
      if (!build(j.c, j.l)) { fail_call(j.c, "build", "an operand could not be created"); return; }
    }
    if (j.e.cls == VALID) expect_values(j.c, j.e);
    jobs.push_back(j);
  }
  if (jobs.empty()) return;
  mem::yield_hook = NULL;
  bool ok = true;
  for (Job &j : jobs) {  // alone
    Tensor out = kSentinel;
    j.st = invoke(j.c, j.l, &out);
    j.has = j.st == STATUS_SUCCESS;
    if (j.has) {
      if (!out || out == kSentinel || !read_tensor(out, j.v)) { fail_call(j.c, "no-result", "success without a readable result"); return; }
      aitisa_destroy(&out);
    }
    sig = mix(sig ^ hash_call(j.c));
  }
  Plan plan[MAXT];
  pthread_t th[MAXT];
  go = 0;
  trace_n = 0;
  mem::yield_hook = hook;
  for (int t = 0; t < n_threads; t++) {
    plan[t].jobs = &jobs;
    plan[t].me = t;
    plan[t].seed = s.rnd();
    plan[t].calls = plan[t].bytes = 0;
    plan[t].err[0] = 0;
    int len = (int)s.range(1, 6), same = s.chance(40) ? (int)s.below(jobs.size()) : -1;
    for (int k = 0; k < len; k++) plan[t].order.push_back(same >= 0 ? same : (int)s.below(jobs.size()));
  }
  for (int t = 0; t < n_threads; t++) if (pthread_create(&th[t], NULL, worker, &plan[t])) { printf("VF-HARNESS no thread\n"); _exit(2); }
  while (__atomic_load_n(&go, __ATOMIC_RELAXED) < (u32)n_threads) sched_yield();
  __atomic_store_n(&go, 1000, __ATOMIC_RELAXED);
  for (int t = 0; t < n_threads; t++) pthread_join(th[t], NULL);
  mem::yield_hook = NULL;
  u64 order = 99;
  u32 used = trace_n < sizeof trace ? trace_n : (u32)sizeof trace, switches = 0;
  for (u32 i = 0; i < used; i++) { order = mix(order ^ trace[i]); if (i && trace[i] != trace[i - 1]) switches++; }
  note_sig(mix(sig ^ order), switches > 0);   // distinct calls and interleavings
  count("switches between threads seen at memory requests", switches);
  for (int t = 0; t < n_threads; t++) {
    count("calls made concurrently", plan[t].calls);
    count("elements of concurrent results", plan[t].bytes);
    if (plan[t].err[0] && ok) { fail("concurrent/differs", "%d threads: %s", n_threads, plan[t].err); ok = false; }
  }
  count("threads started", (u64)n_threads);
  if (derived) count("cases with one tensor read by several operators");
  char m[500];
  for (size_t k = 0; k < jobs.size() && ok; k++)
    if (!inputs_intact(jobs[k].c, jobs[k].l, m, sizeof m)) { fail_call(jobs[k].c, "input", m); ok = false; }
  if (g_case % 911 == 7) {
    char d[300], b[700];
    describe(jobs[0].c, d, sizeof d);
    snprintf(b, sizeof b, "%d threads, %d calls prepared, %u switches seen; first: %s", n_threads, (int)jobs.size(), switches, d);
    sample(b);
  }
  for (size_t k = 0; k < jobs.size(); k++) {
    if (!jobs[k].owner) jobs[k].l.t.clear();
    release(jobs[k].c, jobs[k].l);
  }
  if (ok && mem::live_hash() != h0) fail("concurrent/leak", "blocks obtained during concurrent calls were not released");
}
}  // namespace vf
