// Monitors of the cross-cutting guarantees: memory, failures, purity.
#include "props.h"
#include <set>

namespace vf {
// A random call of any operation; false if it would take too long.
static bool any_call(Src &s, Gen &g, Call &c, Exp &e, int invalid_percent, ld max_cost) {
  int op = (int)s.below(NOPS);
  if (s.chance(invalid_percent)) g.invalid(op, c); else g.valid(op, c);
  classify(c, e);
  return cost(c, e) <= max_cost;
}
static void note(const Call &c, const Exp &e, Status s) {
  note_case(c, e, true);
  count(kOpName[c.op]);
  count(s == STATUS_SUCCESS ? "calls that succeeded" : "calls that failed");
}

// M01: executed under the address and undefined-behaviour sanitizers, which are
// the oracle; every byte of the result is read as well.
static u64 checksum(const Tensor t) {
  u64 h = 0;
  const u8 *p = (const u8 *)aitisa_tensor_data(t);
  u64 n = (u64)aitisa_tensor_size(t) * aitisa_tensor_data_type(t).size;
  for (u64 i = 0; i < n; i++) h = h * 31 + p[i];
  for (i64 i = 0; i < aitisa_tensor_ndim(t); i++) h = h * 31 + (u64)aitisa_tensor_dim(t, i);
  return h;
}
void m01(Src &s) {
  int k = (int)s.below(100);
  if (k < 4) { index_case(s); return; }
  if (k < 6) { create_case(s); return; }
  if (k < 9) { broadcast_case(s); return; }
  Gen g(s);
  g.budget = s.chance(10) ? 20000 : 400;
  Call c;
  Exp e;
  if (!any_call(s, g, c, e, 45, 4e5L)) { count("left out (too long)"); return; }
  Live l;
  if (!build(c, l)) return;
  Tensor out = kSentinel;
  if (s.chance(6)) mem::arm((i64)s.below(8), s.chance(30));
  Status st = invoke(c, l, &out);
  mem::reset_faults();
  note(c, e, st);
  if (st == STATUS_SUCCESS && out != kSentinel) {
    static volatile u64 sink;
    sink = sink + checksum(out);
    if (s.chance(50)) { release(c, l); sink = sink + checksum(out); }
    aitisa_destroy(&out);
    aitisa_destroy(&out);
  }
  release(c, l);
}

// M02: the ledger of live blocks over histories of calls
void m02(Src &s) {
  Gen g(s);
  u64 base = mem::live_hash(), nbase = mem::live_count();
  std::vector<Tensor> kept;
  int steps = (int)s.range(1, 14);
  u64 sig = 5;
  bool failed_any = false;
  for (int k = 0; k < steps; k++) {
    g.budget = s.chance(3) ? 20000 : 120;
    Call c;
    Exp e;
    if (!any_call(s, g, c, e, 40, 1e5L)) continue;
    Live l;
    if (!build(c, l)) { fail_call(c, "build", "an operand could not be created"); break; }
    u64 h = mem::live_hash(), n = mem::live_count();
    Tensor out = kSentinel;
    bool starve = s.chance(12);
    if (starve) mem::arm((i64)s.below(9), s.chance(30));
    Status st = invoke(c, l, &out);
    bool fired = mem::fired();
    mem::reset_faults();
    sig = mix(sig ^ hash_call(c));
    note(c, e, st);
    char m[300];
    if (st != STATUS_SUCCESS) {
      failed_any = true;
      if (mem::live_hash() != h) {
        snprintf(m, sizeof m, "failed with %s%s, live blocks before %llu, after %llu", status_name(st), fired ? " (out of memory)" : "",
                 (unsigned long long)n, (unsigned long long)mem::live_count());
        fail_call(c, "leak-on-failure", m);
        return;
      }
      count("failing calls with an unchanged set of live blocks");
    } else if (out != kSentinel && out) {
      if (!mem::is_live(out)) { fail_call(c, "result", "the returned tensor is not a live block"); return; }
      if (s.chance(35)) kept.push_back(out);
      else {
        if (s.chance(30)) {  // operands first
          release(c, l);
          Tensor t = out;
          aitisa_destroy(&t);
        } else {
          aitisa_destroy(&out);
          if (out != NULL) { fail_call(c, "handle", "destroy did not reset the handle"); return; }
          if (mem::live_hash() != h) {
            snprintf(m, sizeof m, "after destroying the result %llu blocks are live, before the call %llu", (unsigned long long)mem::live_count(), (unsigned long long)n);
            fail_call(c, "leak", m);
            return;
          }
          aitisa_destroy(&out);
          count("results destroyed with an exact balance");
        }
      }
    }
    release(c, l);
    if (!kept.empty() && s.chance(30)) {
      size_t i = s.below(kept.size());
      aitisa_destroy(&kept[i]);
      if (kept[i] != NULL) { fail("destroy/handle", "destroy did not reset the handle"); return; }
      if (s.chance(30)) aitisa_destroy(&kept[i]);
      kept.erase(kept.begin() + i);
    }
    if (g_violations) return;
  }
  while (!kept.empty()) {
    size_t i = s.below(kept.size());
    aitisa_destroy(&kept[i]);
    kept.erase(kept.begin() + i);
  }
  note_sig(sig, failed_any);
  count("histories with an exact final balance");
  if (mem::live_hash() != base)
    fail("history/leak", "after destroying every tensor %llu blocks are live, before the history %llu",
         (unsigned long long)mem::live_count(), (unsigned long long)nbase);
}

// results as values
struct Shot {
  Status st;
  bool has;
  TV v;
};
static bool shoot(const Call &c, Live &l, Shot &r) {
  Tensor out = kSentinel;
  r.st = invoke(c, l, &out);
  r.has = r.st == STATUS_SUCCESS;
  if (r.has) {
    if (!out || out == kSentinel || !read_tensor(out, r.v)) { r.has = false; return false; }
    aitisa_destroy(&out);
  }
  return true;
}
static bool same_shot(const Call &c, const Exp &e, const Shot &a, const Shot &b, char *m, size_t n) {
  if (a.st != b.st) { snprintf(m, n, "status %s, then %s", status_name(a.st), status_name(b.st)); return false; }
  if (!a.has) return true;
  if (a.v.dt != b.v.dt || a.v.dims != b.v.dims || a.v.dev.type != b.v.dev.type || a.v.dev.id != b.v.dev.id) { snprintf(m, n, "another shape, type or device"); return false; }
  (void)e;
  if (c.op == K_DROPOUT && c.d > 0 && c.d < 1) return true;
  if (c.op == K_CREATE && !c.give_data) return true;  // content left to the caller
  int sz = kSize[a.v.dt];
  for (size_t i = 0; i < a.v.data.size(); i += sz)
    if (memcmp(&a.v.data[i], &b.v.data[i], sz)) {
      u64 x = 0, y = 0;
      memcpy(&x, &a.v.data[i], sz);
      memcpy(&y, &b.v.data[i], sz);
      snprintf(m, n, "element %llu has bits %llx, then %llx", (unsigned long long)(i / sz), (unsigned long long)x, (unsigned long long)y);
      return false;
    }
  return true;
}

// M03: every single memory request of a call made to fail, and every suffix
void m03(Src &s) {
  Gen g(s);
  g.budget = 40;
  Call c;
  Exp e;
  if (!any_call(s, g, c, e, 12, 3e4L)) return;
  if (s.chance(2)) {  // a request no machine can satisfy
    c = Call();
    c.op = s.chance(50) ? K_FULL : K_CREATE;
    c.dt = g.any_dt();
    c.la.assign(1, (i64)1 << s.range(38, 58));
    c.t.resize(1);
    c.t[0].dt = c.dt;
    c.d = 1;
    Live l;
    build(c, l);
    u64 h = mem::live_hash();
    Tensor out = kSentinel;
    Status st = invoke(c, l, &out);
    note_case(c, e, true);
    count("requests beyond any memory");
    if (st == STATUS_SUCCESS) fail_call(c, "oversized", "succeeded");
    else if (out != kSentinel) fail_call(c, "handle", "failed but changed the handle");
    else if (mem::live_hash() != h) fail_call(c, "leak-on-failure", "kept memory");
    release(c, l);
    return;
  }
  Live l;
  if (!build(c, l)) return;
  mem::reset_faults();
  Shot base;
  if (!shoot(c, l, base)) { fail_call(c, "baseline", "success without a readable result"); return; }
  i64 n = (i64)mem::requests();
  note_case(c, e, n > 0);
  count(kOpName[c.op]);
  u64 h0 = mem::live_hash();
  char m[400], m2[600];
  i64 step = n > 48 ? n / 48 + 1 : 1;
  for (int sustained = 0; sustained < 2; sustained++)
    for (i64 k = (step > 1 ? (i64)s.below(step) : 0); k < n; k += step) {
      const char *how = sustained ? "all requests from" : "request";
      mem::arm(k, sustained);
      Tensor out = kSentinel;
      Status st = invoke(c, l, &out);
      bool fired = mem::fired();
      mem::reset_faults();
      if (!fired) continue;
      count("memory requests made to fail");
      if (st != STATUS_SUCCESS) {
        count("reported as failure");
        if (out != kSentinel) { snprintf(m, sizeof m, "%s %lld of %lld failing: returned %s but changed the output handle", how, (long long)k, (long long)n, status_name(st)); fail_call(c, "handle", m); return; }
        if (mem::live_hash() != h0) { snprintf(m, sizeof m, "%s %lld of %lld failing: returned %s and kept or lost memory", how, (long long)k, (long long)n, status_name(st)); fail_call(c, "leak-on-failure", m); return; }
      } else {
        count("succeeded all the same");
        Shot r;
        r.st = st;
        r.has = out && out != kSentinel && read_tensor(out, r.v);
        if (!r.has || !same_shot(c, e, base, r, m2, sizeof m2)) { snprintf(m, sizeof m, "%s %lld of %lld failing: reported success but the result is wrong (%s)", how, (long long)k, (long long)n, r.has ? m2 : "unreadable"); fail_call(c, "wrong", m); return; }
        aitisa_destroy(&out);
        if (mem::live_hash() != h0) { snprintf(m, sizeof m, "%s %lld of %lld failing: succeeded and kept or lost memory", how, (long long)k, (long long)n); fail_call(c, "leak", m); return; }
      }
      if (!inputs_intact(c, l, m2, sizeof m2)) { snprintf(m, sizeof m, "%s %lld of %lld failing: %s", how, (long long)k, (long long)n, m2); fail_call(c, "input", m); return; }
      if (g_violations) return;
    }
  if (s.chance(25)) perturb(s, &c);
  Shot again;
  shoot(c, l, again);
  if (!same_shot(c, e, base, again, m2, sizeof m2)) { snprintf(m, sizeof m, "after failures the call behaves differently: %s", m2); fail_call(c, "aftermath", m); }
  release(c, l);
}

// M04: allocators of the user, told apart by a header in front of every block
struct Pool {
  u64 magic;
  std::set<void *> live;
  u64 taken, given;
  const char *err;
};
static Pool pools[2] = {{0x1111a110c111a110ull, {}, 0, 0, NULL}, {0x2222a110c222a110ull, {}, 0, 0, NULL}};
static std::set<void *> adopted;      // buffers handed over by the user
static void *pool_get(int k, size_t n) {
  Pool &p = pools[k];
  if (n > ((size_t)256 << 20)) return NULL;
  u64 *b = (u64 *)malloc(n + 48);
  b[0] = p.magic;
  b[1] = n;
  u8 *u = (u8 *)(b + 4);
  memset(u, 0xc3, n + 16);
  p.live.insert(u);
  p.taken++;
  return u;
}
static void pool_put(int k, void *x) {
  Pool &p = pools[k];
  if (!x) return;
  if (adopted.count(x)) { adopted.erase(x); free(x); return; }
  std::set<void *>::iterator it = p.live.find(x);
  if (it == p.live.end()) {
    p.err = pools[1 - k].live.count(x) ? "a block of another allocator was passed to the release function"
                                       : "a foreign, interior or already released pointer was passed to the release function";
    return;
  }
  u64 *b = (u64 *)x - 4;
  if (b[0] != p.magic) p.err = "memory before a block was overwritten";
  for (int i = 0; i < 16; i++) if (((u8 *)x)[b[1] + i] != 0xc3) p.err = "memory behind a block was overwritten";
  p.live.erase(it);
  p.given++;
  free(b);
}
static void *a_get(size_t n) { return pool_get(0, n); }
static void a_put(void *p) { pool_put(0, p); }
static void *b_get(size_t n) { return pool_get(1, n); }
static void b_put(void *p) { pool_put(1, p); }
static void install(int k) {
  aitisa_set_default_cpu_raw_alloc(k ? b_get : a_get);
  aitisa_set_default_cpu_raw_dealloc(k ? b_put : a_put);
}
// A part may lie inside a larger block of the allocator
static bool pool_has(const Pool &p, const void *x) {
  std::set<void *>::const_iterator it = p.live.upper_bound((void *)x);
  if (it == p.live.begin()) return false;
  --it;
  const u8 *b = (const u8 *)*it;
  return (const u8 *)x <= b + ((const u64 *)b - 4)[1];
}
static bool from_pool(const Pool &p, const Tensor t, const char **what) {
  bool rank = aitisa_tensor_ndim(t) > 0;
  *what = NULL;
  if (!pool_has(p, (void *)t)) *what = "the handle";
  else if (rank && aitisa_tensor_dims(t) && !pool_has(p, aitisa_tensor_dims(t))) *what = "the extents";
  else if (rank && aitisa_tensor_shape(t).layout.min2maj && !pool_has(p, aitisa_tensor_shape(t).layout.min2maj)) *what = "the layout";
  else if (!pool_has(p, (void *)aitisa_tensor_storage(t))) *what = "the storage";
  else if (aitisa_tensor_data(t) && !adopted.count(aitisa_tensor_data(t)) && !pool_has(p, aitisa_tensor_data(t))) *what = "the data";
  return !*what;
}
void m04(Src &s) {
  static Allocator orig = *aitisa_default_cpu_allocator();
  Gen g(s);
  Allocator before = *aitisa_default_cpu_allocator();
  if (before.raw_alloc != orig.raw_alloc || before.raw_dealloc != orig.raw_dealloc) { fail("allocator/not-restored", "the built-in allocator was not restored"); return; }
  u64 h0 = mem::live_hash();
  int rounds = (int)s.range(1, 3);
  for (int r = 0; r < rounds && !g_violations; r++) {
    int k = (int)s.below(2);
    Pool &p = pools[k];
    install(k);
    std::vector<Tensor> kept;
    int steps = (int)s.range(1, 6);
    for (int q = 0; q < steps && !g_violations; q++) {
      g.budget = s.chance(5) ? 8000 : 100;
      Call c;
      Exp e;
      if (!any_call(s, g, c, e, 25, 1e5L)) continue;
      expect_values(c, e);
      // operands: created under the same allocator
      Live l;
      bool ok = true;
      char m[500];
      const char *what;
      for (size_t i = 0; c.op != K_CREATE && i < c.t.size() && ok; i++) {
        TV &v = c.t[i];
        void *buf = NULL;
        u32 len = 0;
        if ((c.adopt >> i & 1) && !v.data.empty()) {
          len = (u32)v.data.size();
          buf = malloc(len);
          memcpy(buf, v.data.data(), len);
          adopted.insert(buf);
        }
        Tensor t = NULL;
        Status st = aitisa_create(kDT[v.dt], v.dev, v.dims.data(), (i64)v.dims.size(), buf, len, &t);
        if (st != STATUS_SUCCESS) { fail_call(c, "build", status_name(st)); ok = false; break; }
        if (!buf && !v.data.empty()) memcpy(aitisa_tensor_data(t), v.data.data(), v.data.size());
        l.t.push_back(t);
        if (!from_pool(p, t, &what)) { snprintf(m, sizeof m, "%s of an operand made by create is not from the installed allocator", what); fail_call(c, "foreign-memory", m); ok = false; }
      }
      if (!ok) break;
      Call arrays = c;
      arrays.t.clear();
      Live la;
      build(arrays, la);
      for (int i = 0; i < 4; i++) l.ia[i] = la.ia[i];
      l.la = la.la;
      Tensor out = kSentinel;
      u64 taken = p.taken;
      Status st;
      if (c.op == K_CREATE) {
        void *buf = NULL;
        if (c.give_data) { buf = malloc(c.t[0].data.size() + 1); if (!c.t[0].data.empty()) memcpy(buf, c.t[0].data.data(), c.t[0].data.size()); adopted.insert(buf); }
        st = aitisa_create(kDT[c.dt], c.dev, l.la, (i64)c.la.size(), buf, c.len, &out);
        if (buf && st != STATUS_SUCCESS) {
          if (!adopted.count(buf)) fail_call(c, "released-declined-buffer", "failed but released the caller's buffer");
          else { adopted.erase(buf); free(buf); }
        }
      } else st = invoke(c, l, &out);
      note(c, e, st);
      count("blocks taken from a user allocator", p.taken - taken);
      if (st == STATUS_SUCCESS && out && out != kSentinel) {
        if (!from_pool(p, out, &what)) { snprintf(m, sizeof m, "%s of the result is not from the installed allocator", what); fail_call(c, "foreign-memory", m); ok = false; }
        else if ((e.cls == VALID || e.judged) && !compare(e, c, out, m, sizeof m)) { fail_call(c, "wrong", m); ok = false; }
        count("results traced to the allocator");
        if (ok) { if (s.chance(30)) kept.push_back(out); else aitisa_destroy(&out); }
      } else if (e.cls == VALID && st != STATUS_SUCCESS) { fail_call(c, "rejected", status_name(st)); }
      release(c, l);
      if (p.err) { fail_call(c, "release", p.err); p.err = NULL; }
    }
    while (!kept.empty() && !g_violations) { aitisa_destroy(&kept.back()); kept.pop_back(); }
    if (p.err) { fail("allocator/release", "%s", p.err); p.err = NULL; }
    if (!g_violations && (!pools[0].live.empty() || !pools[1].live.empty()))
      fail("allocator/leak", "%llu blocks of the user's allocator were not given back to its release function", (unsigned long long)(pools[0].live.size() + pools[1].live.size()));
    if (!g_violations && !adopted.empty()) fail("allocator/leak", "an adopted buffer was not given to the release function");
    aitisa_set_default_cpu_raw_alloc(orig.raw_alloc);
    aitisa_set_default_cpu_raw_dealloc(orig.raw_dealloc);
    count("allocators installed and removed");
    if (s.chance(40) && !g_violations) {   // the built-in pair works again
      Call c;
      Exp e;
      if (any_call(s, g, c, e, 0, 1e4L)) { u64 t = pools[0].taken + pools[1].taken; run_and_compare(c, false); if (pools[0].taken + pools[1].taken != t) fail_call(c, "not-restored", "uses the user's allocator after the built-in one was restored"); }
    }
  }
  if (!g_violations && mem::live_hash() != h0) fail("allocator/leak", "memory obtained outside the user's allocator was not released");
}

#ifdef VF_MSAN
// M05 under the memory sanitizer: no decision on an unwritten value, and every
// element of a result written
extern "C" void __msan_check_mem_is_initialized(const volatile void *p, size_t n);
void m05(Src &s) {
  Gen g(s);
  g.budget = s.chance(5) ? 10000 : 200;
  Call c;
  Exp e;
  if (!any_call(s, g, c, e, 25, 2e5L)) return;
  if (s.chance(12)) perturb(s, &c);
  Live l;
  if (!build(c, l)) { fail_call(c, "build", "an operand could not be created"); return; }
  Tensor out = kSentinel;
  if (s.chance(8)) mem::arm((i64)s.below(8), s.chance(30));
  Status st = invoke(c, l, &out);
  mem::reset_faults();
  note(c, e, st);
  if (st == STATUS_SUCCESS) {
    if (!out || out == kSentinel) { fail_call(c, "no-result", "success without a result"); return; }
    char m[500];
    if (!well_formed(out, m, sizeof m)) { fail_call(c, "form", m); return; }
    u64 n = (u64)aitisa_tensor_size(out) * aitisa_tensor_data_type(out).size;
    if (!(c.op == K_CREATE && !c.give_data) && n) {
      __msan_check_mem_is_initialized(aitisa_tensor_data(out), n);
      count("result bytes checked for having been written", n);
    }
    aitisa_destroy(&out);
  }
  release(c, l);
}
#else
static bool same_layout(const Call &a, const Call &b) {
  if (a.op == K_CREATE || a.t.size() != b.t.size() || a.la.size() != b.la.size() || a.la_n != b.la_n || a.adopt != b.adopt) return false;
  for (int i = 0; i < 4; i++) if (a.ia[i].size() != b.ia[i].size()) return false;
  for (size_t i = 0; i < a.t.size(); i++)
    if (a.t[i].dt != b.t[i].dt || a.t[i].dims != b.t[i].dims || a.t[i].dev.id != b.t[i].dev.id || a.t[i].dev.type != b.t[i].dev.type || a.t[i].data.size() != b.t[i].data.size()) return false;
  Exp e;
  classify(b, e);
  return cost(b, e) <= 2e5L;
}
// M05: the same call with other contents of fresh memory, addresses, histories
void m05(Src &s) {
  Gen g(s);
  g.budget = s.chance(5) ? 10000 : 150;
  Call c;
  Exp e;
  if (!any_call(s, g, c, e, 15, 2e5L)) return;
  static const int modes[] = {mem::P_ZERO, mem::P_FF, mem::P_AA, mem::P_NAN, mem::P_RAND, mem::P_ONE};
  Shot first;
  char m[500], m2[700];
  note_case(c, e, true);
  count(kOpName[c.op]);
  int first_mode = 0;
  bool was_lifo = mem::lifo;
  for (int k = 0; k < 6; k++) {
    int mode = modes[(k + (int)s.below(2)) % 6];
    if (k && s.chance(60)) perturb(s, &c);
    mem::lifo = k & 1;
    if (!mem::lifo) mem::drop_cache();
    mem::poison = mode;
    void *pad[8];
    int np = (int)s.below(8);
    for (int i = 0; i < np; i++) pad[i] = malloc(s.below(200) + 1);
    Live l;
    Shot r;
    bool built, readable;
    Call b;
    if (k && s.chance(25) && (g.sibling(c, b), same_layout(c, b))) {
      // the same handles and arrays held other values in an earlier call
      if ((built = build(b, l))) {
        Shot ignored;
        shoot(b, l, ignored);
        for (size_t i = 0; i < l.t.size(); i++)
          if (!c.t[i].data.empty()) memcpy(aitisa_tensor_data(l.t[i]), c.t[i].data.data(), c.t[i].data.size());
        for (int i = 0; i < 4; i++) if (!c.ia[i].empty()) memcpy(l.ia[i], c.ia[i].data(), c.ia[i].size() * sizeof(int));
        if (!c.la.empty()) memcpy(l.la, c.la.data(), c.la.size() * sizeof(i64));
        count("executions on reused handles with new content");
      }
    } else built = build(c, l);
    readable = built && shoot(c, l, r);
    if (built) release(c, l);
    for (int i = 0; i < np; i++) free(pad[i]);
    mem::poison = mem::P_RAND;
    if (!built) { fail_call(c, "build", "an operand could not be created"); break; }
    if (!readable) { fail_call(c, "no-result", "success without a readable result"); break; }
    count("executions compared");
    if (k == 0) { first = r; first_mode = mode; }
    else if (!same_shot(c, e, first, r, m, sizeof m)) {
      snprintf(m2, sizeof m2, "two executions differ (fresh memory filled by pattern %d, then %d): %s", first_mode, mode, m);
      fail_call(c, "unstable", m2);
      break;
    }
  }
  mem::lifo = was_lifo;
  mem::drop_cache();
}
#endif

// S01: purity, independence and form of results
static bool overlap(const void *a, u64 n, const void *b, u64 m) {
  const u8 *p = (const u8 *)a, *q = (const u8 *)b;
  return n && m && p < q + m && q < p + n;
}
void s01(Src &s) {
  Gen g(s);
  g.budget = s.chance(4) ? 20000 : 200;
  Call c;
  Exp e;
  if (!any_call(s, g, c, e, 0, 2e5L) || c.op == K_CREATE) return;
  if (e.cls == INVALID) return;
  // the same tensor in several places, whenever the shapes allow it
  if (c.nargs == 2 && c.arg[0] != c.arg[1] && c.t[0].dims == c.t[1].dims && c.t[0].dt == c.t[1].dt && s.chance(30) &&
      c.op != K_DIV && is_float(c.t[0].dt)) {
    c.t.resize(1);
    c.arg[1] = 0;
    classify(c, e);
    if (e.cls == INVALID) return;
    count("same tensor as both operands");
  }
  if (s.chance(10)) perturb(s, &c);
  Live l;
  if (!build(c, l)) { fail_call(c, "build", "an operand could not be created"); return; }
  std::vector<Tensor> handles = l.t;
  std::vector<const void *> ptr;
  for (Tensor t : l.t) {
    ptr.push_back(aitisa_tensor_data(t));
    ptr.push_back(aitisa_tensor_dims(t));
    ptr.push_back(aitisa_tensor_storage(t));
  }
  Tensor out = kSentinel;
  Status st = invoke(c, l, &out);
  note(c, e, st);
  char m[600];
#define S01(cond, key, what) do { if (!(cond)) { fail_call(c, key, what); return; } } while (0)
  if (!inputs_intact(c, l, m, sizeof m)) { fail_call(c, "input", m); return; }
  for (size_t i = 0; i < l.t.size(); i++)
    S01(l.t[i] == handles[i] && aitisa_tensor_data(l.t[i]) == ptr[3 * i] && aitisa_tensor_dims(l.t[i]) == ptr[3 * i + 1] &&
            (const void *)aitisa_tensor_storage(l.t[i]) == ptr[3 * i + 2], "input", "an input's handle, data, extents or storage moved");
  for (Tensor t : l.t) if (!well_formed(t, m, sizeof m)) { fail_call(c, "input", m); return; }
  count("calls with untouched inputs");
  if (st != STATUS_SUCCESS) { release(c, l); return; }
  S01(out && out != kSentinel, "no-result", "success without a result");
  if (!well_formed(out, m, sizeof m)) { fail_call(c, "form", m); return; }
  DataType dt = aitisa_tensor_data_type(out);
  Device dv = aitisa_tensor_device(out);
  S01(dt.code == kDT[e.dt].code, "form", "another element type than the input");
  S01(dv.type == e.dev.type && dv.id == e.dev.id, "form", "another device than the input");
  u64 ob = (u64)aitisa_tensor_size(out) * dt.size;
  for (Tensor t : l.t) {
    u64 ib = (u64)aitisa_tensor_size(t) * aitisa_tensor_data_type(t).size;
    S01(t != out, "shared", "the result is an input");
    S01(!overlap(aitisa_tensor_data(t), ib, aitisa_tensor_data(out), ob), "shared", "the result shares data with an input");
    S01(aitisa_tensor_storage(t) != aitisa_tensor_storage(out), "shared", "the result shares the storage of an input");
    S01(!overlap(aitisa_tensor_dims(t), 8 * (u64)aitisa_tensor_ndim(t), aitisa_tensor_dims(out), 8 * (u64)aitisa_tensor_ndim(out)), "shared", "the result shares the extents of an input");
    S01(!aitisa_tensor_ndim(t) || !aitisa_tensor_ndim(out) || aitisa_tensor_shape(t).layout.min2maj != aitisa_tensor_shape(out).layout.min2maj, "shared", "the result shares the layout of an input");
  }
  S01(c.la.empty() || aitisa_tensor_dims(out) != l.la, "shared", "the result keeps the caller's array");
  count("results disjoint from their inputs");
  TV before;
  S01(read_tensor(out, before), "form", "unreadable result");
  int order = (int)s.below(4);
  if (order == 0) {              // writing into the result leaves inputs alone
    if (ob) memset(aitisa_tensor_data(out), 0x77, ob);
    if (!inputs_intact(c, l, m, sizeof m)) { fail_call(c, "shared", m); return; }
    aitisa_destroy(&out);
    if (!inputs_intact(c, l, m, sizeof m)) { fail_call(c, "shared", m); return; }
    release(c, l);
  } else if (order == 1) {       // result first
    aitisa_destroy(&out);
    if (!inputs_intact(c, l, m, sizeof m)) { fail_call(c, "shared", m); return; }
    for (Tensor t : l.t) if (!well_formed(t, m, sizeof m)) { fail_call(c, "shared", m); return; }
    release(c, l);
  } else {                       // inputs overwritten, then destroyed first
    for (Tensor t : l.t) {
      u64 ib = (u64)aitisa_tensor_size(t) * aitisa_tensor_data_type(t).size;
      if (ib) memset(aitisa_tensor_data(t), 0x55, ib);
    }
    release(c, l);
    perturb(s);
    TV after;
    S01(well_formed(out, m, sizeof m) && read_tensor(out, after), "shared", "the result broke when the inputs were destroyed");
    S01(after.dims == before.dims && after.data == before.data, "shared", "the result changed when the inputs were destroyed");
    aitisa_destroy(&out);
  }
  count("orders of destruction tried");
#undef S01
}

// S02: rejections
// a type code that is none of the ten
static void unknown_type(Src &s, Gen &g) {
  static const u32 codes[] = {TYPE_NTYPES, TYPE_NTYPES + 1, 16, 255, 0x7fffffff};
  static const u8 sizes[] = {1, 2, 4, 8, 0};
  DataType bad = kDT[0];
  u32 code = s.pick(codes);
  memcpy(&bad.code, &code, sizeof bad.code < sizeof code ? sizeof bad.code : sizeof code);
  bad.size = s.pick(sizes);
  int what = (int)s.below(3);
  Call c;
  c.op = what == 0 ? K_CREATE : what == 1 ? K_FULL : K_CAST;
  TV v;
  v.dt = g.any_dt();
  int nd = (int)s.below(4);
  for (int i = 0; i < nd; i++) v.dims.push_back(s.range(1, 4));
  v.data.assign((size_t)v.count() * kSize[v.dt], 1);
  Tensor in = NULL, out = kSentinel;
  if (what == 2 && !(in = make_tensor(v, s.chance(30)))) { fail("build", "an operand could not be created"); return; }
  u64 h0 = mem::live_hash();
  i64 *d = (i64 *)malloc((v.dims.size() + 1) * sizeof(i64));
  if (nd) memcpy(d, v.dims.data(), nd * sizeof(i64));
  void *buf = NULL;
  Status st;
  if (what == 0) {
    u32 len = 0;
    if (bad.size && s.chance(50)) {
      len = (u32)v.count() * bad.size;
      buf = mem::user_alloc(len);
      h0 = mem::live_hash();
    }
    st = aitisa_create(bad, v.dev, d, nd, buf, len, &out);
  } else if (what == 1) {
    st = aitisa_full(bad, v.dev, d, nd, (double)s.range(-3, 3), &out);
  } else {
    st = aitisa_cast(in, bad, &out);
  }
  char t[200];
  snprintf(t, sizeof t, "%s with type code %u and size %u", kOpName[c.op], (unsigned)code, (unsigned)bad.size);
  note_sig(mix(code) ^ mix(bad.size * 8 + what) ^ mix(v.count() + 1000 * nd), true);
  count("unknown element types");
  if (st == STATUS_SUCCESS) { fail("accepted", "%s succeeded", t); return; }
  if ((int)st < STATUS_SUCCESS || (int)st > STATUS_MATH_ERROR) { fail("status", "%s returned %d, which is no status", t, (int)st); return; }
  if (out != kSentinel) { fail("handle", "%s failed but changed the caller's output handle", t); return; }
  if (mem::live_hash() != h0) { fail("memory", "%s failed but kept or released memory", t); return; }
  for (int i = 0; i < nd; i++) if (d[i] != v.dims[i]) { fail("input", "%s changed the extents passed", t); return; }
  if (buf) mem::user_free(buf);
  free(d);
  if (in) aitisa_destroy(&in);
}
void s02(Src &s) {
  Gen g(s);
  if (s.chance(1)) { unknown_type(s, g); return; }
  g.budget = s.chance(3) ? 20000 : 150;
  Call c;
  Exp e;
  if (!any_call(s, g, c, e, 75, 2e5L)) return;
  if (s.chance(12)) perturb(s, &c);
  Live l;
  if (!build(c, l)) { fail_call(c, "build", "an operand could not be created"); return; }
  std::vector<Tensor> handles = l.t;
  Tensor out = kSentinel;
  Status st = invoke(c, l, &out);
  note(c, e, st);
  if (e.cls == INVALID) count(e.why);
  char m[600], m2[300];
  if (e.cls == INVALID && st == STATUS_SUCCESS) { snprintf(m, sizeof m, "succeeded although: %s", e.why); fail_call(c, "accepted", m); return; }
  if (e.cls == VALID && st != STATUS_SUCCESS) { snprintf(m, sizeof m, "valid call returned %s", status_name(st)); fail_call(c, "rejected", m); return; }
  if (e.cls == INVALID && e.want >= 0 && (int)st != e.want) { snprintf(m, sizeof m, "returned %s instead of %s (%s)", status_name(st), status_name(e.want), e.why); fail_call(c, "status", m); return; }
  if ((int)st < STATUS_SUCCESS || (int)st > STATUS_MATH_ERROR) { snprintf(m, sizeof m, "returned %d, which is no status", (int)st); fail_call(c, "status", m); return; }
  if (st != STATUS_SUCCESS) {
    if (out != kSentinel) { snprintf(m, sizeof m, "failed with %s but changed the caller's output handle", status_name(st)); fail_call(c, "handle", m); return; }
    if (!inputs_intact(c, l, m2, sizeof m2)) { snprintf(m, sizeof m, "failed with %s; %s", status_name(st), m2); fail_call(c, "input", m); return; }
    for (size_t i = 0; i < l.t.size(); i++) if (l.t[i] != handles[i] || !well_formed(l.t[i], m2, sizeof m2)) { fail_call(c, "input", "an input was damaged"); return; }
    count("rejections without side effects");
  } else {
    count("valid calls accepted");
    discard(out);
  }
  release(c, l);
}
}  // namespace vf
