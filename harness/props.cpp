// The monitors: one case function per property.
#include <algorithm>
#include "props.h"
#include <fcntl.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <unistd.h>
#include <string>

namespace vf {
// ----------------------------------------------------------------- shared parts
bool inputs_intact(const Call &c, const Live &l, char *msg, size_t n) {
  for (size_t i = 0; i < l.t.size(); i++) {
    const TV &v = c.t[i];
    const Tensor t = l.t[i];
    if (aitisa_tensor_ndim(t) != (i64)v.dims.size() ||
        aitisa_tensor_data_type(t).code != kDT[v.dt].code ||
        aitisa_tensor_data_type(t).size != kSize[v.dt] ||
        aitisa_tensor_device(t).type != v.dev.type || aitisa_tensor_device(t).id != v.dev.id ||
        aitisa_tensor_size(t) != v.count()) {
      snprintf(msg, n, "input %d has another rank, type, device or size now", (int)i);
      return false;
    }
    for (size_t k = 0; k < v.dims.size(); k++)
      if (aitisa_tensor_dim(t, (i64)k) != v.dims[k]) { snprintf(msg, n, "extent %d of input %d changed", (int)k, (int)i); return false; }
    if (!v.data.empty() && memcmp(aitisa_tensor_data(t), v.data.data(), v.data.size())) { snprintf(msg, n, "data of input %d changed", (int)i); return false; }
  }
  for (int k = 0; k < 4; k++)
    if (!c.ia[k].empty() && memcmp(c.ia[k].data(), l.ia[k], c.ia[k].size() * sizeof(int))) { snprintf(msg, n, "parameter array %d changed", k); return false; }
  if (!c.la.empty() && memcmp(c.la.data(), l.la, c.la.size() * sizeof(i64))) { snprintf(msg, n, "parameter array changed"); return false; }
  return true;
}
void fail_call(const Call &c, const char *key, const char *what) {
  char b[1400], k[80];
  describe(c, b, sizeof b);
  snprintf(k, sizeof k, "%s/%s", kOpName[c.op], key);
  fail(k, "%s: %s", b, what);
}
void discard(Tensor out) {
  if (out != kSentinel) aitisa_destroy(&out);
}
// some other call, possibly much like a given one, possibly failing, possibly
// short of memory
void perturb(Src &s, const Call *like) {
  Gen g(s);
  g.budget = s.chance(25) ? 250 : 60;
  Call c;
  int op = like && s.chance(40) ? like->op : (int)s.below(NOPS);
  if (like && s.chance(50)) { g.sibling(*like, c); count("perturbing calls much like the judged one"); }
  else if (s.chance(60)) g.valid(op, c);
  else g.invalid(op, c);
  Exp e;
  classify(c, e);
  if (cost(c, e) > 20000) return;
  Live l;
  if (!build(c, l)) return;
  Tensor out = kSentinel;
  if (s.chance(15)) mem::arm((i64)s.below(6), s.chance(30));
  invoke(c, l, &out);
  mem::reset_faults();
  discard(out);
  release(c, l);
  count("perturbing calls");
}
static const char *cls_name(int cls) { return cls == VALID ? "valid calls" : cls == INVALID ? "calls to be rejected" : "unspecified calls"; }
bool run_and_compare(const Call &c, bool judge_invalid) {
  Exp e;
  classify(c, e);
  if (cost(c, e) > 3e6L) { count("left out (too long)"); return true; }
  if (e.cls == INVALID && !judge_invalid) { count("left out (invalid)"); return true; }
  Live l;
  if (!build(c, l)) { fail_call(c, "build", "an operand could not be created"); return false; }
  expect_values(c, e);
  Tensor out = kSentinel;
  Status s = invoke(c, l, &out);
  note_case(c, e, e.cls == INVALID || result_count(e) >= 2);
  count(kOpName[c.op]);
  count(cls_name(e.cls));
  char msg[800];
  bool ok = true;
  if (e.cls == VALID && s != STATUS_SUCCESS) {
    snprintf(msg, sizeof msg, "valid call returned %s", status_name(s));
    fail_call(c, "rejected", msg);
    ok = false;
  } else if (e.cls == INVALID && s == STATUS_SUCCESS) {
    snprintf(msg, sizeof msg, "succeeded although: %s", e.why);
    fail_call(c, "accepted", msg);
    ok = false;
  } else if (e.cls == INVALID && e.want >= 0 && (int)s != e.want) {
    char m2[300];
    snprintf(m2, sizeof m2, "returned %s instead of %s (%s)", status_name(s), status_name(e.want), e.why);
    fail_call(c, "status", m2);
    ok = false;
  } else if (s == STATUS_SUCCESS) {
    if (out == kSentinel || !out) { fail_call(c, "no-result", "success without a result"); ok = false; }
    else if ((e.cls == VALID || e.judged) && !compare(e, c, out, msg, sizeof msg)) { fail_call(c, "wrong", msg); ok = false; }
    else count("elements compared", e.cmp == CMP_NONE || !(e.cls == VALID || e.judged) ? 0 : (u64)aitisa_tensor_size(out));
  }
  if (ok || s == STATUS_SUCCESS) discard(s == STATUS_SUCCESS ? out : kSentinel);
  release(c, l);
  return ok;
}
static bool large(Src &s, const int *ops, int nops);
static bool large_float(Src &s, const int *ops, int nops);
static void functional(Src &s, const int *ops, int nops, int invalid_percent, i64 budget) {
  Gen g(s);
  g.budget = g_tier && s.chance(3) ? budget * 8 : budget;
  if (budget < 10000) {                  // the costly operators: mostly small calls, some of middling size
    if (s.below(1000) < (budget < 1000 ? 20 : 8)) g.big = true, g.budget = budget * 25;
  } else if (s.below(1000) < 3) g.big = true, g.budget = budget * (s.chance(30) ? 12 : 2);
  Call c;
  int op = ops[nops > 1 ? s.below((u64)nops) : 0];
  if (s.chance(invalid_percent)) g.invalid(op, c); else g.valid(op, c);
  if (s.chance(14)) perturb(s, &c);
  run_and_compare(c, invalid_percent > 0);
}
#define FUNCTIONAL(name, invalid_percent, budget, ...)                     \
  static void name(Src &s) {                                               \
    static const int ops[] = {__VA_ARGS__};                                \
    if (large(s, ops, (int)(sizeof ops / sizeof *ops)) || large_float(s, ops, (int)(sizeof ops / sizeof *ops))) return; \
    functional(s, ops, (int)(sizeof ops / sizeof *ops), invalid_percent, budget); \
  }
FUNCTIONAL(t03, 25, 140000, K_RESHAPE, K_SQUEEZE)
FUNCTIONAL(t05, 0, 140000, K_CAST)
FUNCTIONAL(t06_small, 0, 140000, K_FULL)
FUNCTIONAL(a01, 12, 140000, K_ADD, K_SUB, K_MUL, K_DIV, K_DIV)
FUNCTIONAL(a02, 0, 3000, K_MATMUL)
FUNCTIONAL(a03, 0, 3000, K_DOT)
FUNCTIONAL(n01, 0, 1500, K_CONV, K_CONV, K_CONV2D, K_CONV3D)
FUNCTIONAL(n02, 0, 3000, K_POOL)
FUNCTIONAL(n03, 0, 600, K_BN)
FUNCTIONAL(n04, 0, 140000, K_RELU, K_SIGMOID, K_TANH, K_SQRT)
FUNCTIONAL(n05, 0, 100000, K_SOFTMAX)

// T04: slices, duplicates and their independence of the original
static void t04(Src &s) {
  static const int both[] = {K_SLICE, K_DUP};
  if (large(s, both, 2)) return;
  Gen g(s);
  g.budget = 140000;
  Call c;
  int op = s.chance(70) ? K_SLICE : K_DUP;
  if (op == K_SLICE && s.chance(25)) g.invalid(op, c); else g.valid(op, c);
  if (s.chance(14)) perturb(s, &c);
  if (!run_and_compare(c, true) || op != K_DUP) return;
  Exp e;
  classify(c, e);
  if (e.cls != VALID || c.t[0].data.size() > 4000) return;
  Live l;
  if (!build(c, l)) return;
  Tensor out = kSentinel;
  if (invoke(c, l, &out) == STATUS_SUCCESS) {
    TV v;
    bool ok = read_tensor(out, v);
    memset(aitisa_tensor_data(l.t[0]), 0x5a, c.t[0].data.size());
    ok = ok && !memcmp(aitisa_tensor_data(out), v.data.data(), v.data.size());
    aitisa_destroy(&l.t[0]);
    l.t.clear();
    ok = ok && !memcmp(aitisa_tensor_data(out), v.data.data(), v.data.size()) && v.data == c.t[0].data && v.dims == c.t[0].dims;
    if (!ok) fail_call(c, "dependent", "the duplicate changed with the original");
    discard(out);
    count("independence checks");
  }
  release(c, l);
}

// T06: including tensors with very many elements
static bool all_equal(const u8 *p, u64 n, int sz, const u8 *want, u64 *at) {
  u64 total = n * sz;
  for (int k = 0; k < sz && (u64)k < total; k++)
    if (p[k] != want[k]) { *at = 0; return false; }
  // the buffer is periodic with period sz iff it equals itself shifted by sz
  u64 step = (u64)1 << 20;
  for (u64 o = 0; o + sz < total; o += step) {
    u64 len = total - sz - o < step ? total - sz - o : step;
    if (memcmp(p + o, p + o + sz, len)) {
      for (u64 k = 0; k < len; k++) if (p[o + k] != p[o + sz + k]) { *at = (o + sz + k) / sz; return false; }
    }
  }
  return true;
}
static void t06_big(Src &s, u64 elems, int dt) {
  patience(3);
  u64 limit = mem::limit;
  int poison = mem::poison;
  bool huge = mem::huge_ok;
  mem::limit = (u64)6 << 30;
  mem::huge_ok = true;                       // reserved, zero-filled on demand
  mem::poison = mem::P_NONE;
  Call c;
  c.op = K_FULL;
  c.dt = dt;
  Gen g(s);
  int r = (int)s.range(1, 3);
  i64 rest = (i64)elems;
  for (int i = 1; i < r; i++) { i64 f = s.range(1, 9); c.la.push_back(f); rest = rest / f + (rest % f != 0); }
  c.la.insert(c.la.begin() + s.below(c.la.size() + 1), rest);
  c.d = is_float(dt) ? 1.25 : (double)s.range(1, 120);
  Exp e;
  classify(c, e);
  Exp one = e;
  one.dims.assign(1, 1);
  Call c1 = c;
  expect_values(c1, one);
  Live l;
  build(c, l);
  Tensor out = kSentinel;
  Status st = invoke(c, l, &out);
  note_case(c, e, true);
  if (st == STATUS_SUCCESS) {
    u64 at = 0, n = (u64)result_count(e);
    char msg[100];
    if ((u64)aitisa_tensor_size(out) != n) fail_call(c, "wrong", "element count");
    else if (!all_equal((const u8 *)aitisa_tensor_data(out), n, kSize[dt], one.bits.data(), &at)) {
      snprintf(msg, sizeof msg, "element %llu of %llu differs", (unsigned long long)at, (unsigned long long)n);
      fail_call(c, "wrong", msg);
    }
    count("elements compared", n);
    count("very large tensors");
    discard(out);
  } else if (st != STATUS_ALLOC_FAILED) {
    fail_call(c, "rejected", status_name(st));
  } else count("very large tensors refused for lack of memory");
  release(c, l);
  mem::limit = limit;
  mem::huge_ok = huge;
  mem::poison = poison;
}
static void t06(Src &s) {
  // one tensor of more than 2^31 elements per run, others above 2^16
  if (g_case == (g_tier ? 7u : 3u)) { t06_big(s, ((u64)1 << 31) + 4097, U8); return; }
  if (g_case == (g_tier ? 9u : 5u)) { t06_big(s, ((u64)1 << 29) + 4097 + s.below(5000), s.chance(50) ? F64 : I64); return; }
  if (g_tier && g_case % 4001 == 11) { t06_big(s, ((u64)1 << 32) + s.below(5000), (int)s.below(2)); return; }
  if (s.chance(1) && s.chance(25)) { t06_big(s, (u64)s.range(65000, 5000000), (int)s.below(NDT)); return; }
  t06_small(s);
}

// Tensors beyond every small counter: element i holds a function of i, so that
// the result can be judged without a copy. Byte elements keep them affordable.
static inline u8 big_elem(u64 i) { return (u8)((i * 0x9E3779B97F4A7C15ull) >> 52); }
static Tensor big_tensor(u64 n, int dt, int rank) {
  std::vector<i64> d(rank, 1);
  d[rank > 1 ? rank - 1 : 0] = (i64)n;
  if (rank > 1 && n % 3 == 0) { d[0] = 3; d[rank - 1] = (i64)(n / 3); }
  Device dev = {DEVICE_CPU, 0};
  Tensor t = NULL;
  if (aitisa_create(kDT[dt], dev, d.data(), rank, NULL, 0, &t) != STATUS_SUCCESS || !t) return NULL;
  u8 *p = (u8 *)aitisa_tensor_data(t);
  for (u64 i = 0; i < n; i++) p[i] = big_elem(i);
  return t;
}
// op on byte tensors of n elements
static void big_case(Src &s, int op, u64 n) {
  patience(3);
  u64 limit = mem::limit;
  int poison = mem::poison;
  bool huge = mem::huge_ok;
  mem::limit = (u64)20 << 30;
  mem::huge_ok = true;
  mem::poison = mem::P_NONE;
  int dt = op == K_RELU ? I8 : s.chance(50) ? U8 : I8;
  if (op == K_DIV || op == K_DOT || op == K_MATMUL) dt = U8;
  int rank = op == K_DOT || op == K_MATMUL ? 1 : op == K_POOL ? 3 : (int)s.range(1, 4);
  Tensor t = big_tensor(n, dt, rank), out = kSentinel;
  char what[200];
  snprintf(what, sizeof what, "%s of a %s tensor of %llu elements, rank %d", kOpName[op], kName[dt], (unsigned long long)n, rank);
  char key[60];
  snprintf(key, sizeof key, "%s/large", kOpName[op]);
  if (!t) { count("very large tensors refused for lack of memory"); goto done; }
  {
    Status st = STATUS_INTERNAL_ERROR;
    std::vector<int> begin(rank, 0), size(rank), step(rank, 1);
    i64 flat = (i64)n;
    u64 want_n = n;
    u64 off = 0, by = 1;
    unsigned ones = 0;
    switch (op) {
      case K_DUP: st = aitisa_duplicate(t, &out); break;
      case K_RESHAPE: st = aitisa_reshape(t, &flat, 1, &out); break;
      case K_SQUEEZE: { i64 ax = rank > 2 ? 1 : 0; st = aitisa_squeeze(t, &ax, 1, &out); break; }
      case K_SLICE: {
        for (int i = 0; i < rank; i++) size[i] = (int)(aitisa_tensor_dim(t, i) > INT_MAX ? INT_MAX : aitisa_tensor_dim(t, i));
        int last = rank - 1;
        if (aitisa_tensor_dim(t, 0) == (i64)n || rank == 1) { begin[last] = 1; size[last] = (int)((n - 1 > INT_MAX ? INT_MAX : n - 1)); off = 1; step[last] = (int)s.range(1, 3); by = (u64)step[last]; want_n = ((u64)size[last] + by - 1) / by; }
        else if (aitisa_tensor_dim(t, last) == (i64)n) { begin[last] = 1; size[last] = (int)((n - 1 > INT_MAX ? INT_MAX : n - 1)); off = 1; by = (u64)(step[last] = (int)s.range(1, 3)); want_n = ((u64)size[last] + by - 1) / by; }
        st = aitisa_slice(t, begin.data(), size.data(), step.data(), &out);
        break;
      }
      case K_CAST: st = aitisa_cast(t, kDT[dt == U8 ? I8 : U8], &out); break;
      case K_RELU: st = aitisa_relu(t, &out); break;
      case K_DROPOUT: st = aitisa_dropout(t, 0.5, &out); break;
      case K_POOL: {                               // as many windows as elements
        int one = 1, zero = 0;
        st = aitisa_pooling(t, s.chance(50) ? "max" : "avg", &one, &one, &zero, &one, &out);
        break;
      }
      case K_ADD: st = aitisa_add(t, t, &out); break;
      case K_SUB: st = aitisa_sub(t, t, &out); break;
      case K_MUL: st = aitisa_mul(t, t, &out); break;
      case K_DIV: {
        u8 *p = (u8 *)aitisa_tensor_data(t);
        for (u64 i = 0; i < n; i++) if (!p[i]) p[i] = 1;
        st = aitisa_div(t, t, &out);
        break;
      }
      case K_DOT: case K_MATMUL: {   // a sum that fits the type
        u8 *p = (u8 *)aitisa_tensor_data(t);
        memset(p, 0, n);
        p[0] = p[n - 1] = 1;
        for (int i = 0; i < 90; i++) p[s.below(n)] = 1;
        for (u64 i = 0; i < n; i++) ones += p[i];
        st = op == K_DOT ? aitisa_dot(t, t, &out) : aitisa_matmul(t, t, &out);
        want_n = 1;
        break;
      }
    }
    note_sig(mix(n * 31 + (u64)op * 7 + (u64)rank), true);
    count("very large tensors");
    if (st == STATUS_ALLOC_FAILED) { count("very large tensors refused for lack of memory"); }
    else if (st != STATUS_SUCCESS) fail(key, "%s: %s", what, status_name(st));
    else if ((u64)aitisa_tensor_size(out) != want_n) fail(key, "%s: %lld elements in the result, expected %llu", what, (long long)aitisa_tensor_size(out), (unsigned long long)want_n);
    else {
      const u8 *q = (const u8 *)aitisa_tensor_data(out), *p = (const u8 *)aitisa_tensor_data(t);
      u64 bad = 0, zeros = 0;
      bool found = false;
      if (want_n == 1 && n > 1) {
        if (q[0] != ones) fail(key, "%s: %u, expected %u", what, q[0], ones);
        count("very large contractions");
      } else for (u64 i = 0; i < want_n; i++) {
        u8 x = big_elem(off + i * by), w = x;
        bool ok;
        switch (op) {
          case K_RELU: w = (int8_t)x > 0 ? x : 0; ok = q[i] == w; break;
          case K_ADD: w = (u8)(x + x); ok = dt == I8 && ((int8_t)x > 63 || (int8_t)x < -64) ? true : q[i] == w; break;
          case K_SUB: w = 0; ok = q[i] == w; break;
          case K_MUL: w = (u8)(x * x); ok = dt == I8 && ((int8_t)x > 11 || (int8_t)x < -11) ? true : q[i] == w; break;
          case K_DIV: w = 1; ok = q[i] == w; break;
          case K_DROPOUT: ok = q[i] == x || q[i] == 0; zeros += q[i] == 0; break;
          default: ok = q[i] == w; break;
        }
        if (!ok && !found) { found = true; bad = i; }
      }
      count("elements compared", want_n);
      if (found) fail(key, "%s: element %llu is wrong", what, (unsigned long long)bad);
      else if (op == K_DROPOUT) {
        ld share = (ld)zeros / n;   // 1/256 of the elements are zero anyway
        if (fabsl(share - (0.5L + 0.5L / 256)) > 0.01L) fail(key, "%s: share of zeroes %Lf", what, share);
      }
    }
    if (st == STATUS_SUCCESS) discard(out);
    aitisa_destroy(&t);
  }
done:
  mem::limit = limit;
  mem::huge_ok = huge;
  mem::poison = poison;
}
// Large floating tensors: the elements come from a small table of values, so the
// expectation of every element is that of the table.
static void settle(TV &v) { v.data.assign((size_t)v.count() * kSize[v.dt], 0); }
static ld get_any(int dt, const void *p, u64 i) {
  ld r = 0;
  VF_DISPATCH(dt, E, r = (ld)((const E *)p)[i]);
  return r;
}
static void set_any(int dt, void *p, u64 i, ld x) { VF_DISPATCH(dt, E, ((E *)p)[i] = (E)x); }
static inline unsigned slot(u64 i) { return (unsigned)((i * 0x9E3779B97F4A7C15ull) >> 58); }  // 0 .. 63
static Tensor filled(const std::vector<i64> &d, int dt, const ld *table) {
  Device dev = {DEVICE_CPU, 0};
  Tensor t = NULL;
  if (aitisa_create(kDT[dt], dev, (i64 *)d.data(), (i64)d.size(), NULL, 0, &t) != STATUS_SUCCESS || !t) return NULL;
  u64 n = (u64)aitisa_tensor_size(t);
  void *p = aitisa_tensor_data(t);
  VF_DISPATCH(dt, E, E tab[64]; for (int k = 0; k < 64; k++) tab[k] = (E)table[k]; for (u64 i = 0; i < n; i++) ((E *)p)[i] = tab[slot(i)]);
  return t;
}
static void float_case(Src &s, int op, u64 n) {
  patience(3);
  u64 limit = mem::limit;
  int poison = mem::poison;
  bool huge = mem::huge_ok;
  mem::limit = (u64)20 << 30;
  mem::huge_ok = true;
  mem::poison = mem::P_NONE;
  int dt = s.chance(70) ? F32 : F64;
  char what[300], key[60];
  snprintf(key, sizeof key, "%s/large", kOpName[op]);
  Tensor t = NULL, out = kSentinel;
  Tensor par[4] = {NULL, NULL, NULL, NULL};
  ld table[64];
  std::vector<i64> d;
  Status st = STATUS_INTERNAL_ERROR;
  bool bad = false;
  u64 at = 0;
  ld got = 0, want = 0;
#define CHECK(i, x, w, tl) do { ld g_ = (x), w_ = (w); if (!(fabsl(g_ - w_) <= (tl)) && !bad) { bad = true; at = (i); got = g_; want = w_; } } while (0)
  if (op == K_SIGMOID || op == K_TANH || op == K_SQRT || op == K_RELU) {
    for (int k = 0; k < 64; k++) table[k] = (ld)s.range(op == K_SQRT ? 0 : -9000, 9000) / 1000.0L;
    d.assign((size_t)s.range(1, 3), 1);
    d[s.below(d.size())] = (i64)n;
    t = filled(d, dt, table);
    snprintf(what, sizeof what, "%s of %llu %s elements", kOpName[op], (unsigned long long)n, kName[dt]);
    Call c;
    c.op = op;
    TV v;
    v.dt = dt;
    v.dims.assign(1, 64);
    settle(v);
    for (int k = 0; k < 64; k++) set_any(dt, v.data.data(), k, table[k]);
    c.t.push_back(v);
    c.nargs = 1;
    Exp e;
    classify(c, e);
    expect_values(c, e);
    if (t) st = op == K_SIGMOID ? aitisa_sigmoid(t, &out) : op == K_TANH ? aitisa_tanh(t, &out) : op == K_SQRT ? aitisa_sqrt(t, &out) : aitisa_relu(t, &out);
    if (t && st == STATUS_SUCCESS && (u64)aitisa_tensor_size(out) == n) {
      const void *q = aitisa_tensor_data(out);
      ld ref[64], tol[64];
      for (int k = 0; k < 64; k++) {
        ref[k] = e.cmp == CMP_TOL ? e.ref[k] : get_any(dt, e.bits.data(), k);
        tol[k] = e.cmp == CMP_TOL ? e.tol[k] : 0;
      }
      VF_DISPATCH(dt, E, for (u64 i = 0; i < n; i++) CHECK(i, (ld)((const E *)q)[i], ref[slot(i)], tol[slot(i)]));
      count("elements compared", n);
    }
  } else if (op == K_SOFTMAX) {
    for (int k = 0; k < 64; k++) table[k] = -(ld)s.below(200) / 100.0L;
    i64 inner = s.chance(50) ? 1 : 3, outer = s.chance(60) ? 1 : 2;
    i64 len = (i64)n;                       // along the axis
    int axis = 1;
    d.push_back(outer); d.push_back(len); d.push_back(inner);
    if (s.chance(35)) { axis = -1; outer = inner = 1; d.assign(1, len); }
    else if (outer == 1 && inner == 1 && s.chance(50)) { axis = 0; d.assign(1, len); }
    t = filled(d, dt, table);
    snprintf(what, sizeof what, "softmax along axis %d, %lld %s elements long", axis, (long long)len, kName[dt]);
    if (t) st = aitisa_softmax(t, axis, &out);
    if (t && st == STATUS_SUCCESS && aitisa_tensor_size(out) == aitisa_tensor_size(t)) {
      const void *q = aitisa_tensor_data(out);
      ld ex[64];
      for (int k = 0; k < 64; k++) ex[k] = expl(dt == F32 ? (ld)(float)table[k] : (ld)(double)table[k]);
      for (i64 a = 0; a < outer; a++)
        for (i64 b = 0; b < inner; b++) {
          u64 cnt[64] = {0};
          ld S = 0, w[64];
          for (i64 i = 0; i < len; i++) cnt[slot((u64)((a * len + i) * inner + b))]++;
          for (int k = 0; k < 64; k++) S += (ld)cnt[k] * ex[k];
          for (int k = 0; k < 64; k++) w[k] = ex[k] / S;
          VF_DISPATCH(dt, E, for (i64 i = 0; i < len; i++) { u64 at_ = (u64)((a * len + i) * inner + b); ld r = w[slot(at_)]; CHECK(at_, (ld)((const E *)q)[at_], r, r * 1e-4L); });
        }
      count("elements compared", (u64)aitisa_tensor_size(t));
    }
  } else if (op == K_BN) {
    int C = (int)s.range(1, 3);
    bool last = s.chance(40);
    for (int k = 0; k < 64; k++) table[k] = (ld)s.range(-900, 900) / 100.0L;
    n >>= 2;
    if (last) { n >>= 7; d.push_back((i64)(n / C)); d.push_back(C); }   // many small samples
    else { d.push_back(s.range(1, 2)); d.push_back(C); d.push_back((i64)(n / C)); }
    t = filled(d, dt, table);
    std::vector<i64> pd(1, C);
    ld pv[4][4];
    for (int k = 0; k < 4; k++) {
      Device dev = {DEVICE_CPU, 0};
      if (aitisa_create(kDT[dt], dev, pd.data(), 1, NULL, 0, &par[k]) != STATUS_SUCCESS) { par[k] = NULL; break; }
      for (int c = 0; c < C; c++) { ld x = (ld)s.range(k == 3 ? 100 : -300, 300) / 64.0L; pv[k][c] = x; set_any(dt, aitisa_tensor_data(par[k]), c, x); }
    }
    snprintf(what, sizeof what, "batch_norm of %llu %s elements, %d channels on axis %d", (unsigned long long)n, kName[dt], C, 1);
    if (t && par[3]) st = aitisa_batch_norm(t, 1, par[0], par[1], par[2], par[3], 1e-5, &out);
    if (t && par[3] && st == STATUS_SUCCESS && aitisa_tensor_size(out) == aitisa_tensor_size(t)) {
          ld ref[4][64], tol[4][64];
      for (int c = 0; c < C; c++) {
        Call b;
        b.op = K_BN; b.axis = 1; b.d = 1e-5; b.nargs = 5;
        TV v;
        v.dt = dt;
        v.dims.push_back(64); v.dims.push_back(1);
        settle(v);
        for (int k = 0; k < 64; k++) set_any(dt, v.data.data(), k, table[k]);
        b.t.push_back(v);
        for (int k = 0; k < 4; k++) { TV p; p.dt = dt; p.dims.assign(1, 1); settle(p); set_any(dt, p.data.data(), 0, pv[k][c]); b.t.push_back(p); b.arg[k + 1] = k + 1; }
        Exp e;
        classify(b, e);
        expect_values(b, e);
        for (int k = 0; k < 64; k++) { ref[c][k] = e.ref[k]; tol[c][k] = e.tol[k]; }
      }
      const void *q = aitisa_tensor_data(out);
      u64 N = (u64)aitisa_tensor_size(t), in = last ? 1 : (u64)d[2];
      VF_DISPATCH(dt, E, for (u64 i = 0; i < N; i++) { int c = (int)(i / in % C); CHECK(i, (ld)((const E *)q)[i], ref[c][slot(i)], tol[c][slot(i)]); });
      count("elements compared", N);
    }
  } else {                                  // one long spatial dimension
    bool far = n >> 31;
    if (op != K_POOL) dt = F32;
    else if (far || s.chance(40)) dt = (int)s.range(I8, U8);
    else dt = s.chance(50) ? F32 : I32;
    for (int k = 0; k < 64; k++) table[k] = (ld)s.range(0, 9);
    int sd = op == K_CONV2D ? 2 : op == K_CONV3D ? 3 : op == K_POOL ? (int)s.range(1, 3) : 1, at_dim = (int)s.below(sd);
    if (far || s.chance(50)) d.push_back(1); else d.push_back(2);
    d.push_back(1);
    for (int i = 0; i < sd; i++) d.push_back(i == at_dim ? (i64)(n / d[0]) : 1);
    t = filled(d, dt, table);
    int K = (int)s.range(2, 4), stride = far ? (int)s.range(3000, 5000) : (int)s.range(1, 3), dil = (int)s.range(1, 2), pad = (int)s.below(2);
    bool max = s.chance(50);
    std::vector<int> ks(sd, 1), ss(sd, 1), ps(sd, 0), ds(sd, 1);
    ks[at_dim] = K; ss[at_dim] = stride; ps[at_dim] = pad; ds[at_dim] = dil;
    std::vector<i64> fd(2, 1);
    for (int i = 0; i < sd; i++) fd.push_back(i == at_dim ? K : 1);
    i64 len = d[2 + at_dim], outlen = (len + 2 * pad - (dil * (K - 1) + 1)) / stride + 1;
    snprintf(what, sizeof what, "%s%s over a %s dimension of %lld, kernel %d, stride %d, padding %d, dilation %d, %d samples", kOpName[op], op != K_POOL ? "" : max ? " (max)" : " (avg)", kName[dt], (long long)len, K, stride, pad, dil, (int)d[0]);
    ld wt[4];
    for (int k = 0; k < K; k++) wt[k] = (ld)s.range(0, 3);
    if (op == K_POOL) { if (t) st = aitisa_pooling(t, max ? "max" : "avg", ks.data(), ss.data(), ps.data(), ds.data(), &out); }
    else {
      Device dev = {DEVICE_CPU, 0};
      if (aitisa_create(kDT[dt], dev, fd.data(), (i64)fd.size(), NULL, 0, &par[0]) != STATUS_SUCCESS) par[0] = NULL;
      else for (int k = 0; k < K; k++) set_any(dt, aitisa_tensor_data(par[0]), k, wt[k]);
      if (t && par[0]) st = op == K_CONV2D ? aitisa_conv2d(t, par[0], ss.data(), sd, ps.data(), sd, ds.data(), sd, 1, &out)
                          : op == K_CONV3D ? aitisa_conv3d(t, par[0], ss.data(), sd, ps.data(), sd, ds.data(), sd, 1, &out)
                                           : aitisa_conv(t, par[0], ss.data(), ps.data(), ds.data(), 1, &out);
    }
    if (t && st == STATUS_SUCCESS) {
      if (aitisa_tensor_size(out) != outlen * d[0]) { CHECK(0, (ld)aitisa_tensor_size(out), (ld)outlen * d[0], 0); }
      else {
        const void *q = aitisa_tensor_data(out);
        for (i64 b = 0; b < d[0]; b++)
          for (i64 o = 0; o < outlen; o++) {
            ld r = max && op == K_POOL ? -1e30L : 0;
            for (int k = 0; k < K; k++) {
              i64 x = o * stride - pad + (i64)k * dil;
              ld v = x < 0 || x >= len ? 0 : table[slot((u64)(b * len + x))];  // padding counts as zero
              if (op != K_POOL) r += v * wt[k]; else if (max) r = v > r ? v : r; else r += v;
            }
            if (op == K_POOL && !max) { r /= K; if (!is_float(dt)) r = truncl(r); }
            CHECK((u64)(b * outlen + o), get_any(dt, q, (u64)(b * outlen + o)), r, is_float(dt) ? 1e-5L * (1 + r) : 0);
          }
        count("elements compared", (u64)(outlen * d[0]));
      }
    }
  }
#undef CHECK
  if (!t || st == STATUS_ALLOC_FAILED) count("very large tensors refused for lack of memory");
  else {
    note_sig(mix(n * 31 + (u64)op * 7 + 1), true);
    count("very large tensors");
    if (st != STATUS_SUCCESS) fail(key, "%s: %s", what, status_name(st));
    else if (op != K_POOL && op != K_CONV && op != K_CONV2D && op != K_CONV3D && aitisa_tensor_size(out) != aitisa_tensor_size(t)) fail(key, "%s: another number of elements", what);
    else if (bad) fail(key, "%s: element %llu is %.9Lg, expected %.9Lg", what, (unsigned long long)at, got, want);
  }
  if (st == STATUS_SUCCESS) discard(out);
  if (t) aitisa_destroy(&t);
  for (int k = 0; k < 4; k++) if (par[k]) aitisa_destroy(&par[k]);
  mem::limit = limit;
  mem::huge_ok = huge;
  mem::poison = poison;
}
// Byte counts beyond 32 bits: tensors of wide elements, nearly all of them zero,
// so that the operand takes no memory and the result is judged in one scan.
typedef std::vector<std::pair<u64, ld> > Marks;     // ascending positions
static Tensor sparse(Src &s, const std::vector<i64> &d, int dt, Marks &m, i64 lo, i64 hi) {
  Device dev = {DEVICE_CPU, 0};
  Tensor t = NULL;
  if (aitisa_create(kDT[dt], dev, (i64 *)d.data(), (i64)d.size(), NULL, 0, &t) != STATUS_SUCCESS || !t) return NULL;
  u64 n = (u64)aitisa_tensor_size(t), wrap = ((u64)1 << 32) / kSize[dt];
  std::vector<u64> at;
  at.push_back(0); at.push_back(1); at.push_back(n - 1); at.push_back(n - 2);
  if (n > wrap) { at.push_back(wrap - 1); at.push_back(wrap); at.push_back(n - 1 - wrap); }
  if (n > wrap / 2) { at.push_back(wrap / 2 - 1); at.push_back(wrap / 2); }
  for (int i = 0; i < 40; i++) at.push_back(s.below(n));
  for (int i = 0; i < 10 && n > wrap; i++) at.push_back(wrap + s.below(n - wrap));
  std::sort(at.begin(), at.end());
  at.erase(std::unique(at.begin(), at.end()), at.end());
  for (size_t i = 0; i < at.size(); i++) {
    ld v = (ld)s.range(lo, hi);
    if (v == 0) v = (ld)hi;
    set_any(dt, aitisa_tensor_data(t), at[i], v);
    m.push_back(std::make_pair(at[i], v));
  }
  return t;
}
// every element of q equals `rest`, but for the marked ones
static bool matches(const void *q, u64 n, int dt, const Marks &m, ld rest, ld tol, u64 *at, ld *got, ld *want) {
  u64 i = 0;
  size_t k = 0;
  while (i < n) {
    u64 end = k < m.size() ? m[k].first : n;
    bool ok = true;
    VF_DISPATCH(dt, E, const E *p = (const E *)q; const E r = (E)rest;
      if (tol == 0) { for (; i < end; i++) if (p[i] != r) { ok = false; break; } }
      else for (; i < end; i++) if (!(fabs((double)p[i] - (double)r) <= (double)tol)) { ok = false; break; });
    if (!ok) { *at = i; *got = get_any(dt, q, i); *want = rest; return false; }
    if (i < n) {
      ld g = get_any(dt, q, i), w = m[k].second;
      if (!(fabsl(g - w) <= tol)) { *at = i; *got = g; *want = w; return false; }
      i++; k++;
    }
  }
  return true;
}
static void wide_case(Src &s, int op) {
  // one such case at a time, whatever the number of processes at work
  int turn = open("/proc/self/exe", O_RDONLY | O_CLOEXEC);
  patience(1000);              // waits for the others
  if (turn >= 0) flock(turn, LOCK_EX);
  patience(3);
  u64 limit = mem::limit;
  int poison = mem::poison;
  bool huge = mem::huge_ok;
  mem::limit = (u64)80 << 30;
  mem::huge_ok = true;
  mem::poison = mem::P_NONE;
  static const int wide[] = {F64, I64, U64};
  int dt = wide[s.below(3)], odt;
  bool fl = op == K_SIGMOID || op == K_TANH || op == K_SQRT || op == K_SOFTMAX || op == K_BN || op == K_DROPOUT || op == K_POOL;
  if (fl) dt = F64;
  if (op == K_CONV || op == K_CONV2D || op == K_CONV3D) dt = F32;
  odt = dt;
  u64 n = ((u64)1 << 32) / kSize[dt] + 3000 + s.below(5000);
  if (op == K_CAST && s.chance(50)) dt = I8;       // only the result is beyond 32 bits
  std::vector<i64> d(1, (i64)n), e;
  int rank = op == K_DOT || op == K_MATMUL ? 1 : op == K_SLICE ? 2 : (int)s.range(op == K_BN ? 2 : 1, 3);
  if (rank == 2) { d[0] = (i64)1 << 15; d.push_back((i64)(n >> 15) + 1); }
  if (rank == 3) { i64 o = op == K_BN ? 64 : 3, c = op == K_BN ? 4 : 1; d[0] = o; d.push_back(c); d.push_back((i64)n / o / c + 1); }
  bool conv = op == K_POOL || op == K_CONV || op == K_CONV2D || op == K_CONV3D;
  int sd = 0;
  if (conv) {
    sd = op == K_CONV2D ? 2 : op == K_CONV3D ? 3 : 1;
    d.assign(2 + sd, 1);
    d[0] = s.range(1, 2);
    d[1 + sd] = (i64)n / d[0];
  }
  n = 1;
  for (size_t i = 0; i < d.size(); i++) n *= (u64)d[i];
  Tensor t[2] = {NULL, NULL}, out = kSentinel, par[4] = {NULL, NULL, NULL, NULL};
  int axis = op != K_SOFTMAX || s.chance(50) ? -1 : (int)d.size() - 1;
  Marks m[2], want;
  char what[200], key[60];
  snprintf(what, sizeof what, "%s of a %s tensor of %llu elements, rank %d", kOpName[op], kName[dt], (unsigned long long)n, (int)d.size());
  snprintf(key, sizeof key, "%s/beyond-4-GiB", kOpName[op]);
  bool two = op == K_ADD || op == K_SUB || op == K_MUL || op == K_DIV || op == K_DOT || op == K_MATMUL;
  t[0] = sparse(s, d, dt, m[0], op == K_RELU && dt != U64 ? -100 : 1, op == K_SOFTMAX ? 9 : 100);
  bool made = t[0] != NULL;
  if (made && two) {
    t[1] = sparse(s, d, dt, m[1], 1, 100);
    made = t[1] != NULL;
    if (made && op == K_DIV) {
      void *p = aitisa_tensor_data(t[1]);
      VF_DISPATCH(dt, E, for (u64 i = 0; i < n; i++) ((E *)p)[i] = 1);
      for (size_t i = 0; i < m[1].size(); i++) set_any(dt, p, m[1][i].first, m[1][i].second);
    }
  }
  Status st = STATUS_INTERNAL_ERROR;
  ld rest = 0, tol = 0;
  u64 want_n = n;
  std::vector<i64> wd = d;
  if (made) {
    want = m[0];
    switch (op) {
      case K_DUP: st = aitisa_duplicate(t[0], &out); break;
      case K_RESHAPE: {
        wd.assign(1, (i64)n);
        if (s.chance(50)) { i64 f = 2; while (n % (u64)f) f++; if ((u64)f < n) { wd[0] = f; wd.push_back((i64)n / f); } }
        st = aitisa_reshape(t[0], wd.data(), (i64)wd.size(), &out);
        break;
      }
      case K_SQUEEZE: {
        i64 ax = rank == 3 ? 1 : 0;
        if (rank == 3) wd.erase(wd.begin() + 1);
        st = aitisa_squeeze(t[0], &ax, 1, &out);
        break;
      }
      case K_SLICE: {
        int b[2] = {(int)s.below(3), (int)s.below(3)}, z[2], q[2] = {(int)s.range(1, 2), 1};
        for (int i = 0; i < 2; i++) { z[i] = (int)d[i] - b[i]; wd[i] = (z[i] + q[i] - 1) / q[i]; }
        want_n = (u64)(wd[0] * wd[1]);
        want.clear();
        for (size_t i = 0; i < m[0].size(); i++) {
          i64 x = (i64)m[0][i].first / d[1] - b[0], y = (i64)m[0][i].first % d[1] - b[1];
          if (x >= 0 && y >= 0 && x % q[0] == 0) want.push_back(std::make_pair((u64)(x / q[0] * wd[1] + y), m[0][i].second));
        }
        st = aitisa_slice(t[0], b, z, q, &out);
        break;
      }
      case K_CAST: st = aitisa_cast(t[0], kDT[odt], &out); break;
      case K_RELU:
        for (size_t i = 0; i < want.size(); i++) if (want[i].second < 0) want[i].second = 0;
        st = aitisa_relu(t[0], &out);
        break;
      case K_SIGMOID: case K_TANH: case K_SQRT:
        tol = 1e-5L;
        rest = op == K_SIGMOID ? 0.5L : 0;
        for (size_t i = 0; i < want.size(); i++) {
          ld x = want[i].second;
          want[i].second = op == K_SIGMOID ? 1 / (1 + expl(-x)) : op == K_TANH ? tanhl(x) : sqrtl(x);
        }
        st = op == K_SIGMOID ? aitisa_sigmoid(t[0], &out) : op == K_TANH ? aitisa_tanh(t[0], &out) : aitisa_sqrt(t[0], &out);
        break;
      case K_DROPOUT:                               // the kept value: each is itself or zero
        st = aitisa_dropout(t[0], 0.5, &out);
        if (st == STATUS_SUCCESS && (u64)aitisa_tensor_size(out) == n)
          for (size_t i = 0; i < want.size(); i++) if (get_any(dt, aitisa_tensor_data(out), want[i].first) == 0) want[i].second = 0;
        break;
      case K_ADD: case K_SUB: case K_MUL: case K_DIV: {
        std::vector<u64> at;
        for (int k = 0; k < 2; k++) for (size_t i = 0; i < m[k].size(); i++) at.push_back(m[k][i].first);
        std::sort(at.begin(), at.end());
        at.erase(std::unique(at.begin(), at.end()), at.end());
        want.clear();
        for (size_t i = 0; i < at.size(); i++) {
          ld x = get_any(dt, aitisa_tensor_data(t[0]), at[i]), y = get_any(dt, aitisa_tensor_data(t[1]), at[i]), r;
          if (op == K_SUB && dt == U64 && y > x) { set_any(dt, aitisa_tensor_data(t[0]), at[i], y); x = y; }
          if (op == K_DIV) { if (is_float(dt)) r = (ld)((double)x / (double)y); else r = truncl(x / y); }
          else r = op == K_ADD ? x + y : op == K_SUB ? x - y : x * y;
          want.push_back(std::make_pair(at[i], r));
        }
        st = op == K_ADD ? aitisa_add(t[0], t[1], &out) : op == K_SUB ? aitisa_sub(t[0], t[1], &out)
           : op == K_MUL ? aitisa_mul(t[0], t[1], &out) : aitisa_div(t[0], t[1], &out);
        break;
      }
      case K_DOT: case K_MATMUL: {
        ld r = 0;
        for (size_t i = 0; i < m[0].size(); i++) r += m[0][i].second * get_any(dt, aitisa_tensor_data(t[1]), m[0][i].first);
        want.assign(1, std::make_pair((u64)0, r));
        want_n = 1;
        st = op == K_DOT ? aitisa_dot(t[0], t[1], &out) : aitisa_matmul(t[0], t[1], &out);
        wd.clear();
        break;
      }
      case K_SOFTMAX: {
        st = aitisa_softmax(t[0], axis, &out);
        break;
      }
      case K_BN: {                                  // y = (x - mean) / sqrt(variance + 0) * scale + bias
        Device dev = {DEVICE_CPU, 0};
        i64 c = d[1];
        std::vector<ld> a, b;
        for (int k = 0; k < 4; k++) if (aitisa_create(kDT[dt], dev, &c, 1, NULL, 0, &par[k]) != STATUS_SUCCESS) par[k] = NULL;
        if (!par[0] || !par[1] || !par[2] || !par[3]) { st = STATUS_ALLOC_FAILED; break; }
        for (i64 i = 0; i < c; i++) {               // the order of the parameters: scale, shift, mean, variance
          ld v[4] = {(ld)s.range(1, 9), 0, 0, 4};
          for (int k = 0; k < 4; k++) set_any(dt, aitisa_tensor_data(par[k]), (u64)i, v[k]);
          a.push_back(v[0] / 2);
        }
        tol = 1e-6L;
        u64 in = n / (u64)(d[0] * d[1]);
        for (size_t i = 0; i < want.size(); i++) want[i].second *= a[(size_t)(want[i].first / in % (u64)c)];
        st = aitisa_batch_norm(t[0], 1, par[0], par[1], par[2], par[3], 0, &out);
        break;
      }
      default: {                                    // one long spatial dimension, sampled sparsely
        int K = (int)s.range(2, 4), stride = (int)s.range(3000, 5000);
        i64 len = d[1 + sd], outlen = (len - K) / stride + 1;
        std::vector<int> ks(sd, 1), ss(sd, 1), ps(sd, 0), ds(sd, 1);
        ks[sd - 1] = K; ss[sd - 1] = stride;
        ld w[4] = {1, 1, 1, 1};
        for (i64 o = outlen - 1; o >= 0 && o > outlen - 40; o--)   // far windows hold something to see
          for (int k = 0; k < K; k++) set_any(dt, aitisa_tensor_data(t[0]), (u64)(d[0] - 1) * (u64)len + (u64)(o * stride + k), (ld)s.range(1, 9));
        if (op == K_POOL) st = aitisa_pooling(t[0], "avg", ks.data(), ss.data(), ps.data(), ds.data(), &out);
        else {
          std::vector<i64> fd(2 + sd, 1);
          fd[1 + sd] = K;
          Device dev = {DEVICE_CPU, 0};
          if (aitisa_create(kDT[dt], dev, fd.data(), (i64)fd.size(), NULL, 0, &t[1]) != STATUS_SUCCESS) t[1] = NULL;
          else {
            for (int k = 0; k < K; k++) set_any(dt, aitisa_tensor_data(t[1]), k, w[k] = (ld)s.range(1, 3));
            st = op == K_CONV2D ? aitisa_conv2d(t[0], t[1], ss.data(), sd, ps.data(), sd, ds.data(), sd, 1, &out)
               : op == K_CONV3D ? aitisa_conv3d(t[0], t[1], ss.data(), sd, ps.data(), sd, ds.data(), sd, 1, &out)
                                : aitisa_conv(t[0], t[1], ss.data(), ps.data(), ds.data(), 1, &out);
          }
        }
        wd[1 + sd] = outlen;
        want_n = (u64)(outlen * d[0]);
        tol = 1e-4L;
        want.clear();
        for (u64 o = 0; o < want_n; o++) {
          ld r = 0;
          u64 base = o / (u64)outlen * (u64)len + o % (u64)outlen * (u64)stride;
          for (int k = 0; k < K; k++) r += w[k] * get_any(dt, aitisa_tensor_data(t[0]), base + k);
          want.push_back(std::make_pair(o, op == K_POOL ? r / K : r));
        }
      }
    }
  }
  if (!made || st == STATUS_ALLOC_FAILED) count("very large tensors refused for lack of memory");
  else {
    note_sig(mix(n * 31 + (u64)op * 7 + 3), true);
    count("tensors beyond 4 GiB");
    bool dims_ok = st == STATUS_SUCCESS && aitisa_tensor_ndim(out) == (i64)wd.size();
    for (size_t i = 0; dims_ok && i < wd.size(); i++) dims_ok = aitisa_tensor_dim(out, (i64)i) == wd[i];
    if (st != STATUS_SUCCESS) fail(key, "%s: %s", what, status_name(st));
    else if ((u64)aitisa_tensor_size(out) != want_n) fail(key, "%s: %lld elements in the result, expected %llu", what, (long long)aitisa_tensor_size(out), (unsigned long long)want_n);
    else if (!dims_ok && op != K_SQUEEZE && op != K_DOT && op != K_MATMUL) fail(key, "%s: extents of the result", what);
    else {
      u64 at = 0;
      ld got = 0, exp_ = 0;
      bool ok = true;
      if (op == K_SOFTMAX) {                        // line by line
        u64 L = axis < 0 ? n : (u64)d.back();
        size_t k = 0;
        for (u64 b = 0; ok && b < n; b += L) {
          Marks line;
          ld S = 0;
          for (; k < m[0].size() && m[0][k].first < b + L; k++) line.push_back(std::make_pair(m[0][k].first - b, expl(m[0][k].second)));
          S = (ld)(L - line.size());
          for (size_t j = 0; j < line.size(); j++) S += line[j].second;
          for (size_t j = 0; j < line.size(); j++) line[j].second /= S;
          ok = matches((const double *)aitisa_tensor_data(out) + b, L, odt, line, 1 / S, 1e-4L / S, &at, &got, &exp_);
          at += b;
        }
      } else ok = matches(aitisa_tensor_data(out), want_n, odt, want, rest, tol, &at, &got, &exp_);
      if (!ok) fail(key, "%s: element %llu is %.9Lg, expected %.9Lg", what, (unsigned long long)at, got, exp_);
      count("elements compared", want_n);
    }
  }
  if (st == STATUS_SUCCESS) discard(out);
  for (int k = 0; k < 2; k++) if (t[k]) aitisa_destroy(&t[k]);
  for (int k = 0; k < 4; k++) if (par[k]) aitisa_destroy(&par[k]);
  mem::limit = limit;
  mem::huge_ok = huge;
  mem::poison = poison;
  if (turn >= 0) close(turn);
}
static bool large_float(Src &s, const int *all, int n_all) {
  int ops[8], nops = 0;
  for (int i = 0; i < n_all && nops < 8; i++)
    switch (all[i]) {
      case K_SIGMOID: case K_TANH: case K_SQRT: case K_RELU: case K_SOFTMAX: case K_BN: case K_POOL:
      case K_CONV: case K_CONV2D: case K_CONV3D: ops[nops++] = all[i]; break;
    }
  if (!nops) return false;
  u64 k = g_case % 10000;
  if (k == 3210 || (g_tier && k % 1000 == 210)) {
    int op = ops[s.below(nops)];
    u64 n = ((u64)1 << 24) + s.below(100000);
    if (op == K_SOFTMAX) n += (u64)1 << (g_tier ? 24 : 22);
    if (op == K_CONV || op == K_CONV2D || op == K_CONV3D) n /= g_tier ? 1 : 4;
    float_case(s, op, n);
    return true;
  }
#ifndef VF_ASAN
  if (ops[0] == K_POOL && g_tier && g_case == 41) { big_case(s, K_POOL, ((u64)1 << 31) + 9); return true; }
  if (ops[0] == K_POOL && (g_case == 40 || (g_tier && k == 40))) {
    float_case(s, ops[s.below(nops)], ((u64)1 << 31) + 50000 + s.below(100000));
    return true;
  }
#endif
  return false;
}
// Extents beyond int in operators that pass extents on to slice.  The buffers
// are reserved, not touched: zeroes read from them take no memory.
static void beyond_int(int form) {
  patience(3);
  u64 limit = mem::limit;
  int poison = mem::poison;
  bool huge = mem::huge_ok;
  mem::limit = (u64)80 << 30;
  mem::huge_ok = true;
  mem::poison = mem::P_NONE;
  const i64 n = ((i64)1 << 31) + 3;
  Device dev = {DEVICE_CPU, 0};
  Tensor t[2] = {NULL, NULL}, out = kSentinel;
  Status st = STATUS_INTERNAL_ERROR;
  i64 a[3] = {1, form ? 1 : n, n}, b[3] = {form ? 1 : n, n, 1};
  bool made = aitisa_create(kUint8, dev, a, form ? 3 : 2, NULL, 0, &t[0]) == STATUS_SUCCESS &&
              aitisa_create(kUint8, dev, b, form ? 3 : 1, NULL, 0, &t[1]) == STATUS_SUCCESS;
  if (made) {
    u8 *x = (u8 *)aitisa_tensor_data(t[0]), *y = (u8 *)aitisa_tensor_data(t[1]);
    x[5] = 7; y[5] = 2; x[n - 1] = 3; y[n - 1] = 5; x[n - 2] = 9;
    st = aitisa_dot(t[0], t[1], &out);
  }
  char key[60];
  snprintf(key, sizeof key, "dot/extent-beyond-int-%s", form ? "multidim" : "tensor-vector");
  if (!made || st == STATUS_ALLOC_FAILED) count("very large tensors refused for lack of memory");
  else {
    note_sig(mix((u64)form + 12345), true);
    count("very large tensors");
    if (st != STATUS_SUCCESS) fail(key, "dot with an extent of 2^31+3 is rejected: %s", status_name(st));
    else if (*(const u8 *)aitisa_tensor_data(out) != 29) fail(key, "dot over an extent of 2^31+3 is %u instead of 29", *(const u8 *)aitisa_tensor_data(out));
  }
  if (st == STATUS_SUCCESS) discard(out);
  for (int k = 0; k < 2; k++) if (t[k]) aitisa_destroy(&t[k]);
  mem::limit = limit;
  mem::huge_ok = huge;
  mem::poison = poison;
}
// products whose single matrices have more elements than 31 (or 32) bits count:
// [na, K] x [K, nb] with everything zero but a few elements, in every
// arrangement of the ranks
static void deep_product(Src &s, int op, int form) {
  patience(4);
  u64 limit = mem::limit;
  int poison = mem::poison;
  bool huge = mem::huge_ok;
  mem::limit = (u64)80 << 30;
  mem::huge_ok = true;
  mem::poison = mem::P_NONE;
  Device dev = {DEVICE_CPU, 0};
  const i64 K = op == K_DOT ? ((i64)1 << 30) + 3 + (i64)s.below(50) : ((i64)1 << 31) + 3 + (i64)s.below(50);
  static const struct { int ra; i64 a[3]; int rb; i64 b[3]; } mm[] = {   // 0 stands for K
      {3, {2, 1, 0}, 2, {0, 1}}, {3, {2, 1, 0}, 1, {0}}, {1, {0}, 3, {2, 0, 1}}, {2, {1, 0}, 3, {2, 0, 1}},
      {2, {2, 0}, 1, {0}}, {2, {2, 0}, 2, {0, 1}}, {2, {1, 0}, 2, {0, 2}}, {1, {0}, 2, {0, 2}}};
  static const struct { int ra; i64 a[3]; int rb; i64 b[3]; } dd[] = {
      {2, {3, 0}, 1, {0}}, {3, {3, 1, 0}, 1, {0}}, {2, {3, 0}, 2, {0, 1}}, {2, {1, 0}, 2, {0, 3}}};
  i64 a[3], b[3];
  int ra = op == K_DOT ? dd[form].ra : mm[form].ra, rb = op == K_DOT ? dd[form].rb : mm[form].rb;
  for (int i = 0; i < 3; i++) {
    a[i] = op == K_DOT ? dd[form].a[i] : mm[form].a[i];
    b[i] = op == K_DOT ? dd[form].b[i] : mm[form].b[i];
    if (a[i] == 0) a[i] = K;
    if (b[i] == 0) b[i] = K;
  }
  Tensor x = NULL, y = NULL, out = kSentinel;
  bool made = aitisa_create(kUint8, dev, a, ra, NULL, 0, &x) == STATUS_SUCCESS && aitisa_create(kUint8, dev, b, rb, NULL, 0, &y) == STATUS_SUCCESS;
  Status st = STATUS_INTERNAL_ERROR;
  i64 na = 1, nb = 1;
  u8 want[8] = {0};
  if (made) {
    na = aitisa_tensor_size(x) / K;
    nb = aitisa_tensor_size(y) / K;
    bool columns = rb == 2 && nb > 1;          // [K, nb]; otherwise nb matrices [K, 1]
    u8 *p = (u8 *)aitisa_tensor_data(x), *q = (u8 *)aitisa_tensor_data(y);
    i64 at[6] = {0, 5, (i64)s.below((u64)K), (i64)s.below((u64)K), K - 2, K - 1};
    for (int k = 0; k < 6; k++) {
      for (i64 i = 0; i < na; i++) p[i * K + at[k]] = (u8)s.range(0, 3);
      for (i64 j = 0; j < nb; j++) q[columns ? at[k] * nb + j : j * K + at[k]] = (u8)s.range(0, 3);
    }
    for (i64 i = 0; i < na; i++)
      for (i64 j = 0; j < nb; j++)
        for (int k = 0; k < 6; k++) {
          bool again = false;
          for (int l = 0; l < k; l++) again = again || at[l] == at[k];
          if (!again) want[i * nb + j] += p[i * K + at[k]] * q[columns ? at[k] * nb + j : j * K + at[k]];
        }
    st = op == K_DOT ? aitisa_dot(x, y, &out) : aitisa_matmul(x, y, &out);
  }
  char key[60];
  snprintf(key, sizeof key, "%s/deep-%d", kOpName[op], form);
  if (!made || st == STATUS_ALLOC_FAILED) count("very large tensors refused for lack of memory");
  else {
    note_sig(mix((u64)form + 777), true);
    count("products of matrices beyond 31 bits");
    if (st != STATUS_SUCCESS) fail(key, "%s of rank %d by rank %d over an extent of %lld is rejected: %s", kOpName[op], ra, rb, (long long)K, status_name(st));
    else if (aitisa_tensor_size(out) != na * nb) fail(key, "%s of rank %d by rank %d over an extent of %lld has %lld elements", kOpName[op], ra, rb, (long long)K, (long long)aitisa_tensor_size(out));
    else {
      const u8 *r = (const u8 *)aitisa_tensor_data(out);
      for (i64 i = 0; i < na * nb; i++)
        if (r[i] != want[i]) { fail(key, "%s of rank %d by rank %d over an extent of %lld: element %lld is %u instead of %u", kOpName[op], ra, rb, (long long)K, (long long)i, r[i], want[i]); break; }
    }
  }
  if (st == STATUS_SUCCESS) discard(out);
  if (x) aitisa_destroy(&x);
  if (y) aitisa_destroy(&y);
  mem::limit = limit;
  mem::huge_ok = huge;
  mem::poison = poison;
}
// a result of more than 2^32 elements from two small operands
static void outer_product(Src &s) {
  patience(8);
  u64 limit = mem::limit;
  int poison = mem::poison;
  bool huge = mem::huge_ok;
  mem::limit = (u64)20 << 30;
  mem::huge_ok = true;
  mem::poison = mem::P_NONE;
  Device dev = {DEVICE_CPU, 0};
  i64 M = 46341 + (i64)s.below(30), N = 46341 + (i64)s.below(30), a[3] = {2, M, 1}, b[2] = {1, N};
  Tensor x = NULL, y = NULL, out = kSentinel;
  bool made = aitisa_full(kUint8, dev, a, 3, 0, &x) == STATUS_SUCCESS && aitisa_full(kUint8, dev, b, 2, 0, &y) == STATUS_SUCCESS;
  Status st = STATUS_INTERNAL_ERROR;
  Marks want;
  if (made) {
    u8 *p = (u8 *)aitisa_tensor_data(x), *q = (u8 *)aitisa_tensor_data(y);
    i64 rows[6] = {0, M - 1, M, M + (i64)s.below((u64)M), 2 * M - 2, 2 * M - 1}, cols[4] = {0, 7 + (i64)s.below(30000), N - 2, N - 1};
    for (int k = 0; k < 6; k++) p[rows[k]] = (u8)s.range(1, 9);
    for (int k = 0; k < 4; k++) q[cols[k]] = (u8)s.range(1, 9);
    for (int k = 0; k < 6; k++)
      for (int l = 0; l < 4; l++) want.push_back(std::make_pair((u64)(rows[k] * N + cols[l]), (ld)(p[rows[k]] * q[cols[l]])));
    std::sort(want.begin(), want.end());
    want.erase(std::unique(want.begin(), want.end()), want.end());
    st = aitisa_matmul(x, y, &out);
  }
  if (!made || st == STATUS_ALLOC_FAILED) count("very large tensors refused for lack of memory");
  else {
    note_sig(mix(778), true);
    count("products with more than 2^32 elements");
    u64 at = 0;
    ld got = 0, w = 0;
    if (st != STATUS_SUCCESS) fail("matmul/outer", "matmul of [2,%lld,1] by [1,%lld] is rejected: %s", (long long)M, (long long)N, status_name(st));
    else if (aitisa_tensor_size(out) != 2 * M * N) fail("matmul/outer", "matmul of [2,%lld,1] by [1,%lld] has %lld elements", (long long)M, (long long)N, (long long)aitisa_tensor_size(out));
    else if (!matches(aitisa_tensor_data(out), (u64)(2 * M * N), U8, want, 0, 0, &at, &got, &w))
      fail("matmul/outer", "matmul of [2,%lld,1] by [1,%lld]: element %llu is %Lg instead of %Lg", (long long)M, (long long)N, (unsigned long long)at, got, w);
  }
  if (st == STATUS_SUCCESS) discard(out);
  if (x) aitisa_destroy(&x);
  if (y) aitisa_destroy(&y);
  mem::limit = limit;
  mem::huge_ok = huge;
  mem::poison = poison;
}
// once per shard a tensor beyond 2^24 elements, once per operator one beyond 2^31
// (element-wise arithmetic, which is slow, only in the thorough tier)
static bool large(Src &s, const int *all, int n_all) {
  int ops[8], nops = 0;
  for (int i = 0; i < n_all && nops < 8; i++)
    switch (all[i]) {
      case K_DUP: case K_RESHAPE: case K_SQUEEZE: case K_SLICE: case K_CAST: case K_RELU: case K_DROPOUT:
      case K_ADD: case K_SUB: case K_MUL: case K_DIV: case K_DOT: case K_MATMUL: ops[nops++] = all[i]; break;
    }
#ifndef VF_ASAN
  if (all[0] == K_DOT && (g_case == 31 || g_case == 32)) { beyond_int(g_case == 32); return true; }
  if (all[0] == K_MATMUL && g_case % 20000 == 33 && g_case < 160000) { deep_product(s, K_MATMUL, (int)(g_case / 20000)); return true; }
  if (all[0] == K_MATMUL && g_tier && g_case == 34) { outer_product(s); return true; }
  if (all[0] == K_DOT && g_case % 20000 == 33 && g_case < 80000) { deep_product(s, K_DOT, (int)(g_case / 20000)); return true; }
#endif
#ifndef VF_ASAN
  if (g_case % 10000 == 25 || (g_tier && g_case % 50000 == 26)) {   // the operators in turn, spread over the shards
    int w = (int)(g_case % 10000 == 25 ? g_case / 10000 : g_case / 50000);
    int list[16], nl = 0;
    for (int i = 0; i < n_all && nl < 16; i++) if ((i == 0 || all[i] != all[i - 1]) && all[i] != K_FULL && (g_tier || all[i] != K_BN)) list[nl++] = all[i];
    if (nl && (w < nl || g_tier)) { wide_case(s, list[w % nl]); return true; }
  }
#endif
  if (!nops) return false;
  u64 k = g_case % 10000;
  if (k == 4321) { big_case(s, ops[s.below(nops)], ((u64)1 << 24) + s.below(100000)); return true; }
#ifndef VF_ASAN
  u64 which = k == 20 ? g_case / 10000 : nops;   // spread over the shards
  if (which < (u64)nops && (g_tier || (ops[which] != K_DROPOUT && (ops[which] < K_ADD || ops[which] > K_DIV)))) {
    big_case(s, ops[which], ((u64)1 << 31) + s.below(100));
    return true;
  }
#endif
  return false;
}

// A04: the broadcasting rule, driven directly
static void a04(Src &s) {
  if (s.chance(5)) perturb(s);
  Gen g(s);
  int top = s.chance(95) ? 8 : s.chance(70) ? 40 : 300;   // a rank of a hundred is as legal as one of four
  int n1 = (int)s.below(top + 1), n2 = (int)s.below(top + 1), n = n1 > n2 ? n1 : n2;
  std::vector<i64> a(n1), b(n2);
  for (int i = 0; i < n1 || i < n2; i++) {  // i-th last
    i64 x = s.chance(30) ? 1 : s.chance(60) ? s.range(1, 9) : g.interesting(1, INT64_MAX), y = x;
    int k = (int)s.below(top > 8 ? 10 * (top / 8) : 10);   // long lists: few mismatches in each
    if (k > 9) k = k & 3;
    if (k < 2) x = 1;
    else if (k < 4) y = 1;
    else if (k == 4 && s.chance(25)) y = x == INT64_MAX ? x - 1 : x + 1;
    else if (k == 5 && s.chance(20)) y = s.chance(50) ? 0 : g.interesting(1, INT64_MAX);
    if (k == 6 && s.chance(10)) x = 0, y = s.chance(50) ? 0 : 1;
    if (s.chance(50)) { i64 q = x; x = y; y = q; }
    if (i < n1) a[n1 - 1 - i] = x;
    if (i < n2) b[n2 - 1 - i] = y;
  }
  bool bad = false;
  std::vector<i64> want(n);
  for (int i = 0; i < n; i++) {
    i64 x = i < n1 ? a[n1 - 1 - i] : -1, y = i < n2 ? b[n2 - 1 - i] : -1, r = x;
    if (x < 0) r = y;
    else if (y >= 0 && x != y) {
      if (x != 1 && y != 1) bad = true;
      r = x > y ? x : y;
    }
    want[n - 1 - i] = r;
  }
  int extra = s.chance(30) ? (int)s.range(1, 4) : 0;
  bool narrow = n > 0 && s.chance(4);      // fewer entries than the result has
  if (narrow) extra = -(int)s.range(1, n < 8 ? n : 8);
  const i64 kGuard = 0x5ca1ab1e0ddba11LL;
  u64 sig = mix((u64)n1 * 512 + n2);
  for (i64 x : a) sig = mix(sig ^ (u64)x);
  for (i64 x : b) sig = mix(sig ^ mix((u64)x));
  for (int pass = 0; pass < 2; pass++) {
    const std::vector<i64> &p = pass ? b : a, &q = pass ? a : b;
    i64 *pp = (i64 *)malloc(p.size() * 8), *qq = (i64 *)malloc(q.size() * 8);
    if (!p.empty()) memcpy(pp, p.data(), p.size() * 8);
    if (!q.empty()) memcpy(qq, q.data(), q.size() * 8);
    std::vector<i64> buf(n + (extra > 0 ? extra : 0) + 16, kGuard);
    Status st = aitisa_broadcast_array(pp, (i64)p.size(), qq, (i64)q.size(), buf.data() + 8, n + extra);
    char d[700];
    std::string text = "broadcast([";
    for (int v = 0; v < 2; v++) {
      const std::vector<i64> &l = v ? q : p;
      for (size_t i = 0; i < l.size() && i < 12; i++) text += std::to_string(l[i]) + ",";
      if (l.size() > 12) text += "... " + std::to_string(l.size()) + " in all";
      text += v ? "]" : "],[";
    }
    snprintf(d, sizeof d, "%s) into %d entries", text.c_str(), n + extra);
    if (!pass) {
      note_sig(sig, n1 > 0 && n2 > 0);
      count(bad ? "mismatching pairs" : "matching pairs");
      if (g_case % 997 == 5) sample(d);
    }
    if (narrow) {
      if (!pass) count("result arrays too short");
      if (st == STATUS_SUCCESS) fail("broadcast/accepted", "%s succeeded although the result has %d", d, n);
      for (size_t i = 0; i < buf.size(); i++) {
        bool inside = i >= 8 && i < (size_t)(8 + n + extra);
        if (!inside && buf[i] != kGuard) { fail("broadcast/guard", "%s wrote entry %d of the result array", d, (int)i - 8); break; }
      }
    }
    else if (bad && st != STATUS_DIMENSIONS_MISMATCH) fail("broadcast/status", "%s returned %s instead of DIMENSIONS_MISMATCH", d, status_name(st));
    if (!narrow && !bad && st != STATUS_SUCCESS) fail("broadcast/rejected", "%s returned %s", d, status_name(st));
    for (int i = 0; !narrow && i < (int)buf.size(); i++) {
      bool inside = i >= 8 + extra && i < 8 + extra + n;
      if (!inside && buf[i] != kGuard) { fail("broadcast/guard", "%s wrote entry %d of the result array", d, i - 8); break; }
      if (inside && !bad && st == STATUS_SUCCESS && buf[i] != want[i - 8 - extra]) {
        fail("broadcast/wrong", "%s: entry %d is %lld, expected %lld", d, i - 8, (long long)buf[i], (long long)want[i - 8 - extra]);
        break;
      }
    }
    if ((!p.empty() && memcmp(pp, p.data(), p.size() * 8)) || (!q.empty() && memcmp(qq, q.data(), q.size() * 8)))
      fail("broadcast/input", "%s changed an input", d);
    free(pp);
    free(qq);
  }
}

// T01: many tensors living side by side, against a model
struct Held {
  Tensor t;
  TV v;
  const void *data, *dims;
  bool raw;                    // content not compared (huge)
};
static void *big_map() {       // 4 GiB of reserved address space
  static void *p = NULL;
  if (!p) p = mmap(NULL, ((u64)1 << 32) + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  return p == MAP_FAILED ? NULL : p;
}
static bool check_held(const Held &h, const char *when) {
  char m[300], b[400];
  const Tensor t = h.t;
  Call c;
  c.op = K_CREATE;
  c.dt = h.v.dt; c.dev = h.v.dev; c.la = h.v.dims;
  describe(c, b, sizeof b);
#define T01(cond, what) if (!(cond)) { fail("create/" what, "%s %s: " what, b, when); return false; }
  T01(aitisa_tensor_ndim(t) == (i64)h.v.dims.size(), "rank");
  for (size_t i = 0; i < h.v.dims.size(); i++) {
    T01(aitisa_tensor_dim(t, (i64)i) == h.v.dims[i], "extent");
    T01(aitisa_tensor_dims(t)[i] == h.v.dims[i], "extents");
  }
  T01(aitisa_tensor_dims(t) == h.dims, "extents pointer moved");
  T01(aitisa_tensor_data(t) == h.data, "data pointer");
  T01(aitisa_tensor_data_type(t).code == kDT[h.v.dt].code && aitisa_tensor_data_type(t).size == kSize[h.v.dt], "type");
  T01(aitisa_tensor_device(t).type == h.v.dev.type && aitisa_tensor_device(t).id == h.v.dev.id, "device");
  T01(aitisa_tensor_size(t) == h.v.count(), "element count");
  if (!well_formed(t, m, sizeof m)) { fail("create/well-formed", "%s %s: %s", b, when, m); return false; }
  if (!h.raw) T01(h.v.data.empty() || !memcmp(aitisa_tensor_data(t), h.v.data.data(), h.v.data.size()), "content");
#undef T01
  count("tensor inspections");
  return true;
}
// A tensor whose bytes outnumber 32 bits, made by the library and only reserved:
// single elements are written and every place an address computed too narrowly
// would reach is looked at afterwards.
static void t01_wide(Src &s) {
  u64 limit = mem::limit;
  int poison = mem::poison;
  mem::limit = (u64)1 << 38;
  mem::huge_ok = true;
  mem::poison = mem::P_NONE;
  int dt = (int)s.below(NDT), sz = kSize[dt];
  u64 n = (((u64)1 << (32 + s.below(4))) / sz) + s.below(100000);
  std::vector<i64> d(1, (i64)n);
  if (s.chance(50)) { i64 f = s.range(2, 50000); d[0] = f; d.insert(d.begin() + s.below(2), (i64)(n / (u64)f)); n = n / (u64)f * (u64)f; }
  Device dev = {DEVICE_CPU, 0};
  Tensor t = NULL;
  if (aitisa_create(kDT[dt], dev, d.data(), (i64)d.size(), NULL, 0, &t) == STATUS_SUCCESS) {
    const u64 total = n * sz;
    u8 *p = (u8 *)aitisa_tensor_data(t);
    if ((u64)aitisa_tensor_size(t) != n) fail("create/element count", "a %s tensor of %llu elements reports %lld", kName[dt], (unsigned long long)n, (long long)aitisa_tensor_size(t));
    std::vector<std::pair<u64, u64> > at;           // element, value
    for (int k = 0; k < 12 && !g_violations; k++) {
      u64 i = k == 0 ? n - 1 : s.chance(30) ? n - 1 - s.below(n < 1000 ? n : 1000) : s.chance(30) ? ((u64)1 << 32) / sz + s.below(9) : s.below(n);
      if (i >= n) i = n - 1;
      u64 v = s.rnd() | 0x0101010101010101ull;
      aitisa_tensor_set_item(t, (i64)i, &v);
      at.push_back(std::make_pair(i, v));
      count("elements written");
    }
    for (size_t k = 0; k < at.size() && !g_violations; k++) {
      u64 i = at[k].first, v = at[k].second;
      for (size_t j = k + 1; j < at.size(); j++) if (at[j].first == i) v = at[j].second;
      if (memcmp(p + i * sz, &v, sz))
        fail("create/set-item", "element %llu of a %s tensor of %llu elements was written but does not hold the value", (unsigned long long)i, kName[dt], (unsigned long long)n);
      const u64 near[] = {i * sz - sz, i * sz + sz, (i * sz) & 0xffffffffu, (i * sz) & 0x7fffffffu, (i & 0xffffffffu) * sz, i, i * sz % total};
      for (size_t q = 0; q < sizeof near / sizeof *near; q++) {
        u64 o = near[q] / sz;
        bool written = near[q] >= total || o >= n;
        for (size_t j = 0; j < at.size(); j++) if (at[j].first == o) written = true;
        if (!written) for (int b = 0; b < sz; b++) if (p[o * sz + b]) { fail("create/set-item", "writing elements of a %s tensor of %llu elements changed element %llu, which was not written", kName[dt], (unsigned long long)n, (unsigned long long)o); break; }
      }
    }
    count("created beyond 4 GiB");
    note_sig(mix(n * 31 + dt), true);
    if (aitisa_destroy(&t) != STATUS_SUCCESS || t) fail("destroy/status", "destroying a tensor of %llu elements failed", (unsigned long long)n);
  } else count("left out (no address space)");
  mem::limit = limit;
  mem::huge_ok = false;
  mem::poison = poison;
}
static void t01(Src &s) {
  Gen g(s);
  if (s.below(1000) < 4) { t01_wide(s); return; }
  g.budget = s.chance(5) ? 60000 : 300;
  std::vector<Held> held;
  int steps = (int)s.range(4, 40);
  u64 sig = 77;
  bool destroyed_any = false;
  for (int k = 0; k < steps; k++) {
    int act = (int)s.below(10);
    if (held.size() >= 12 && act < 4) act = 8;
    if (act < 4 || held.empty()) {
      Held h;
      h.raw = false;
      Call c;
      g.valid(K_CREATE, c);
      if (s.chance(6)) { g.invalid(K_CREATE, c); }
      bool huge = s.chance(2) && big_map();
      for (const Held &o : held) if (o.raw) huge = false;   // one at a time
      if (huge) {  // a byte length near the largest that can be passed
        c.dt = (int)s.below(NDT);
        u64 n = (((u64)1 << 32) - 1 - s.below(9)) / kSize[c.dt];
        if (s.chance(40)) n = ((u64)1 << 31) / kSize[c.dt] + s.below(3);
        c.la.assign(1, (i64)n);
        if (s.chance(40)) c.la.insert(c.la.begin() + s.below(2), 1);
        c.give_data = true;
        c.len = (u32)(n * kSize[c.dt]);
      }
      Exp e;
      classify(c, e);
      i64 nd = (i64)c.la.size();
      i64 *d = (i64 *)malloc(nd * 8);
      if (nd) memcpy(d, c.la.data(), nd * 8);
      void *buf = NULL;
      if (huge) { buf = big_map(); mem::add_foreign(buf); }
      else if (c.give_data) {
        buf = mem::user_alloc(c.t[0].data.size() ? c.t[0].data.size() : 1);
        if (!c.t[0].data.empty()) memcpy(buf, c.t[0].data.data(), c.t[0].data.size());
      }
      Tensor t = kSentinel;
      Status st = aitisa_create(kDT[c.dt], c.dev, d, nd, buf, c.len, &t);
      sig = mix(sig ^ hash_call(c));
      if (nd && memcmp(d, c.la.data(), nd * 8)) fail_call(c, "input", "the caller's extents were changed");
      if (e.cls == VALID && st != STATUS_SUCCESS) { fail_call(c, "rejected", status_name(st)); free(d); break; }
      if (e.cls == INVALID && st == STATUS_SUCCESS) fail_call(c, "accepted", e.why);
      if (st != STATUS_SUCCESS) {
        if (buf && !mem::is_live(buf)) fail_call(c, "released-declined-buffer", "create failed and released the caller's buffer");
        else if (buf && !huge) mem::user_free(buf);
        if (t != kSentinel) fail_call(c, "handle", "failed but changed the handle");
        free(d);
        continue;
      }
      if (nd && aitisa_tensor_dims(t) == d) { fail_call(c, "kept-extents", "keeps the caller's extents array"); free(d); break; }
      for (i64 i = 0; i < nd; i++) d[i] = -77;
      free(d);
      if (buf && aitisa_tensor_data(t) != buf) fail_call(c, "data", "did not adopt the buffer");
      h.t = t;
      h.v.dt = c.dt; h.v.dev = c.dev; h.v.dims = c.la;
      h.data = aitisa_tensor_data(t);
      h.dims = aitisa_tensor_dims(t);
      h.raw = huge;
      if (!huge) {
        h.v.data = c.t[0].data;
        size_t bytes = (size_t)h.v.count() * kSize[c.dt];
        h.v.data.resize(bytes, 0x3c);
        if (!buf && bytes) {
          if (!h.data) { fail_call(c, "data", "no memory for the elements"); break; }
          memcpy(aitisa_tensor_data(t), h.v.data.data(), bytes);
        }
      }
      check_held(h, "after creation");
      held.push_back(h);
      count(huge ? "created with >= 2 GiB of data" : buf ? "created with data" : "created without data");
    } else if (act < 7) {  // write one element
      Held &h = held[s.below(held.size())];
      i64 n = h.v.count();
      if (n == 0) continue;
      i64 i = g.interesting(0, n - 1);
      int sz = kSize[h.v.dt];
      u8 val[8];
      u64 r = s.rnd();
      memcpy(val, &r, 8);
      if (h.raw) {
        u8 *p = (u8 *)h.data;
        u8 before[24], after[24];
        u64 o = (u64)i * sz, lo = o >= 8 ? o - 8 : 0;
        memcpy(before, p + lo, 24);
        memcpy(before + (o - lo), val, sz);
        aitisa_tensor_set_item(h.t, i, val);
        memcpy(after, p + lo, 24);
        if (memcmp(before, after, 24)) fail("create/set-item", "writing element %lld of %lld bytes each did not change exactly that element", (long long)i, (long long)sz);
      } else {
        aitisa_tensor_set_item(h.t, i, val);
        memcpy(&h.v.data[(size_t)i * sz], val, sz);
      }
      sig = mix(sig ^ (u64)i ^ r);
      count("elements written");
      check_held(h, "after writing an element");
    } else if (act < 8) {
      const Held &h = held[s.below(held.size())];
      for (int j = 0; j < 2; j++) check_held(h, "on inspection");
    } else {
      size_t i = s.below(held.size());
      Held h = held[i];
      held.erase(held.begin() + i);
      if (h.raw && !mem::is_live(h.data)) fail("create/adopted", "an adopted buffer was released too early");
      Status st = aitisa_destroy(&h.t);
      if (st != STATUS_SUCCESS) fail("destroy/status", "destroy returned %s", status_name(st));
      if (h.t != NULL) fail("destroy/handle", "destroy did not reset the handle");
      if (s.chance(50) && h.t == NULL && aitisa_destroy(&h.t) != STATUS_SUCCESS) fail("destroy/twice", "destroying a reset handle failed");
      destroyed_any = true;
      for (const Held &o : held) if (!check_held(o, "after another tensor was destroyed")) break;
      count("destroyed");
    }
    if (s.chance(5)) perturb(s);
    if (g_violations) return;
  }
  note_sig(sig, destroyed_any);
  for (const Held &o : held) check_held(o, "at the end");
  for (Held &h : held) aitisa_destroy(&h.t);
}

// T02: index arithmetic
static void t02(Src &s) {
  if (s.chance(5)) perturb(s);
  Gen g(s);
  TV v;
  v.dt = g.any_dt();
  v.dev = g.device();
  bool huge = s.chance(40);
  if (huge) {  // more elements than fit 32 bits; the memory is only reserved
    v.dt = (int)s.below(2);
    int nd = s.chance(95) ? (int)s.range(1, 8) : (int)s.range(9, 300);
    i64 room = (i64)1 << s.range(31, 36);
    v.dims.assign(nd, 1);
    int st = (int)s.below(nd);
    for (int j = 0; j < nd; j++) {
      int i = (st + j) % nd;
      i64 e = j == nd - 1 ? room : s.chance(40) ? s.range(1, 9) : g.interesting(1, room);
      if (e > room) e = room;
      v.dims[i] = e;
      room /= e;
      if (room < 1) room = 1;
    }
    mem::huge_ok = true;
  } else {
    g.dims(v.dims, g.rank(0, 9), 4000);
    if (s.chance(4) && v.dims.size()) v.dims[s.below(v.dims.size())] = 0;
  }
  i64 nd = (i64)v.dims.size(), n = v.count();
  Tensor t = NULL;
  int poison = mem::poison;
  mem::poison = mem::P_NONE;
  u64 lim = mem::limit;
  if (huge) mem::limit = (u64)1 << 40;
  Status st = aitisa_create(kDT[v.dt], v.dev, v.dims.data(), nd, NULL, 0, &t);
  mem::limit = lim;
  mem::poison = poison;
  mem::huge_ok = false;
  if (st != STATUS_SUCCESS) { count("left out (no address space)"); return; }
  char d[400];
  {
    size_t o = snprintf(d, sizeof d, "%s[", kName[v.dt]);
    for (size_t i = 0; i < v.dims.size(); i++) {
      if (o > 340) { o += snprintf(d + o, sizeof d - o, "... rank %zu", v.dims.size()); break; }
      o += snprintf(d + o, sizeof d - o, "%lld,", (long long)v.dims[i]);
    }
    snprintf(d + o, sizeof d - o, "]");
  }
  u64 sig = mix((u64)v.dt);
  for (i64 x : v.dims) sig = mix(sig ^ (u64)x);
  note_sig(sig, n > 1 && nd > 1);
  count(huge ? "tensors of more than 2^31 elements" : "small tensors");
  if (g_case % 499 == 3) sample(d);
  const i64 G = -0x7eadbeefLL;
  std::vector<i64> strides(nd), buf(nd + 4, G), coords(nd), copy;
  i64 p = 1;
  for (i64 i = nd - 1; i >= 0; i--) { strides[i] = p; p *= v.dims[i]; }
  aitisa_get_all_strides(t, buf.data() + 2);
  for (i64 i = 0; i < nd + 4; i++) {
    bool in = i >= 2 && i < nd + 2;
    if (in && buf[i] != strides[i - 2]) { fail("index/all-strides", "%s: stride %lld is %lld, expected %lld", d, (long long)i - 2, (long long)buf[i], (long long)strides[i - 2]); break; }
    if (!in && buf[i] != G) { fail("index/guard", "%s: get_all_strides wrote entry %lld", d, (long long)i - 2); break; }
  }
  for (i64 i = 0; i < nd; i++)
    if (aitisa_get_stride(t, i) != strides[i]) { fail("index/stride", "%s: stride of dimension %lld is %lld, expected %lld", d, (long long)i, (long long)aitisa_get_stride(t, i), (long long)strides[i]); break; }
  bool all = n <= 600 && n > 0;
  i64 todo = n == 0 ? 0 : all ? n : 60;
  for (i64 q = 0; q < todo && !g_violations; q++) {
    i64 lin = all ? q : q == 0 ? 0 : q == 1 ? n - 1 : g.interesting(0, n - 1);
    i64 rem = lin;
    for (i64 i = nd - 1; i >= 0; i--) { coords[i] = rem % v.dims[i]; rem /= v.dims[i]; }
    copy = coords;
    i64 got = aitisa_coords_to_linidx(t, coords.data(), nd), off = aitisa_coords_to_offset(t, coords.data(), nd);
    if (got != lin) fail("index/linidx", "%s: linear index of element %lld is %lld", d, (long long)lin, (long long)got);
    if (off != lin) fail("index/offset", "%s: offset of element %lld is %lld", d, (long long)lin, (long long)off);
    if (coords != copy) fail("index/input", "%s: the coordinates were changed", d);
    for (int k = 0; k < 2; k++) {
      std::fill(buf.begin(), buf.end(), G);
      if (k) aitisa_offset_to_coords(t, lin, buf.data() + 2); else aitisa_linidx_to_coords(t, lin, buf.data() + 2);
      for (i64 i = 0; i < nd + 4; i++) {
        bool in = i >= 2 && i < nd + 2;
        if (in ? buf[i] != coords[i - 2] : buf[i] != G) {
          fail(k ? "index/offset-to-coords" : "index/linidx-to-coords", "%s: coordinate %lld of element %lld is %lld, expected %lld", d, (long long)i - 2, (long long)lin, (long long)buf[i], in ? (long long)coords[i - 2] : 0);
          break;
        }
      }
    }
    count("elements converted");
  }
  aitisa_destroy(&t);
}

void index_case(Src &s) { t02(s); }
void create_case(Src &s) { t01(s); }
void broadcast_case(Src &s) { a04(s); }

// N06: dropout.  Bit-exactness call by call, frequencies over many elements.
static bool freq_ok(double got, double n, double rate) {
  double sd = sqrt(rate * (1 - rate) / n + 0.01 * 0.01 / n);
  return fabs(got / n - rate) <= 0.01 + 6.5 * sd + 1.0 / n;
}
static bool is_zero_el(const u8 *p, int sz, bool fl) {
  for (int k = 0; k < sz; k++) if (p[k] && !(fl && k == sz - 1 && p[k] == 0x80)) return false;
  return true;
}
static void n06_share(Src &s) {
  Gen g(s);
  Call c;
  c.op = K_DROPOUT;
  c.nargs = 1;
  c.adopt = (u32)s.below(2);
  TV x;
  x.dt = g.any_dt();
  i64 n = s.range(40000, 160000);
  int r = (int)s.range(1, 5);
  for (int i = 1; i < r; i++) { i64 f = s.range(2, 9); x.dims.push_back(f); n /= f; }
  x.dims.insert(x.dims.begin() + s.below(x.dims.size() + 1), n);
  n = x.count();
  int sz = kSize[x.dt];
  bool fl = is_float(x.dt);
  x.data.resize((size_t)n * sz);
  // two populations of values, none of them zero, spread at random
  u64 pat[4];
  for (int k = 0; k < 4; k++) do pat[k] = k == 0 ? 1 : k == 1 ? ~0ull : s.rnd(); while (is_zero_el((u8 *)&pat[k], sz, fl));
  if (fl && s.chance(50)) { double d = -2.5; float f = -2.5f; if (x.dt == F32) { pat[2] = 0; memcpy(&pat[2], &f, 4); } else memcpy(&pat[2], &d, 8); }
  std::vector<u8> kind(n);
  for (i64 i = 0; i < n; i++) { kind[i] = (u8)(s.rnd() & 3); memcpy(&x.data[(size_t)i * sz], &pat[kind[i]], sz); }
  double rates[] = {0.5, 0.1, 0.9, 0.25, 0.01, 0.99, 0.33, 0.05, 0.95, 0.75, (double)s.below(1000) / 1000.0, (double)s.below(101) / 100.0};
  c.d = rates[s.below(12)];
  c.t.push_back(x);
  vf_time_base = (long)s.below(2000000000);
  Exp e;
  classify(c, e);
  expect_values(c, e);
  Live l;
  if (!build(c, l)) return;
  Tensor out = kSentinel;
  Status st = invoke(c, l, &out);
  note_case(c, e, true);
  if (st != STATUS_SUCCESS) { fail_call(c, "rejected", status_name(st)); release(c, l); return; }
  char m[500];
  if (!compare(e, c, out, m, sizeof m)) fail_call(c, "wrong", m);
  else {
    const u8 *p = (const u8 *)aitisa_tensor_data(out);
    enum { B = 16 };
    static const int mods[] = {2, 3, 4, 5, 7, 8, 16, 32};
    double tot = 0, zk[4] = {0}, nk[4] = {0}, zb[B] = {0}, nb[B] = {0};
    std::vector<std::vector<double> > zm(8), nm(8);
    for (int k = 0; k < 8; k++) { zm[k].assign(mods[k], 0); nm[k].assign(mods[k], 0); }
    double run = 0, pairs = 0;
    bool prev = false;
    for (i64 i = 0; i < n; i++) {
      bool z = is_zero_el(p + (size_t)i * sz, sz, fl);
      tot += z;
      zk[kind[i]] += z; nk[kind[i]]++;
      int b = (int)(i * B / n);
      zb[b] += z; nb[b]++;
      for (int k = 0; k < 8; k++) { zm[k][i % mods[k]] += z; nm[k][i % mods[k]]++; }
      if (i && prev) { run += z; pairs++; }
      prev = z;
    }
    (void)run; (void)pairs;
    bool ok = true;
    if (!freq_ok(tot, (double)n, c.d)) { snprintf(m, sizeof m, "%.0f of %lld elements zeroed, a share of %.4f", tot, (long long)n, tot / n); fail_call(c, "share", m); ok = false; }
    for (int k = 0; k < 4 && ok; k++) if (nk[k] > 2000 && !freq_ok(zk[k], nk[k], c.d)) { snprintf(m, sizeof m, "elements with bits %llx: share %.4f", (unsigned long long)pat[k], zk[k] / nk[k]); fail_call(c, "share-by-value", m); ok = false; }
    for (int k = 0; k < B && ok; k++) if (!freq_ok(zb[k], nb[k], c.d)) { snprintf(m, sizeof m, "block %d of 16: share %.4f", k, zb[k] / nb[k]); fail_call(c, "share-by-place", m); ok = false; }
    for (int k = 0; k < 8 && ok; k++) for (int j = 0; j < mods[k] && ok; j++) if (!freq_ok(zm[k][j], nm[k][j], c.d)) { snprintf(m, sizeof m, "elements %d modulo %d: share %.4f", j, mods[k], zm[k][j] / nm[k][j]); fail_call(c, "share-by-place", m); ok = false; }
    count("elements counted", (u64)n);
    count("share statistics", 1 + 4 + B + 77);
  }
  discard(out);
  release(c, l);
}
static void n06_place(Src &s) {  // every place of a small tensor, over many calls
  Gen g(s);
  Call c;
  c.op = K_DROPOUT;
  c.nargs = 1;
  TV x;
  x.dt = g.any_dt();
  x.dims.push_back(s.range(1, 40));
  if (s.chance(50)) x.dims.push_back(s.range(1, 4));
  if (s.chance(10)) x.dims.clear();
  i64 n = x.count();
  int sz = kSize[x.dt];
  x.data.assign((size_t)n * sz, 0x41);
  c.d = (double)s.range(2, 98) / 100.0;
  c.t.push_back(x);
  Live l;
  if (!build(c, l)) return;
  const int R = g_tier ? 12000 : 4000;
  std::vector<double> z(n, 0);
  for (int r = 0; r < R; r++) {
    vf_time_base = (long)s.below(2000000000);
    Tensor out = kSentinel;
    Status st = invoke(c, l, &out);
    if (st != STATUS_SUCCESS) { fail_call(c, "rejected", status_name(st)); break; }
    const u8 *p = (const u8 *)aitisa_tensor_data(out);
    for (i64 i = 0; i < n; i++) z[i] += is_zero_el(p + i * sz, sz, is_float(x.dt));
    discard(out);
  }
  if (!g_violations)
    for (i64 i = 0; i < n; i++)
      if (!freq_ok(z[i], R, c.d)) {
        char m[200];
        snprintf(m, sizeof m, "element %lld was zeroed in %.0f of %d calls", (long long)i, z[i], R);
        fail_call(c, "share-of-element", m);
        break;
      }
  Exp e;
  note_case(c, e, true);
  count("calls for per-element shares", R);
  count("elements counted", (u64)n * R);
  release(c, l);
}
static void n06(Src &s) {
  int k = (int)s.below(1000);
  if (k < 12) n06_share(s);
  else if (k < 16) n06_place(s);
  else {
    static const int ops[] = {K_DROPOUT};
    if (large(s, ops, 1)) return;
    vf_time_base = (long)s.below(2000000000);
    functional(s, ops, 1, 0, 20000);
  }
}

static const Prop props[] = {
    {"T01", t01}, {"T02", t02}, {"T03", t03}, {"T04", t04}, {"T05", t05}, {"T06", t06},
    {"A01", a01}, {"A02", a02}, {"A03", a03}, {"A04", a04}, {"N01", n01}, {"N02", n02},
    {"N03", n03}, {"N04", n04}, {"N05", n05}, {"N06", n06}, {"M01", m01}, {"M02", m02},
    {"M03", m03}, {"M04", m04}, {"M05", m05}, {"S01", s01}, {"S02", s02}, {"S03", s03}, {"S04", s04}};
CaseFn find_prop(const char *id) {
  for (const Prop &p : props) if (!strcmp(p.id, id)) return p.fn;
  return NULL;
}
}  // namespace vf
