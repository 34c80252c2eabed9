// S04: a tensor behaves by its type, device, extents and elements alone. Every
// operand of a call is brought about by a random history of other calls whose
// outcome is known, the call is judged against the definition and against the
// same call on freshly created operands, and its result is used on.
#include "props.h"
#include <limits>

namespace vf {
static ld elem(const TV &v, i64 i) {
  ld r = 0;
  VF_DISPATCH(v.dt, E, E x; memcpy(&x, &v.data[i * sizeof(E)], sizeof(E)); r = (ld)x);
  return r;
}
static void set(TV &v, i64 i, ld x) {
  VF_DISPATCH(v.dt, E, E y = (E)x; memcpy(&v.data[i * sizeof(E)], &y, sizeof(E)));
}
static void room(TV &v) { v.data.assign((size_t)v.count() * kSize[v.dt], 0); }
static void junk(Src &s, TV &v) {
  room(v);
  for (size_t i = 0; i + 8 <= v.data.size(); i += 8) { u64 r = s.p && i > 64 ? mix(i) : s.rnd(); memcpy(&v.data[i], &r, 8); }
}
static void ones(TV &v) { room(v); for (i64 i = 0; i < v.count(); i++) set(v, i, 1); }
// does the value survive arithmetic that leaves every ordinary number alone?
enum { FINITE = 1, NOT_MINUS_ZERO = 2, NONNEGATIVE = 4 };
static bool all(const TV &v, int what) {
  for (i64 i = 0; i < v.count(); i++) {
    ld x = elem(v, i);
    if (x != x) return false;
    if ((what & FINITE) && is_float(v.dt) && !isfinite((double)x)) return false;
    if ((what & NOT_MINUS_ZERO) && x == 0 && signbit(x)) return false;
    if ((what & NONNEGATIVE) && x < 0) return false;
  }
  return true;
}
struct Kept { Tensor h; TV v; };
struct Chain {
  Src &s;
  Gen &g;
  std::vector<Kept> kept;      // operands of the history still in use
  char how[600];
  size_t o;
  bool bad;
  Chain(Src &src, Gen &gen) : s(src), g(gen), o(0), bad(false) { how[0] = 0; }
  void note(const char *w) { if (o + 20 < sizeof how) o += (size_t)snprintf(how + o, sizeof how - o, "%s%s", o ? "<" : "", w); }
};
static void one(Call &c, const TV &u) { c.t.push_back(u); c.nargs = 1; c.arg[0] = 0; }
static void two(Call &c, const TV &w) { c.t.push_back(w); c.nargs = 2; c.arg[1] = 1; }

// a call whose result is v; its first operand will be made by a history as well
static bool route(Chain &ch, const TV &v, Call &c) {
  Src &s = ch.s;
  i64 n = v.count();
  size_t nd = v.dims.size();
  TV u = v;
  switch (s.below(16)) {
    case 0: c.op = K_DUP; one(c, u); return true;
    case 1: {                                  // the extents split or merged
      c.op = K_RESHAPE;
      c.la = v.dims;
      u.dims.clear();
      i64 left = n;
      while (left > 1 && u.dims.size() < 7) {
        i64 f = 1 + (i64)s.below(12);
        if (s.chance(20)) f = left;
        if (left % f) continue;
        u.dims.push_back(f);
        left /= f;
      }
      if (left > 1) u.dims.push_back(left);
      while (s.chance(25)) u.dims.insert(u.dims.begin() + (long)s.below(u.dims.size() + 1), 1);
      one(c, u);
      return true;
    }
    case 2: {                                  // extents of one taken out again
      c.op = K_SQUEEZE;
      size_t at = 0, k = nd;
      u.dims.clear();
      for (;;) {
        if ((s.chance(30) || (at == nd && c.la.empty())) && u.dims.size() < k + 4) { c.la.push_back((i64)u.dims.size()); u.dims.push_back(1); }
        if (at == nd) break;
        u.dims.push_back(v.dims[at++]);
      }
      for (size_t i = c.la.size(); i > 1; i--) std::swap(c.la[i - 1], c.la[s.below(i)]);
      one(c, u);
      return true;
    }
    case 3: {                                  // cut out of a larger tensor
      c.op = K_SLICE;
      std::vector<i64> pos;
      ld total = 1;
      u.dims.clear();
      for (size_t i = 0; i <= nd; i++) {
        while (s.chance(10) && u.dims.size() < 20) {   // an extent that will be dropped
          i64 d = s.range(1, 3);
          u.dims.push_back(d);
          c.ia[0].push_back((int)s.below((u64)d)); c.ia[1].push_back(0); c.ia[2].push_back(1);
          pos.push_back(-1);
          total *= d;
        }
        if (i == nd) break;
        i64 st = s.chance(60) ? 1 : s.range(1, 4), b = s.chance(50) ? 0 : s.range(0, 3), size = (v.dims[i] - 1) * st + 1 + (i64)s.below((u64)st);
        u.dims.push_back(b + size + (s.chance(50) ? 0 : s.range(0, 3)));
        c.ia[0].push_back((int)b); c.ia[1].push_back((int)size); c.ia[2].push_back((int)st);
        pos.push_back((i64)i);
        total *= (ld)u.dims.back();
      }
      if (total > 50000) return false;
      junk(s, u);
      std::vector<i64> at(nd, 0);
      for (i64 k = 0; k < n; k++) {
        i64 r = k, lin = 0;
        for (size_t i = nd; i-- > 0;) { at[i] = r % v.dims[i]; r /= v.dims[i]; }
        for (size_t i = 0; i < u.dims.size(); i++)
          lin = lin * u.dims[i] + c.ia[0][i] + (pos[i] < 0 ? 0 : at[(size_t)pos[i]] * c.ia[2][i]);
        memcpy(&u.data[(size_t)lin * kSize[v.dt]], &v.data[(size_t)k * kSize[v.dt]], (size_t)kSize[v.dt]);
      }
      one(c, u);
      return true;
    }
    case 4: {                                  // from another element type
      c.op = K_CAST;
      c.dt = v.dt;
      u.dt = (int)s.below(NDT);
      room(u);
      for (i64 i = 0; i < n; i++) {
        ld x = elem(v, i);
        if (x != x || (is_float(v.dt) && (!isfinite((double)x) || (x == 0 && signbit(x))))) return false;
        if (!is_float(u.dt)) {
          bool sg = u.dt == I8 || u.dt == I16 || u.dt == I32 || u.dt == I64;
          ld hi = ldexpl(1.0L, 8 * kSize[u.dt] - sg);
          if (x != truncl(x) || x >= hi || x < (sg ? -hi : 0)) return false;
        } else if (u.dt == F32 && fabsl(x) > 3e38L) return false;
        set(u, i, x);
        if (elem(u, i) != x) return false;
      }
      one(c, u);
      return true;
    }
    case 5: case 6: {                          // arithmetic that comes out as v
      if (is_float(v.dt)) {
        if (!all(v, NOT_MINUS_ZERO)) return false;
        c.op = s.chance(50) ? K_MUL : K_DIV;
        one(c, u);
        TV w = u;
        ones(w);
        two(c, w);
        return true;
      }
      c.op = s.chance(50) ? K_ADD : K_SUB;
      TV w = u;
      room(w);
      for (i64 i = 0; i < n; i++) {
        ld x = elem(v, i), d = (ld)s.below(100);
        VF_DISPATCH(v.dt, E, {
          ld lo = (ld)std::numeric_limits<E>::min(), hi = (ld)std::numeric_limits<E>::max();
          ld a = c.op == K_ADD ? x - d : x + d;
          if (a < lo || a > hi || d > hi) { a = x; d = 0; }
          set(u, i, a);
          set(w, i, d);
        });
      }
      one(c, u);
      two(c, w);
      return true;
    }
    case 7: if (!all(v, NONNEGATIVE | NOT_MINUS_ZERO)) return false; c.op = K_RELU; one(c, u); return true;
    case 8: if (!all(v, 0)) return false; c.op = K_DROPOUT; c.d = 0; one(c, u); return true;
    case 9: {                                  // times the identity
      if (nd < 1 || v.dims[nd - 1] > 24 || !all(v, FINITE | NOT_MINUS_ZERO)) return false;
      c.op = nd == 2 && s.chance(40) ? K_DOT : K_MATMUL;
      one(c, u);
      TV w = v;
      i64 k = v.dims[nd - 1];
      w.dims.assign(2, k);
      room(w);
      for (i64 i = 0; i < k; i++) set(w, i * k + i, 1);
      two(c, w);
      return true;
    }
    case 10: {                                 // times a number
      if (!all(v, NOT_MINUS_ZERO)) return false;
      c.op = K_DOT;
      one(c, u);
      TV w = v;
      w.dims.clear();
      ones(w);
      two(c, w);
      return true;
    }
    case 11: {                                 // windows of one element
      if (nd < 3 || nd > 5 || !all(v, FINITE | NOT_MINUS_ZERO)) return false;
      if (!is_float(v.dt))
        for (i64 i = 0; i < n; i++) if (fabsl(elem(v, i)) > 1e15L) return false;
      c.op = K_POOL;
      strcpy(c.mode, s.chance(50) ? "max" : "avg");
      for (size_t i = 2; i < nd; i++)
        for (int k = 0; k < 4; k++) c.ia[k].push_back(k == 2 ? 0 : k == 3 ? 1 + (int)s.below(3) : 1);
      one(c, u);
      return true;
    }
    case 12: {                                 // filters of one element
      if (nd < 3 || v.dt != F32 || !all(v, FINITE | NOT_MINUS_ZERO)) return false;
      c.op = nd == 4 && s.chance(40) ? K_CONV2D : nd == 5 && s.chance(40) ? K_CONV3D : K_CONV;
      for (size_t i = 2; i < nd; i++) { c.ia[0].push_back(1); c.ia[1].push_back(0); c.ia[2].push_back(1 + (int)s.below(3)); }
      if (v.dims[1] > 100000) return false;
      c.groups = (int)v.dims[1];
      one(c, u);
      TV w = v;
      for (size_t i = 1; i < nd; i++) w.dims[i] = 1;
      w.dims[0] = v.dims[1];
      ones(w);
      two(c, w);
      return true;
    }
    case 13: {                                 // normalised by mean 0 and variance 1
      if (nd < 2 || nd > 5 || v.dev.type != DEVICE_CPU || !is_float(v.dt) || !all(v, FINITE | NOT_MINUS_ZERO)) return false;
      c.op = K_BN;
      c.axis = s.chance(50) ? 1 : (int)nd - 1;
      c.d = 0;
      one(c, u);
      for (int i = 1; i < 5; i++) {
        TV w = v;
        w.dims.assign(1, v.dims[(size_t)c.axis]);
        if (i == 1 || i == 4) ones(w); else room(w);
        c.t.push_back(w);
        c.arg[i] = i;
      }
      c.nargs = 5;
      return true;
    }
    case 14: {                                 // the root of squares
      if (!all(v, NONNEGATIVE | NOT_MINUS_ZERO | FINITE)) return false;
      for (i64 i = 0; i < n; i++) {
        ld x = elem(v, i), q = x * x, hi = 0;
        VF_DISPATCH(v.dt, E, hi = (ld)std::numeric_limits<E>::max());
        if (q > hi) return false;
        if (x != truncl(x) || q > (v.dt == F32 ? 16777216.0L : 4503599627370496.0L)) return false;
        set(u, i, q);
        if (elem(u, i) != q) return false;
      }
      c.op = K_SQRT;
      one(c, u);
      return true;
    }
    default: return false;
  }
}
static void drop(Chain &ch, Tensor h, const TV &v) {
  Src &s = ch.s;
  if (ch.kept.size() < 12 && s.chance(25)) { Kept k = {h, v}; ch.kept.push_back(k); return; }
  if (s.chance(50) && !v.data.empty()) memset(aitisa_tensor_data(h), 0x5a, v.data.size());
  aitisa_destroy(&h);
}
// a tensor equal to v, after a history of at most depth calls
static Tensor realise(Chain &ch, const TV &v, int depth) {
  Src &s = ch.s;
  i64 n = v.count();
  char m[700];
  for (int tries = 0; n > 0 && depth > 0 && tries < 6; tries++) {
    Call c;
    if (!route(ch, v, c)) continue;
    Exp e;
    classify(c, e);
    if (e.cls != VALID || e.dims != v.dims || e.dt != v.dt || cost(c, e) > 2e5L) continue;
    if (e.dev.type != v.dev.type || e.dev.id != v.dev.id) continue;
    ch.note(kOpName[c.op]);
    Live l;
    Call arrays = c;
    arrays.t.clear();
    build(arrays, l);
    l.t.assign(c.t.size(), (Tensor)NULL);
    for (size_t i = 0; i < c.t.size(); i++) {
      l.t[i] = i == 0 || s.chance(30) ? realise(ch, c.t[i], depth - 1) : make_tensor(c.t[i], s.chance(30));
      if (!l.t[i]) {
        if (!ch.bad) { ch.bad = true; fail_call(c, "build", "an operand could not be created"); }
        release(c, l);
        return NULL;
      }
    }
    Tensor out = kSentinel;
    Status st = invoke(c, l, &out);
    count("calls in histories");
    count(kOpName[c.op]);
    if (st != STATUS_SUCCESS || !out || out == kSentinel) {
      snprintf(m, sizeof m, "returned %s on an operand made by %s", status_name(st), ch.how);
      ch.bad = true;
      fail_call(c, "chain", m);
      return NULL;
    }
    TV got;
    char w[400];
    if (!well_formed(out, w, sizeof w)) {
      snprintf(m, sizeof m, "result of the history %s: %s", ch.how, w);
      ch.bad = true;
      fail_call(c, "chain-form", m);
      return NULL;
    }
    if (!read_tensor(out, got) || got.dims != v.dims || got.dt != v.dt || got.data != v.data) {
      expect_values(c, e);
      if (compare(e, c, out, w, sizeof w)) {   // right, but rounded: begin anew
        count("histories given up for rounding");
        aitisa_destroy(&out);
        release(c, l);
        break;
      }
      snprintf(m, sizeof m, "after the history %s: %s", ch.how, w);
      ch.bad = true;
      fail_call(c, "chain-wrong", m);
      return NULL;
    }
    for (size_t i = 0; i < c.t.size(); i++) drop(ch, l.t[i], c.t[i]);
    l.t.clear();
    release(c, l);
    if (!read_tensor(out, got) || got.data != v.data) {
      snprintf(m, sizeof m, "the result of the history %s changed when its operands went", ch.how);
      ch.bad = true;
      fail_call(c, "chain-shared", m);
      return NULL;
    }
    return out;
  }
  // the start of a history
  int k = (int)s.below(4);
  if (k < 2 || n == 0 || n > 5000 || v.dev.type != DEVICE_CPU) { ch.note(k ? "adopt" : "create"); return make_tensor(v, k == 1); }
  Tensor t = NULL;
  std::vector<i64> d = v.dims;
  i64 none = 0;
  Status st;
  if (k == 2) {
    ch.note("full+set");
    st = aitisa_full(kDT[v.dt], v.dev, d.empty() ? &none : d.data(), (i64)d.size(), (double)s.below(100), &t);
  } else {
    ch.note("create+set");
    st = aitisa_create(kDT[v.dt], v.dev, d.empty() ? &none : d.data(), (i64)d.size(), NULL, 0, &t);
  }
  if (st != STATUS_SUCCESS) return NULL;
  i64 start = (i64)s.below((u64)n);
  for (i64 i = 0; i < n; i++) {
    i64 p = (start + i) % n;
    u8 cell[8];
    memcpy(cell, &v.data[(size_t)p * kSize[v.dt]], (size_t)kSize[v.dt]);
    aitisa_tensor_set_item(t, p, cell);
  }
  return t;
}
// a call that takes the result of the previous one
static void follow(Src &s, const TV &v, Call &c) {
  static const int ops[] = {K_DUP, K_RESHAPE, K_SQUEEZE, K_SLICE, K_CAST, K_RELU, K_SQRT, K_SIGMOID, K_TANH,
                            K_SOFTMAX, K_ADD, K_MUL, K_SUB, K_MATMUL, K_DOT, K_POOL, K_BN, K_DROPOUT};
  c.op = s.pick(ops);
  size_t nd = v.dims.size();
  one(c, v);
  switch (c.op) {
    case K_RESHAPE: c.la = v.dims; for (size_t i = c.la.size(); i > 1; i--) std::swap(c.la[i - 1], c.la[s.below(i)]); break;
    case K_SLICE:
      for (size_t i = 0; i < nd; i++) {
        i64 b = v.dims[i] ? (i64)s.below((u64)v.dims[i]) : 0, z = s.range(1, v.dims[i] - b > 0 ? v.dims[i] - b : 1);
        c.ia[0].push_back((int)b); c.ia[1].push_back((int)z); c.ia[2].push_back((int)s.range(1, 3));
      }
      break;
    case K_CAST: c.dt = (int)s.below(NDT); break;
    case K_SOFTMAX: c.axis = (int)s.range(-1, (i64)nd - 1); break;
    case K_DROPOUT: c.d = s.chance(50) ? 1 : 0.5; break;
    case K_ADD: case K_SUB: case K_MUL: case K_MATMUL: case K_DOT: c.nargs = 2; c.arg[1] = 0; break;
    case K_POOL:
      strcpy(c.mode, s.chance(50) ? "max" : "avg");
      for (size_t i = 2; i < nd; i++)
        for (int k = 0; k < 4; k++) c.ia[k].push_back(k == 0 ? (int)s.range(1, v.dims[i] > 3 ? 3 : v.dims[i] > 0 ? v.dims[i] : 1) : k == 2 ? 0 : 1);
      break;
    case K_BN:
      c.axis = 1;
      c.d = 0.5;
      for (int i = 1; i < 5; i++) {
        TV w = v;
        w.dims.assign(1, nd > 1 ? v.dims[1] : 1);
        if (i == 1 || i == 4) ones(w); else room(w);
        c.t.push_back(w);
        c.arg[i] = i;
      }
      c.nargs = 5;
      break;
  }
}
// integer arithmetic that might leave the type is not asked for
static bool may_overflow(const Call &c) {
  const TV &v = c.in(0);
  if (is_float(v.dt) || !(c.op == K_ADD || c.op == K_SUB || c.op == K_MUL || c.op == K_MATMUL || c.op == K_DOT)) return false;
  ld most = 0;
  for (i64 i = 0; i < v.count(); i++) { ld x = fabsl(elem(v, i)); if (x > most) most = x; }
  ld hi = 0;
  VF_DISPATCH(v.dt, E, hi = (ld)std::numeric_limits<E>::max());
  return c.op == K_ADD || c.op == K_SUB ? 2 * most > hi : most * most * (ld)v.count() > hi;
}
static bool specified(const Exp &e) {          // every element of the result is
  if (e.cls != VALID || e.cmp == CMP_NONE) return false;
  for (u8 x : e.care) if (!x) return false;
  return true;
}
void s04(Src &s) {
  Gen g(s);
  g.budget = s.chance(5) ? 4000 : 120;
  Call c;
  Exp e;
  int op = (int)s.below(NOPS - 1);             // every operator but create
  g.valid(op, c);
  classify(c, e);
  if (e.cls != VALID || cost(c, e) > 2e5L || c.t.empty()) return;
  for (const TV &v : c.t) if (v.count() > 20000) return;
  c.adopt = 0;
  u64 live = mem::live_count();
  Chain ch(s, g);
  char m[900], w[500];
  Call arrays = c;
  arrays.t.clear();
  Live l;
  build(arrays, l);
  for (size_t i = 0; i < c.t.size(); i++) {
    Tensor t = realise(ch, c.t[i], (int)s.range(1, 5));
    if (ch.bad) return;
    if (!t) { fail_call(c, "build", "an operand could not be created"); return; }
    l.t.push_back(t);
    ch.note(";");
  }
  std::vector<Kept> results;
  Call now = c;
  int links = 1 + (int)s.below(4);
  for (int k = 0; k < links; k++) {
    classify(now, e);
    if (e.cls == INVALID) break;
    expect_values(now, e);
    Tensor out = kSentinel;
    Status st = invoke(now, l, &out);
    note_case(now, e, result_count(e) >= 2 && e.cls == VALID);
    count(kOpName[now.op]);
    count(k ? "calls on results" : "calls on operands with a history");
    if (e.cls == VALID && (st != STATUS_SUCCESS || !out || out == kSentinel)) {
      snprintf(m, sizeof m, "valid call returned %s; operands made by %s", status_name(st), ch.how);
      fail_call(now, "chain", m);
      return;
    }
    if (st != STATUS_SUCCESS) break;
    if ((e.cls == VALID || e.judged) && !compare(e, now, out, w, sizeof w)) {
      snprintf(m, sizeof m, "%s; operands made by %s", w, ch.how);
      fail_call(now, "chain-wrong", m);
      return;
    }
    if (!inputs_intact(now, l, w, sizeof w)) {
      snprintf(m, sizeof m, "%s; made by %s", w, ch.how);
      fail_call(now, "chain-input", m);
      return;
    }
    Kept r;
    r.h = out;
    if (!well_formed(out, w, sizeof w) || !read_tensor(out, r.v)) { fail_call(now, "chain-form", w); return; }
    // the same call on operands made from scratch
    if (now.op != K_DROPOUT && specified(e)) {
      Live f;
      if (!build(now, f)) { fail_call(now, "build", "an operand could not be created"); return; }
      Tensor fresh = kSentinel;
      Status fs = invoke(now, f, &fresh);
      TV fv;
      bool same = fs == st && fresh && fresh != kSentinel && read_tensor(fresh, fv) && fv.dims == r.v.dims && fv.dt == r.v.dt && fv.data == r.v.data;
      if (!same) {
        snprintf(m, sizeof m, "operands made by %s and equal fresh ones give different results (%s)", ch.how, status_name(fs));
        fail_call(now, "chain-differs", m);
        return;
      }
      aitisa_destroy(&fresh);
      release(now, f);
      count("results compared with those of fresh operands");
    }
    results.push_back(r);
    if (k + 1 == links || r.v.count() == 0 || r.v.count() > 20000) break;
    // the operands go, or stay until the end
    for (size_t i = 0; i < l.t.size(); i++) {
      bool own = true;
      for (Kept &q : results) own = own && q.h != l.t[i];
      if (own) drop(ch, l.t[i], now.t[i]);
    }
    l.t.clear();
    release(now, l);
    Call next;
    follow(s, r.v, next);
    classify(next, e);
    if (next.op == K_BN && r.v.dev.type != DEVICE_CPU) break;
    if (e.cls != VALID || cost(next, e) > 2e5L || may_overflow(next)) break;
    if (next.op == K_CAST || !is_float(r.v.dt)) {  // values the type cannot hold: undefined
      expect_values(next, e);
      if (!specified(e)) break;
    }
    Call a2 = next;
    a2.t.clear();
    build(a2, l);
    l.t.push_back(r.h);
    for (size_t i = 1; i < next.t.size(); i++) {
      Tensor t = realise(ch, next.t[i], 2);
      if (ch.bad) return;
      if (!t) { fail_call(next, "build", "an operand could not be created"); return; }
      l.t.push_back(t);
    }
    if (ch.o + 30 < sizeof ch.how) ch.o += (size_t)snprintf(ch.how + ch.o, sizeof ch.how - ch.o, " then %s", kOpName[now.op]);
    now = next;
  }
  // whatever is still held is what it was
  for (size_t i = 0; i < l.t.size(); i++) {
    bool own = true;
    for (Kept &q : results) own = own && q.h != l.t[i];
    if (!own) l.t[i] = NULL;
  }
  for (Kept &q : results) ch.kept.push_back(q);
  while (!ch.kept.empty()) {
    size_t i = (size_t)s.below(ch.kept.size());
    Kept q = ch.kept[i];
    ch.kept.erase(ch.kept.begin() + (long)i);
    TV v;
    if (!read_tensor(q.h, v) || v.dims != q.v.dims || v.dt != q.v.dt || v.data != q.v.data) {
      snprintf(m, sizeof m, "a tensor of the history %s changed after it was made", ch.how);
      fail_call(c, "chain-changed", m);
      return;
    }
    count("tensors found unchanged at the end");
    if (!v.data.empty()) memset(aitisa_tensor_data(q.h), 0xa5, v.data.size());
    aitisa_destroy(&q.h);
  }
  release(c, l);
  if (mem::live_count() != live) {
    snprintf(m, sizeof m, "%lld blocks remain after everything of the history %s was destroyed", (long long)(mem::live_count() - live), ch.how);
    fail_call(c, "chain-leak", m);
  }
}
}  // namespace vf
