// Generators of calls.  valid() satisfies the documentation and avoids results
// the element type cannot represent; invalid() breaks one or two of its rules.
#include "vf.h"

namespace vf {
// numbers that occur in the sources under test (written by the runner)
static std::vector<i64> dict_i, dict_rare;  // literals of the sources, those above six
static std::vector<double> dict_d;
void load_dict(const char *path) {
  FILE *f = fopen(path, "r");
  if (!f) return;
  char k;
  char buf[200];
  while (fscanf(f, " %c %190s", &k, buf) == 2) {
    if (k == 'i') {
      dict_i.push_back(strtoll(buf, NULL, 0));
      if (dict_i.back() > 6) dict_rare.push_back(dict_i.back());
    }
    else dict_d.push_back(strtod(buf, NULL));
  }
  fclose(f);
}
i64 Gen::interesting(i64 lo, i64 hi) {
  if (hi <= lo) return lo;
  int k = (int)s.below(10);
  i64 v;
  if (k < 5) return s.range(lo, hi);
  u64 w = (u64)hi - (u64)lo;
  if (k < 6) return lo + (i64)s.below(w < 3 ? w + 1 : 3);
  if (k < 7) return hi - (i64)s.below(w < 3 ? w + 1 : 3);
  if (k < 8) v = (i64)s.below(9) - 4;
  else if (k < 9 || dict_i.empty()) {
    int b = (int)s.below(62);
    v = ((i64)1 << b) + (i64)s.below(3) - 1;
    if (s.chance(50)) v = -v;
  } else {
    const std::vector<i64> &d = !dict_rare.empty() && s.chance(60) ? dict_rare : dict_i;
    v = d[s.below(d.size())];
    if (s.chance(60)) v += (i64)s.below(3) - 1;
    if (s.chance(25)) v = -v;
  }
  return v < lo || v > hi ? s.range(lo, hi) : v;
}
int Gen::rank(int lo, int hi) {
  if (hi >= 7 && s.chance(4)) return (int)s.range(hi, s.chance(65) ? 22 : s.chance(65) ? 72 : 300);
  if (s.chance(6)) return hi;
  int r = lo + (int)s.below((u64)(hi - lo + 1));
  if (r > 5 && s.chance(60)) r = lo + (int)s.below((u64)(6 - lo > 0 ? 6 - lo : 1));
  return r;
}
int Gen::any_dt() { return (int)s.below(NDT); }
Device Gen::device() {
  Device d;
  d.type = DEVICE_CPU;
  d.id = s.chance(80) ? 0 : (int)s.range(0, 7);
  return d;
}
// extents >= 1 whose product is at most max_elems
void Gen::dims(std::vector<i64> &d, int rank, i64 max_elems) {
  d.assign(rank, 1);
  if (rank == 0 || max_elems < 1) return;
  // pick a size class: most tensors are small
  i64 room = max_elems;
  int k = big ? 99 : (int)s.below(100);
  if (k < 62) room = room < 64 ? room : 64;
  else if (k < 88) room = room < 600 ? room : 600;
  else if (k < 98) room = room < 5000 ? room : 5000;
  int style = big && s.chance(40) ? 6 : (int)s.below(6);
  if (!big && !dict_rare.empty() && s.chance(3)) {  // a literal of the sources among small extents
    i64 v = dict_rare[s.below(dict_rare.size())] + (s.chance(40) ? (i64)s.below(3) - 1 : 0);
    if (v <= max_elems && v <= 100000) {
      d[s.below(rank)] = v;
      room = max_elems / v;
      for (int i = 0; i < rank; i++)
        if (d[i] == 1 && room > 1 && s.chance(50)) { d[i] = s.range(1, room < 3 ? room : 3); room /= d[i]; }
      return;
    }
  }
  if (style >= 5 && rank > 1) {  // (nearly) equal extents
    i64 e = 1;
    while (true) {
      ld p = 1;
      for (int i = 0; i < rank; i++) p *= (ld)(e + 1);
      if (p > (ld)room) break;
      e++;
    }
    if (style == 6) {            // each of them large
      for (int i = 0; i < rank; i++) d[i] = s.range(e / 2 + 1, e);
      return;
    }
    e = s.range(1, e);
    d.assign(rank, e);
    return;
  }
  int start = (int)s.below(rank);
  for (int j = 0; j < rank && room > 1; j++) {
    int i = (start + j) % rank;
    i64 cap = room;
    i64 e;
    if (style == 0) e = s.range(1, cap < 6 ? cap : 6);
    else if (style == 1) e = s.chance(40) ? 1 : s.range(1, cap < 12 ? cap : 12);
    else if (style == 2) e = j == 0 ? interesting(1, cap) : s.range(1, cap < 3 ? cap : 3);
    else if (style == 3) e = interesting(1, cap);
    else e = j == rank - 1 ? s.range(1, cap) : s.range(1, cap < 5 ? cap : 5);
    d[i] = e;
    room /= e;
  }
}
// -------------------------------------------------------------------- values
static void put_val(TV &v, i64 i, ld x) {  // x must fit the type
  VF_DISPATCH(v.dt, E, E y = (E)x; memcpy(&v.data[i * sizeof(E)], &y, sizeof(E)));
}
static void put_i(TV &v, i64 i, i128 x) {
  for (int k = 0; k < kSize[v.dt]; k++)
    v.data[i * kSize[v.dt] + k] = (u8)((unsigned __int128)x >> (8 * k));
}
static void put_bits(TV &v, i64 i, u64 x) { memcpy(&v.data[i * kSize[v.dt]], &x, kSize[v.dt]); }
static i128 get_i(const TV &v, i64 i) {
  i128 r = 0;
  int n = kSize[v.dt];
  for (int k = n - 1; k >= 0; k--) r = r << 8 | v.data[i * n + k];
  if (is_signed(v.dt) && r > int_max(v.dt)) r -= (i128)1 << (8 * n);
  return r;
}
static ld get_f(const TV &v, i64 i) {
  if (v.dt == F32) { float f; memcpy(&f, &v.data[i * 4], 4); return f; }
  double d;
  memcpy(&d, &v.data[i * 8], 8);
  return d;
}
static void prepare(TV &v) { v.data.assign((size_t)v.count() * kSize[v.dt], 0); }
static i128 some_int(Gen &g, i128 lo, i128 hi) {
  Src &s = g.s;
  i128 w = hi - lo;
  if (w <= 0) return lo;
  if (w > ((i128)1 << 40) && s.chance(12)) {
    // beside the midpoint of two neighbouring floats or doubles, where
    // rounding twice differs from rounding once
    int bits = s.chance(60) ? 24 : 53;
    int top = (int)s.range(bits + 1, 63);
    i128 v = ((i128)1 << top) | (i128)(s.rnd() & (((u64)1 << top) - 1));
    int cut = top - bits + 1;
    v = ((v >> cut) << cut) + ((i128)1 << (cut - 1)) + (i128)s.range(-1, 1);
    if (cut > 12 && s.chance(20)) v += (i128)s.range(-300, 300);
    if (lo < 0 && s.chance(40)) v = -v;
    if (v >= lo && v <= hi) return v;
  }
  int k = (int)s.below(10);
  if (k < 3) {
    i128 v = (i128)s.below(11) - 5;
    if (v >= lo && v <= hi) return v;
  } else if (k < 5) {
    i128 o = (i128)s.below(4);
    if (o > w) o = w;
    return s.chance(50) ? lo + o : hi - o;
  } else if (k < 7) {
    i64 a = lo < INT64_MIN ? INT64_MIN : (i64)lo, b = hi > INT64_MAX ? INT64_MAX : (i64)hi;
    return g.interesting(a, b);
  }
  unsigned __int128 r = (unsigned __int128)s.rnd();
  if (w < ((i128)1 << 62)) return lo + (i128)s.below((u64)w + 1);
  return lo + (i128)(r % ((unsigned __int128)w + 1));
}
static ld some_float(Gen &g, int dt, ld maxabs) {
  Src &s = g.s;
  int k = (int)s.below(12);
  ld x;
  if (k < 3) x = (ld)s.range(-8, 8);
  else if (k < 6) x = (ld)s.range(-4000, 4000) / 1000.0L;
  else if (k < 8) x = (ld)s.range(-1000000, 1000000) / 7.0L;
  else if (k < 9) x = 0;
  else if (k < 10 && !dict_d.empty()) {
    x = dict_d[s.below(dict_d.size())];
    if (s.chance(30)) x = -x;
    if (s.chance(30)) x += s.chance(50) ? 1 : -1;
  } else {
    int e = dt == F32 ? (int)s.range(-148, 127) : (int)s.range(-1070, 1020);
    x = ldexpl(1.0L + (ld)s.below(1000) / 1000.0L, e);
    if (s.chance(50)) x = -x;
  }
  if (x == 0 && s.chance(30)) x = -0.0L;
  if (fabsl(x) > maxabs) x = fmodl(x, maxabs);
  ld q = dt == F32 ? (ld)(float)x : (ld)(double)x;
  return q;
}
static ld special_float(Gen &g, int dt, u64 kinds = 9) {
  switch (g.s.below(kinds)) {
    case 0: return NAN;
    case 1: return INFINITY;
    case 2: return -INFINITY;
    case 3: return -0.0L;
    case 4: return dt == F32 ? (ld)FLT_MAX : (ld)DBL_MAX;
    case 5: return dt == F32 ? -(ld)FLT_MAX : -(ld)DBL_MAX;
    case 6: return dt == F32 ? (ld)FLT_MIN : (ld)DBL_MIN;
    case 7: return dt == F32 ? 1.4e-45L : 4.95e-324L;
    default: return 1;
  }
}
static ld big_of(int dt) { return dt == F32 ? (ld)FLT_MAX : (ld)DBL_MAX; }
// In a large tensor only the first and last elements and a random sprinkling
// are chosen with care; the rest follows a cheap pattern.
static bool careful(Gen &g, i64 i, i64 n) {
  return n <= 700 || i < 8 || i >= n - 8 || (g.s.rnd() & 63) == 0;
}
void Gen::fill_any(TV &v) {
  prepare(v);
  i64 n = v.count();
  int style = (int)s.below(5);
  for (i64 i = 0; i < n; i++) {
    if (style == 0 || !careful(*this, i, n)) { put_bits(v, i, s.p && n > 16 ? mix(i) : s.rnd()); continue; }
    if (!is_float(v.dt)) put_i(v, i, some_int(*this, int_min(v.dt), int_max(v.dt)));
    else if (style == 1 && s.chance(30)) put_val(v, i, special_float(*this, v.dt));
    else put_val(v, i, some_float(*this, v.dt, big_of(v.dt)));
  }
}
void Gen::fill_finite(TV &v, ld maxabs) {
  prepare(v);
  i64 n = v.count();
  int style = (int)s.below(4);
  ld m = maxabs;
  if (style == 0 && m > 4) m = 4;
  for (i64 i = 0; i < n; i++) {
    if (!is_float(v.dt)) {
      i128 hi = m > 9e18L ? (i128)9000000000000000000LL : (i128)m, lo = is_signed(v.dt) ? -hi : 0;
      if (hi > int_max(v.dt)) hi = int_max(v.dt);
      if (lo < int_min(v.dt)) lo = int_min(v.dt);
      put_i(v, i, careful(*this, i, n) ? some_int(*this, lo, hi) : lo + (i128)(mix(i) % (u64)(hi - lo < 1000 ? hi - lo + 1 : 1000)));
    } else if (style == 1) put_val(v, i, (ld)s.range(m > 8 ? -8 : -(i64)m, m > 8 ? 8 : (i64)m));
    else if (careful(*this, i, n)) put_val(v, i, some_float(*this, v.dt, m));
    else put_val(v, i, fmodl((ld)(i64)(mix(i) % 8001) / 1000.0L - 4, m));
  }
}
void Gen::fill_int(TV &v, i64 bound) {
  prepare(v);
  i64 n = v.count();
  for (i64 i = 0; i < n; i++) {
    i64 lo = is_signed(v.dt) ? -bound : 0;
    if (is_float(v.dt)) put_val(v, i, (ld)s.range(lo, bound));
    else {
      i128 l = lo, h = bound;
      if (l < int_min(v.dt)) l = int_min(v.dt);
      if (h > int_max(v.dt)) h = int_max(v.dt);
      put_i(v, i, some_int(*this, l, h));
    }
  }
}
void Gen::fill_nonneg(TV &v) {
  fill_finite(v, is_float(v.dt) ? big_of(v.dt) : (ld)int_max(v.dt));
  i64 n = v.count();
  for (i64 i = 0; i < n; i++) {
    if (!is_float(v.dt)) {
      i128 x = get_i(v, i);
      if (s.chance(35)) {      // around squares, where truncation matters
        i128 m = int_max(v.dt) < ((i128)1 << 52) ? int_max(v.dt) : (i128)1 << 52;
        i64 r = (i64)sqrtl((ld)m);
        i128 q = (i128)s.range(0, r);
        x = q * q + (i128)s.below(3) - 1;
        if (x < 0 || x > m) x = m;
      }
      if (x < 0) x = -(x + 1);
      put_i(v, i, x);
    } else {
      ld x = get_f(v, i);
      if (s.chance(3)) x = INFINITY;
      if (x < 0) x = -x;
      put_val(v, i, x);
    }
  }
}
static i128 upto(Gen &g, i128 m) {  // 0 .. m
  if (m <= 0) return 0;
  return some_int(g, 0, m);
}
// ------------------------------------------------------------------- operations
static bool ok_pair(int op, int dt, i128 x, i128 y) {
  i128 r = 0;
  if (op == K_DIV) {
    if (y == 0) return false;
    r = x / y;
  } else if (!is_signed(dt)) return true;
  if (op == K_ADD) r = x + y;
  if (op == K_SUB) r = x - y;
  if (op == K_MUL) r = x * y;
  return r >= int_min(dt) && r <= int_max(dt);
}
// avoid results an integer type cannot represent
static void fix_pair(Gen &g, Call &c) {
  TV &a = c.t[c.arg[0]], &b = c.t[c.arg[1]];
  if (is_float(a.dt)) return;
  i64 n = a.count();
  const i128 lo = int_min(a.dt), hi = int_max(a.dt);
  bool same = c.arg[0] == c.arg[1];
  for (i64 i = 0; i < n; i++) {
    i128 x = get_i(a, i), y = get_i(b, i);
    if (ok_pair(c.op, a.dt, x, y)) continue;
    if (same) {
      put_i(a, i, c.op == K_DIV ? 1 : x % 11);
      continue;
    }
    switch (c.op) {  // the partner as large as possible, or anything smaller
      case K_ADD: y = x > 0 ? upto(g, hi - x) : -upto(g, x - lo); break;
      case K_SUB: y = x < 0 ? -upto(g, hi + x < hi ? hi + x : 0) : upto(g, x - lo); break;
      case K_MUL: y = x == 0 ? 1 : hi / (x < 0 ? (x == lo ? hi : -x) : x); if (g.s.chance(50)) y = upto(g, y); break;
      default: y = 1 + upto(g, hi - 1);
    }
    if (!ok_pair(c.op, a.dt, x, y)) y = c.op == K_MUL || c.op == K_DIV ? 1 : 0;
    put_i(b, i, y);
  }
}
// a few elements that are infinite or not a number: they concern the results
// they contribute to and no other
static void sprinkle(Gen &g, TV &v, bool nan_only = false) {
  i64 n = v.count();
  if (!is_float(v.dt) || n < 1) return;
  for (u64 k = 1 + g.s.below(3); k-- > 0;)
    put_val(v, (i64)g.s.below((u64)n), nan_only ? NAN : special_float(g, (int)v.dt, 3));
}
// operands of sums of K products: no partial sum may leave the type
static void fill_products(Gen &g, TV &a, TV &b, i64 K) {
  Src &s = g.s;
  if (K < 1) K = 1;
  if (is_float(a.dt)) {
    int k = (int)s.below(10);
    if (k < 5) { g.fill_int(a, 1 + (i64)s.below(64)); g.fill_int(b, 1 + (i64)s.below(64)); }
    else if (k < 8) { g.fill_finite(a, 1e4L); g.fill_finite(b, 1e4L); }
    else if (k < 9) {  // wide exponents, no overflow
      ld m = a.dt == F32 ? 1e15L : 1e140L;
      g.fill_finite(a, m); g.fill_finite(b, m);
    } else {  // large exact integers
      i64 m = (i64)sqrtl((a.dt == F32 ? 16000000.0L : 9e15L) / (ld)K);
      g.fill_int(a, m < 1 ? 1 : m); g.fill_int(b, m < 1 ? 1 : m);
    }
    if (s.chance(5)) { if (s.chance(60)) sprinkle(g, a); if (s.chance(40)) sprinkle(g, b); }
    return;
  }
  i128 m = int_max(a.dt) / K;
  if (m > (i128)INT64_MAX) m = INT64_MAX;
  if (m < 1) m = 1;
  i64 ba, bb;
  if (s.chance(50)) { ba = bb = (i64)sqrtl((ld)m); while ((i128)ba * ba > m) ba--, bb--; }
  else { bb = 1 + (i64)(s.chance(70) ? s.below(8) : s.below((u64)sqrtl((ld)m) + 1)); ba = (i64)(m / bb); if (s.chance(50)) { i64 q = ba; ba = bb; bb = q; } }
  if ((i128)ba * bb > m || ba < 1 || bb < 1) { ba = 1; bb = 1; }
  g.fill_int(a, ba);
  g.fill_int(b, bb);
  // one row of extreme values, others zero: exactness near the limits
  if (K > 1 && s.chance(15)) {
    i64 na = a.count(), hit = (i64)s.below(K);
    for (i64 i = 0; i < na; i++) if (i % K != hit) put_i(a, i, 0);
  }
}
static void need(Call &c, int n) {
  c.nargs = n;
  for (int i = 0; i < n; i++) c.arg[i] = i;
}
static void small_window(Gen &g, i64 in, i64 maxk, int &k, int &st, int &pd, int &dl) {
  Src &s = g.s;
  k = (int)s.range(1, maxk);
  st = s.chance(50) ? 1 : (int)s.range(1, 4);
  pd = s.chance(45) ? 0 : (int)s.range(1, 4);
  dl = s.chance(50) ? 1 : (int)s.range(1, 4);
  for (int i = 0; i < 40 && (i64)dl * (k - 1) + 1 > in + 2 * (i64)pd; i++) {
    if (dl > 1 && s.chance(50)) dl--;
    else if (k > 1 && s.chance(60)) k--;
    else pd++;
  }
  if ((i64)dl * (k - 1) + 1 > in + 2 * (i64)pd) { k = 1; if (in + 2 * pd < 1) pd = 1; }
  if (s.chance(4)) st = (int)g.interesting(1, INT_MAX);
}

// Factors of a windowed operation whose product is at most work: the counts
// ahead (channels, batch) come first, then one output extent and one window
// extent per spatial dimension.
static void wide_factors(Gen &g, int ahead, int sd, std::vector<i64> &f, i64 limit) {
  Src &s = g.s;
  int n = ahead + 2 * sd;
  i64 room = limit;
  for (int k = (int)s.below(5); k > 0; k--) room = room / 2;
  f.assign(n, 1);
  int big = (int)s.below(n), second = (int)s.below(n);
  f[big] = g.interesting(1, s.chance(50) ? room : (i64)sqrtl((ld)room) + 1);
  room /= f[big];
  if (second != big && room > 1) { f[second] = g.interesting(1, room); room /= f[second]; }
  for (int j = 0, i = (int)s.below(n); j < n && room > 1; j++, i = (i + 1) % n)
    if (i != big && i != second) { f[i] = s.range(1, room < 4 ? room : 4); room /= f[i]; }
}
// parameters with which an input of the returned extent has out positions
static i64 wide_window(Gen &g, i64 out, i64 k, int &st, int &pd, int &dl) {
  Src &s = g.s;
  dl = s.chance(60) ? 1 : (int)s.range(1, 3);
  st = s.chance(60) ? 1 : (int)s.range(1, out > 1000 ? 3 : 7);
  i64 padded = (out - 1) * st + dl * (k - 1) + 1 + (i64)s.below(st);
  pd = s.chance(50) ? 0 : s.chance(70) ? (int)s.range(0, 3) : (int)s.range(0, padded / 2);
  if (padded - 2 * (i64)pd < 1) pd = (int)((padded - 1) / 2);
  return padded - 2 * (i64)pd;
}
static void tame(Gen &g, Call &c);
// Some extents become zero, in every operand that shares them.
static void make_empty(Gen &g, Call &c) {
  Src &s = g.s;
  if (c.t.empty()) return;
  TV &x = c.t[0];
  size_t nd = x.dims.size();
  TV *y = c.t.size() > 1 ? &c.t[1] : NULL;
  switch (c.op) {
    case K_CAST: case K_SQRT: case K_SIGMOID: case K_TANH: case K_SOFTMAX: case K_DROPOUT: case K_DUP:
      if (!nd) return;
      x.dims[s.below(nd)] = 0;
      break;
    case K_ADD: case K_SUB: case K_MUL: case K_DIV: {
      if (!nd) return;
      size_t i = s.below(nd);
      x.dims[i] = 0;
      if (y) y->dims[i] = 0;
      break;
    }
    case K_MATMUL: {
      if (!y) return;
      size_t nb = y->dims.size();
      int k = (int)s.below(8);
      if (k < 4) x.dims[nd - 1] = y->dims[nb == 1 ? 0 : nb - 2] = 0;
      else if (k == 4) { if (nd > 1) x.dims[nd - 2] = 0; else return; }
      else if (k == 5) { if (nb > 1) y->dims[nb - 1] = 0; else return; }
      else {
        size_t b = nd > nb ? nd : nb;
        if (b < 3) return;
        size_t i = 2 + s.below(b - 2);   // counted from the end
        if (i < nd) x.dims[nd - 1 - i] = 0;
        if (i < nb && !(i >= nd && nb < 3)) y->dims[nb - 1 - i] = 0;
      }
      break;
    }
    case K_DOT: {
      if (!y) return;
      size_t nb = y->dims.size();
      if (!nd || !nb) { if (nd) x.dims[s.below(nd)] = 0; if (nb) y->dims[s.below(nb)] = 0; break; }
      size_t i = s.below(nd), j = s.below(nb), q = nb == 1 ? 0 : nb - 2;
      if (s.chance(50) || nd == 1) i = nd - 1;
      if (i == nd - 1) { x.dims[i] = 0; y->dims[q] = 0; }
      else if (s.chance(50) || nb == 1 || j == q) x.dims[i] = 0;
      else y->dims[j] = 0;
      break;
    }
    case K_BN: {
      size_t i = s.below(nd);
      x.dims[i] = 0;
      if ((int)i == c.axis) for (size_t k = 1; k < c.t.size(); k++) c.t[k].dims[0] = 0;
      break;
    }
    case K_CONV: case K_CONV2D: case K_CONV3D: {
      if (!y || nd < 2) return;
      int k = (int)s.below(4);
      if (k == 0) x.dims[0] = 0;
      else if (k == 1) y->dims[0] = 0;
      else x.dims[1] = y->dims[1] = 0;
      break;
    }
    case K_POOL: x.dims[s.below(2)] = 0; break;
    default: return;
  }
  for (TV &v : c.t) if (v.count() == 0) v.data.clear();
}
void Gen::valid(int op, Call &c) {
  make_valid(op, c);
  if (s.below(1000) < 18) make_empty(*this, c);
  tame(*this, c);
}
void Gen::make_valid(int op, Call &c) {
  c = Call();
  c.op = op;
  c.adopt = (u32)s.below(32);
  i64 cap = budget;
  switch (op) {
    case K_ADD: case K_SUB: case K_MUL: case K_DIV: {
      TV a, b;
      a.dt = any_dt();
      a.dev = device();
      dims(a.dims, rank(0, 8), cap);
      b = a;
      fill_any(a);
      need(c, 2);
      c.t.push_back(a);
      if (s.chance(8)) c.arg[1] = 0;
      else { fill_any(b); c.t.push_back(b); }
      fix_pair(*this, c);
      if (s.chance(2) && a.dims.size()) {  // no elements at all
        for (size_t i = 0; i < c.t.size(); i++) { c.t[i].dims[0] = 0; c.t[i].data.clear(); }
      }
      break;
    }
    case K_MATMUL: {
      TV a, b;
      a.dt = b.dt = any_dt();
      a.dev = b.dev = device();
      int na = (int)s.range(1, 6), nb = (int)s.range(1, 6);
      if (s.chance(4)) { int top = s.chance(70) ? 9 : s.chance(70) ? 24 : 80; na = (int)s.range(1, top); nb = (int)s.range(1, s.chance(50) ? top : 5); }
      std::vector<i64> m;
      dims(m, 3, upto(cap * 4, 40000));  // M, K, N
      i64 room = cap * 20 / (m[0] * m[1] * m[2] + 1);
      if (room < 1) room = 1;
      if (big && s.chance(30)) {  // many small products
        for (i64 &e : m) e = s.range(1, 3);
        room = cap;
      } else if (room > 64) room = 64;
      int ba = na > 2 ? na - 2 : 0, bb = nb > 2 ? nb - 2 : 0, nn = ba > bb ? ba : bb;
      std::vector<i64> bd;
      dims(bd, nn, room);
      for (int i = 0; i < ba; i++) a.dims.push_back(s.chance(25) ? 1 : bd[nn - ba + i]);
      for (int i = 0; i < bb; i++) b.dims.push_back(s.chance(25) ? 1 : bd[nn - bb + i]);
      if (na >= 2) a.dims.push_back(m[0]);
      a.dims.push_back(m[1]);
      b.dims.push_back(m[1]);
      if (nb >= 2) b.dims.push_back(m[2]);
      fill_products(*this, a, b, m[1]);
      need(c, 2);
      c.t.push_back(a);
      if (a.dims == b.dims && s.chance(40)) {
        i64 q = (i64)sqrtl((ld)(is_float(a.dt) ? (i128)1000 : int_max(a.dt)) / (ld)m[1]);
        fill_int(c.t[0], q);
        c.arg[1] = 0;
      }
      else c.t.push_back(b);
      break;
    }
    case K_DOT: {
      TV a, b;
      a.dt = b.dt = any_dt();
      a.dev = b.dev = device();
      int k = (int)s.below(8);
      i64 K = 1;
      if (k < 2) {  // scalar with anything
        dims(a.dims, 0, 1);
        dims(b.dims, rank(0, 8), cap);
        if (k == 1) { std::vector<i64> q = a.dims; a.dims = b.dims; b.dims = q; }
      } else if (k < 3) {
        dims(a.dims, 1, cap);
        b.dims = a.dims;
        K = a.dims[0];
      } else if (k < 5) {
        dims(a.dims, s.chance(95) ? (int)s.range(2, 6) : (int)s.range(7, s.chance(70) ? 22 : 80), cap);
        K = a.dims.back();
        b.dims.assign(1, K);
      } else if (k < 6) {
        std::vector<i64> m;
        dims(m, 3, cap * 4);
        a.dims.push_back(m[0]); a.dims.push_back(m[1]);
        b.dims.push_back(m[1]); b.dims.push_back(m[2]);
        K = m[1];
      } else {
        int na = (int)s.range(3, 5), nb = (int)s.range(3, 5);
        if (s.chance(4)) { int top = s.chance(70) ? 12 : 40; na = (int)s.range(3, top); nb = (int)s.range(3, top); }
        std::vector<i64> m;
        dims(m, na + nb - 1, upto(cap * 4, 20000));
        K = m[0];
        for (int i = 1; i < na; i++) a.dims.push_back(m[i]);
        a.dims.push_back(K);
        for (int i = 0; i < nb - 1; i++) b.dims.push_back(m[na + i]);
        b.dims.insert(b.dims.end() - 1, K);
      }
      fill_products(*this, a, b, K);
      need(c, 2);
      c.t.push_back(a);
      if (a.dims == b.dims && s.chance(30)) {
        i64 q = (i64)sqrtl((ld)(is_float(a.dt) ? (i128)1000 : int_max(a.dt)) / (ld)K);
        fill_int(c.t[0], q);
        c.arg[1] = 0;
      } else c.t.push_back(b);
      break;
    }
    case K_CAST: {
      TV a;
      a.dt = any_dt();
      a.dev = device();
      dims(a.dims, rank(0, 8), cap);
      c.dt = any_dt();
      fill_any(a);
      i64 n = a.count();
      if (is_float(a.dt))
        for (i64 i = 0; i < n; i++) {
          ld x = get_f(a, i);
          if (is_float(c.dt)) {
            if (a.dt == F64 && c.dt == F32 && isfinite((double)x) && fabsl(x) > 3.4e38L) put_val(a, i, 1.5L);
            continue;
          }
          ld hi = (ld)int_max(c.dt), lo = (ld)int_min(c.dt);
          bool low = !(x == x) || truncl(x) < lo, high = truncl(x) > hi;
          if (low || high || s.chance(n > 700 ? 1 : 40)) {
            ld y = (ld)some_int(*this, int_min(c.dt), int_max(c.dt));
            if (s.chance(40)) y += (ld)s.below(1000) / 1000.0L * (s.chance(50) ? 1 : -1);
            y = a.dt == F32 ? (ld)(float)y : (ld)(double)y;
            while (truncl(y) > hi) y = a.dt == F32 ? (ld)nextafterf((float)y, 0) : (ld)nextafter((double)y, 0);
            while (truncl(y) < lo) y = a.dt == F32 ? (ld)nextafterf((float)y, 1) : (ld)nextafter((double)y, 1);
            put_val(a, i, y);
          }
        }
      need(c, 1);
      c.t.push_back(a);
      break;
    }
    case K_FULL: {
      c.dt = any_dt();
      c.dev = device();
      if (s.chance(8)) c.dev.type = DEVICE_CUDA;
      dims(c.la, rank(0, 8), cap);
      if (s.chance(3) && c.la.size()) c.la[s.below(c.la.size())] = 0;
      TV v;
      v.dt = F64;
      v.dims.assign(1, 1);
      fill_any(v);
      ld x = get_f(v, 0);
      if (c.dt == F32) {
        if (isfinite((double)x) && fabsl(x) > 3.4e38L) x = 0.1L;
      } else if (c.dt != F64) {
        ld hi = (ld)int_max(c.dt), lo = (ld)int_min(c.dt);
        if (!(x == x) || truncl(x) > hi || truncl(x) < lo || s.chance(60)) {
          x = (ld)some_int(*this, int_min(c.dt), int_max(c.dt));
          if (s.chance(40)) x += (ld)s.below(1000) / 1000.0L * (s.chance(50) ? 1 : -1);
          x = (ld)(double)x;
          while (truncl(x) > hi) x = (ld)nextafter((double)x, 0);
          while (truncl(x) < lo) x = (ld)nextafter((double)x, 1);
        }
      }
      c.d = (double)x;
      break;
    }
    case K_CREATE: {
      c.dt = any_dt();
      c.dev = device();
      if (s.chance(15)) c.dev.type = DEVICE_CUDA;
      dims(c.la, rank(0, 10), cap);
      c.give_data = s.chance(60);
      if (s.chance(4) && c.la.size()) { c.la[s.below(c.la.size())] = 0; c.give_data = false; }
      TV v;
      v.dt = c.dt;
      v.dims = c.la;
      fill_any(v);
      c.t.push_back(v);
      c.len = c.give_data ? (u32)v.data.size() : (u32)s.below(100);
      break;
    }
    case K_DUP: case K_RESHAPE: case K_SQUEEZE: case K_RELU: {
      TV a;
      a.dt = any_dt();
      a.dev = device();
      if (s.chance(15)) a.dev.type = DEVICE_CUDA;
      dims(a.dims, rank(0, 10), cap);
      if (op == K_SQUEEZE)
        for (size_t i = 0; i < a.dims.size(); i++) if (s.chance(40)) a.dims[i] = 1;
      if ((op == K_RESHAPE || op == K_SQUEEZE || op == K_RELU) && s.chance(3) && a.dims.size())
        a.dims[s.below(a.dims.size())] = 0;
      fill_any(a);
      need(c, 1);
      c.t.push_back(a);
      if (op == K_RESHAPE) {  // split and merge factors, insert ones
        i64 n = a.count();
        if (n == 0) {
          dims(c.la, (int)s.range(1, 5), 200);
          c.la[s.below(c.la.size())] = 0;
        } else {
          i64 rest = n;
          while (rest > 1 && c.la.size() < 9) {
            i64 f = rest;
            if (s.chance(80))
              for (int t = 0; t < 8; t++) { i64 q = s.range(1, rest < 64 ? rest : 64); if (rest % q == 0) { f = q; break; } }
            c.la.insert(c.la.begin() + s.below(c.la.size() + 1), f);
            rest /= f;
          }
          if (rest > 1) c.la.push_back(rest);
          int ones = (int)s.below(4);
          for (int i = 0; i < ones; i++) c.la.insert(c.la.begin() + s.below(c.la.size() + 1), 1);
        }
      }
      if (op == K_SQUEEZE) {
        int m = a.dims.empty() ? 0 : (int)s.below(2 * a.dims.size() + 2);
        if (s.chance(25)) m = 0;
        for (int i = 0; i < m; i++) c.la.push_back((i64)s.below(a.dims.size()));
      }
      break;
    }
    case K_SLICE: {
      TV a;
      a.dt = any_dt();
      a.dev = device();
      if (s.chance(15)) a.dev.type = DEVICE_CUDA;
      dims(a.dims, rank(0, 7), cap);
      fill_any(a);
      for (size_t i = 0; i < a.dims.size(); i++) {
        i64 b, z, st, d = a.dims[i];
        b = s.chance(25) ? 0 : s.range(0, d - 1);
        z = s.chance(20) ? 0 : s.chance(50) ? d - b : s.range(0, d - b);
        st = s.chance(40) ? 1 : s.chance(85) ? s.range(1, 6) : interesting(1, INT_MAX);
        c.ia[0].push_back((int)b);
        c.ia[1].push_back((int)z);
        c.ia[2].push_back((int)st);
      }
      need(c, 1);
      c.t.push_back(a);
      break;
    }
    case K_SQRT: case K_SIGMOID: case K_TANH: {
      TV a;
      a.dt = op == K_SQRT ? any_dt() : (int)s.range(F32, F64);
      a.dev = device();
      if (s.chance(15)) a.dev.type = DEVICE_CUDA;
      dims(a.dims, rank(0, 8), cap);
      if (s.chance(3) && a.dims.size()) a.dims[s.below(a.dims.size())] = 0;
      if (op == K_SQRT) fill_nonneg(a);
      else if (s.chance(50)) fill_any(a);
      else fill_finite(a, s.chance(50) ? 5.0L : 1000.0L);
      need(c, 1);
      c.t.push_back(a);
      break;
    }
    case K_SOFTMAX: {
      TV a;
      a.dt = (int)s.range(F32, F64);
      a.dev = device();
      if (s.chance(15)) a.dev.type = DEVICE_CUDA;
      dims(a.dims, rank(0, 7), cap);
      ld m[] = {3.0L, 30.0L, 1000.0L, big_of(a.dt)};
      fill_finite(a, m[s.below(4)]);
      if (s.chance(20)) {  // a common offset
        ld off = (ld)s.range(-2000, 2000);
        for (i64 i = 0; i < a.count(); i++) if (fabsl(get_f(a, i)) < 1e30L) put_val(a, i, get_f(a, i) + off);
      }
      if (s.chance(8)) {  // masked elements, or something that is no number
        if (s.chance(50)) sprinkle(*this, a);
        else for (i64 i = 0; i < a.count(); i++) if (s.chance(40)) put_val(a, i, -INFINITY);
      }
      c.axis = (int)s.range(-1, (i64)a.dims.size() - 1);
      need(c, 1);
      c.t.push_back(a);
      break;
    }
    case K_DROPOUT: {
      TV a;
      a.dt = any_dt();
      a.dev = device();
      if (s.chance(15)) a.dev.type = DEVICE_CUDA;
      dims(a.dims, rank(0, 7), cap);
      fill_any(a);
      int k = (int)s.below(10);
      c.d = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? -0.0 : k == 3 ? nextafter(1, 0) : k == 4 ? 5e-324 : (double)s.below(101) / 100.0;
      need(c, 1);
      c.t.push_back(a);
      break;
    }
    case K_BN: {
      TV a;
      a.dt = (int)s.range(F32, F64);
      a.dev = device();
      dims(a.dims, (int)s.range(2, 5), upto(cap, 600));
      c.axis = s.chance(50) ? 1 : (int)a.dims.size() - 1;
      if (big && s.chance(12)) {  // more samples, channels or elements than 16 bits count
        for (i64 &e : a.dims) e = 1;
        a.dims[s.below(a.dims.size())] = (s.chance(50) ? 32768 : 65536) + s.range(0, 900);
        if (s.chance(50)) a.dims[s.below(a.dims.size())] *= 2;
      }
      ld m = s.chance(80) ? 100.0L : 1e6L;
      fill_finite(a, m);
      if (s.chance(5)) sprinkle(*this, a);
      c.t.push_back(a);
      need(c, 5);
      for (int i = 1; i < 5; i++) {
        TV p;
        p.dt = a.dt;
        p.dev = a.dev;
        p.dims.assign(1, a.dims[c.axis]);
        fill_finite(p, m);
        if (i == 4)
          for (i64 k = 0; k < p.count(); k++) put_val(p, k, fabsl(get_f(p, k)) + (s.chance(70) ? 0.01L : 1e-6L));
        c.t.push_back(p);
      }
      if (s.chance(6)) {  // one tensor in several roles
        for (i64 k = 0; k < c.t[1].count(); k++) put_val(c.t[1], k, fabsl(get_f(c.t[1], k)) + 0.01L);
        c.t.resize(2);
        for (int i = 2; i < 5; i++) c.arg[i] = 1;
      }
      double eps[] = {1e-5, 0, 1e-3, 1e-12, 0.5, 3.0};
      c.d = eps[s.below(6)];
      break;
    }
    case K_CONV: case K_CONV2D: case K_CONV3D: {
      int nd = op == K_CONV2D ? 4 : op == K_CONV3D ? 5 : (int)s.range(3, 6);
      if (op == K_CONV && s.chance(5)) nd = s.chance(40) ? 2 : (int)s.range(7, s.chance(70) ? 12 : 40);
      int sd = nd - 2;
      TV x, w;
      x.dev = device();
      w.dev = x.dev;
      i64 work = cap * 30;
      c.groups = s.chance(45) ? 1 : (int)s.range(2, 4);
      i64 cin = s.range(1, c.groups > 1 ? 3 : 4), cout = s.range(1, 3);
      i64 nb = s.chance(50) ? 1 : s.range(1, 3);
      i64 per = work / (nb * cin * cout * c.groups);
      if (per < 1) per = 1;
      std::vector<i64> in, f;
      ld volume = 1e9L;
      if (s.chance(big ? 80 : 12)) {  // any count may be large
        wide_factors(*this, 4, sd, f, upto(cap * 30, 40000));
        nb = f[0]; cin = f[1]; cout = f[2]; c.groups = (int)f[3];
        std::vector<int> q[3];
        for (int i = 0; i < sd; i++) {
          int st, pd, dl;
          in.push_back(wide_window(*this, f[4 + i], f[4 + sd + i], st, pd, dl));
          q[0].push_back(st); q[1].push_back(pd); q[2].push_back(dl);
        }
        volume = (ld)nb * cin * c.groups;
        for (int i = 0; i < sd; i++) volume *= in[i];
        if (volume <= cap * 30) for (int i = 0; i < 3; i++) c.ia[i] = q[i];
        else { nb = cin = cout = 1; c.groups = 1; in.clear(); }
      }
      if (in.empty() && sd > 0) { volume = 1e9L; dims(in, sd, upto(per, 400)); }
      x.dims.push_back(nb);
      x.dims.push_back(cin * c.groups);
      w.dims.push_back(cout * c.groups);
      w.dims.push_back(cin);
      for (int i = 0; i < sd; i++) {
        if (volume <= cap * 30) { x.dims.push_back(in[i]); w.dims.push_back(f[4 + sd + i]); continue; }
        int k, st, pd, dl;
        small_window(*this, in[i], sd < 3 ? 4 : sd < 5 ? 3 : 2, k, st, pd, dl);
        if (sd > 6) { if (s.chance(80)) { k = 1; pd = 0; dl = 1; } else if (pd > 1) pd = 1; }
        x.dims.push_back(in[i]);
        w.dims.push_back(k);
        c.ia[0].push_back(st); c.ia[1].push_back(pd); c.ia[2].push_back(dl);
      }
      i64 K = 1;
      for (int i = 1; i < nd; i++) K *= w.dims[i];
      fill_products(*this, x, w, K);
      need(c, 2);
      c.t.push_back(x);
      if (x.dims == w.dims && c.groups == 1 && s.chance(50)) { fill_int(c.t[0], 20); c.arg[1] = 0; }
      else c.t.push_back(w);
      break;
    }
    case K_POOL: {
      int nd = (int)s.range(3, 5), sd = nd - 2;
      TV x;
      x.dt = any_dt();
      x.dev = device();
      if (s.chance(15)) x.dev.type = DEVICE_CUDA;
      std::vector<i64> in, f;
      bool wide = false;
      if (s.chance(big ? 80 : 12)) {
        wide_factors(*this, 2, sd, f, upto(cap * 50, 100000));
        ld volume = (ld)f[0] * f[1];
        std::vector<int> q[4];
        for (int i = 0; i < sd; i++) {
          int st, pd, dl;
          in.push_back(wide_window(*this, f[2 + i], f[2 + sd + i], st, pd, dl));
          volume *= in[i];
          q[0].push_back((int)f[2 + sd + i]); q[1].push_back(st); q[2].push_back(pd); q[3].push_back(dl);
        }
        wide = volume <= cap * 50;
        if (wide) for (int i = 0; i < 4; i++) c.ia[i] = q[i];
      }
      if (!wide) { in.clear(); dims(in, sd, upto(cap, 600)); }
      x.dims.push_back(wide ? f[0] : s.range(1, 3));
      x.dims.push_back(wide ? f[1] : s.range(1, 3));
      strcpy(c.mode, s.chance(50) ? "max" : "avg");
      i64 K = 1;
      for (int i = 0; i < sd; i++) {
        if (wide) { x.dims.push_back(in[i]); K *= f[2 + sd + i]; continue; }
        int k, st, pd, dl;
        small_window(*this, in[i], 5, k, st, pd, dl);
        x.dims.push_back(in[i]);
        c.ia[0].push_back(k); c.ia[1].push_back(st); c.ia[2].push_back(pd); c.ia[3].push_back(dl);
        K *= k;
      }
      if (!strcmp(c.mode, "max")) {
        fill_finite(x, is_float(x.dt) ? big_of(x.dt) : (ld)int_max(x.dt));
        if (s.chance(30)) {  // nothing but negative numbers
          for (i64 i = 0; i < x.count(); i++) {
            if (is_float(x.dt)) { ld v = get_f(x, i); put_val(x, i, v > 0 ? -v : v); }
            else if (is_signed(x.dt)) { i128 v = get_i(x, i); put_i(x, i, v > 0 ? -v : v); }
          }
        }
        if (s.chance(5)) sprinkle(*this, x);
      } else if (is_float(x.dt)) {
        fill_finite(x, x.dt == F32 ? 1e6L : 1e12L);
        if (s.chance(5)) sprinkle(*this, x);
      }
      else {
        i128 m = ((i128)1 << 50) / K;
        if (m > int_max(x.dt)) m = int_max(x.dt);
        fill_int(x, (i64)m);
      }
      need(c, 1);
      c.t.push_back(x);
      break;
    }
  }
}
// --------------------------------------------------------------------- invalid
static int bad_int(Gen &g) {
  static const int v[] = {0, -1, -2, INT_MIN, INT_MAX, INT_MIN + 1, INT_MAX - 1, 1 << 30, -(1 << 30), 65536, 46341};
  return g.s.chance(70) ? g.s.pick(v) : (int)g.interesting(INT_MIN, INT_MAX);
}
static i64 bad_long(Gen &g) {
  static const i64 v[] = {-1, -2, INT64_MIN, INT64_MAX, (i64)1 << 32, (i64)1 << 31, -((i64)1 << 32), (i64)1 << 62, 3037000500LL, INT_MAX};
  return g.s.chance(70) ? g.s.pick(v) : g.interesting(INT64_MIN, INT64_MAX);
}
static void reshape_tensor(Gen &g, TV &v) {  // some other small shape
  std::vector<i64> d = v.dims;
  int k = (int)g.s.below(7);
  if (k == 0 && d.size()) d[g.s.below(d.size())] += 1;
  else if (k == 1 && d.size()) { i64 &e = d[g.s.below(d.size())]; if (e > 1) e -= 1; else e += 2; }
  else if (k == 2) d.insert(d.begin() + g.s.below(d.size() + 1), 1);
  else if (k == 3 && d.size()) d.erase(d.begin() + g.s.below(d.size()));
  else if (k == 4 && d.size() > 1) { size_t i = g.s.below(d.size() - 1); i64 q = d[i]; d[i] = d[i + 1]; d[i + 1] = q; }
  else if (k == 5 && d.size()) d[g.s.below(d.size())] = 0;
  else g.dims(d, g.rank(0, 20), 64);
  ld p = 1;
  for (i64 e : d) p *= (ld)e;
  if (p > 20000) return;
  v.dims = d;
  g.fill_finite(v, 3);
}
// spatial dimensions that the first n operands and the parameters share
static size_t spatial(const Call &c, int n) {
  size_t sd = c.ia[0].size();
  for (int i = 0; i < n; i++) {
    size_t r = c.t[i].dims.size();
    if (r < sd + 2) sd = r > 2 ? r - 2 : 0;
  }
  return sd;
}
// Elements whose result the type cannot hold are outside the properties; under
// the undefined-behaviour sanitizer such calls are made with small values.
static void tame(Gen &g, Call &c) {
#ifdef VF_ASAN
  switch (c.op) {
    case K_ADD: case K_SUB: case K_MUL: case K_DIV: case K_MATMUL: case K_DOT: case K_CAST: case K_FULL:
    case K_CONV: case K_CONV2D: case K_CONV3D: case K_POOL: case K_BN: break;
    default: return;
  }
  Exp e;
  classify(c, e);
  if (e.cls == INVALID) return;
  bool ok = e.cls == VALID && cost(c, e) <= 4e5L;
  if (ok) {
    expect_values(c, e);
    for (u8 k : e.care) if (!k) ok = false;
    if (c.op == K_FULL) ok = c.d > -1 && c.d < 128;
    if (c.op == K_CAST && is_float(c.in(0).dt)) for (u8 k : e.care) if (!k) ok = false;
  }
  if (ok) return;
  c.d = 1;
  for (TV &v : c.t) {
    i64 n = v.count();
    for (i64 i = 0; i < n; i++) put_val(v, i, (ld)g.s.range(1, 3));
  }
#endif
}
static void pad_buffer(Call &c) {  // a buffer as large as the tensor
  if (c.op != K_CREATE || !c.give_data) return;
  Exp e;
  classify(c, e);
  if (e.cls != INVALID && c.t[0].data.size() < c.len && c.len < 1000000) c.t[0].data.resize(c.len, 7);
}
void Gen::invalid(int op, Call &c) {
  make_invalid(op, c);
  pad_buffer(c);
  tame(*this, c);
}
// A call that agrees with another one in all but an aspect or two: whatever the
// library might remember of the one must not show in the other.
static int other_type(Gen &g, int dt, bool same_size) {
  for (int i = 0; i < 40; i++) {
    int o = (int)g.s.below(NDT);
    if (o != dt && (!same_size || kSize[o] == kSize[dt])) return o;
  }
  return (dt + 1) % NDT;
}
void Gen::sibling(const Call &like, Call &c) {
  c = like;
  int rounds = s.chance(80) ? 1 : 2;
  for (int r = 0; r < rounds; r++) {
    int k = (int)s.below(11);
    if (k >= 8) k = c.t.empty() || c.op == K_CREATE ? 5 : 2;
    switch (k) {
      case 0: break;                         // the very same call
      case 1: {                              // another type
        bool same = s.chance(70), bytes = same && s.chance(50);
        int from = c.t.empty() ? c.dt : c.t[0].dt, to = other_type(*this, from, same);
        same = kSize[from] == kSize[to];
        if (c.op == K_CAST && s.chance(50)) { c.dt = other_type(*this, c.dt, s.chance(50)); break; }
        for (TV &v : c.t)
          if (v.dt == from) {
            v.dt = to;
            if (!bytes || !same) fill_finite(v, 3);
          }
        if (c.op == K_FULL || c.op == K_CREATE) {
          if (c.op == K_CREATE) c.len = c.len / kSize[c.dt] * kSize[to];
          c.dt = to;
        }
        break;
      }
      case 2: {                              // other data
        if (c.t.empty()) break;
        TV &v = c.t[s.below(c.t.size())];
        i64 n = v.count();
        if (n > 0 && s.chance(40)) {
          i64 i = s.chance(30) ? 0 : s.chance(40) ? n - 1 : (i64)s.below(n);
          put_val(v, i, (ld)s.range(0, 5));
        } else if (n > 0 && s.chance(30)) {  // the same values, elsewhere
          size_t sz = kSize[v.dt], h = s.below((u64)n) * sz;
          std::vector<u8> d(v.data.begin() + h, v.data.end());
          d.insert(d.end(), v.data.begin(), v.data.begin() + h);
          v.data = d;
        } else fill_finite(v, s.chance(50) ? 3 : 100);
        break;
      }
      case 3: {                              // extents in another order
        size_t i = s.below(8), j = i + 1;
        for (TV &v : c.t)
          if (j < v.dims.size()) std::swap(v.dims[i], v.dims[j]);
          else if (v.dims.size() > 1) std::swap(v.dims[v.dims.size() - 1], v.dims[v.dims.size() - 2]);
        if (c.op == K_FULL || c.op == K_CREATE || c.op == K_RESHAPE)
          if (c.la.size() > 1) { i %= c.la.size() - 1; std::swap(c.la[i], c.la[i + 1]); }
        break;
      }
      case 4: {                              // other parameter arrays
        int q = (int)s.below(4);
        if (!c.ia[q].empty()) { int &x = c.ia[q][s.below(c.ia[q].size())]; x = x > 0 && s.chance(50) ? x - 1 : x < 1000 ? x + 1 : 1; }
        break;
      }
      case 5: {                              // other scalars
        int q = (int)s.below(4);
        if (q == 0) c.d = c.d == 0 ? -c.d : s.chance(50) ? -c.d : nextafter(c.d, s.chance(50) ? 1e300 : -1e300);
        else if (q == 1) c.d = c.op == K_DROPOUT ? 0.25 : c.d + 1;
        else if (q == 2) c.axis += s.chance(50) ? 1 : -1;
        else if (!strcmp(c.mode, "max")) strcpy(c.mode, "avg");
        else if (!strcmp(c.mode, "avg")) strcpy(c.mode, "max");
        else if (c.groups > 1) c.groups--;
        else if (!c.la.empty() && c.op != K_FULL && c.op != K_CREATE) c.la[s.below(c.la.size())] += s.chance(50) ? 1 : -1;
        break;
      }
      case 6: {                              // another device
        int id = (int)s.range(0, 7);
        for (TV &v : c.t) v.dev.id = id;
        c.dev.id = id;
        if (s.chance(20)) { for (TV &v : c.t) v.dev.type = DEVICE_CUDA; c.dev.type = DEVICE_CUDA; }
        break;
      }
      case 7: {                              // one extent more or less
        if (c.t.empty() || c.op == K_CREATE) { if (!c.la.empty()) { i64 &x = c.la[s.below(c.la.size())]; x = x > 1 ? x - 1 : x + 1; } break; }
        TV &v = c.t[s.below(c.t.size())];
        if (v.dims.empty() || v.count() > 100000) break;
        i64 &x = v.dims[s.below(v.dims.size())];
        x = x > 1 && s.chance(60) ? x - 1 : x < 50 ? x + 1 : 1;
        std::vector<u8> old = v.data;
        fill_finite(v, 3);
        size_t m = old.size() < v.data.size() ? old.size() : v.data.size();
        if (m && s.chance(50)) memcpy(v.data.data(), old.data(), m);
        break;
      }
    }
  }
  pad_buffer(c);
  tame(*this, c);
}
// a parameter that agrees with a good one in its low bits only
static bool alias(Gen &g, Call &c) {
  Src &s = g.s;
  static const i64 steps[] = {1 << 8, 1 << 16, 1 << 24, (i64)1 << 31, (i64)1 << 32};
  i64 by = s.pick(steps);
  if (s.chance(40)) by = -by;
  int *p = NULL;
  if (c.op == K_SOFTMAX || c.op == K_BN) p = &c.axis;
  else if (c.op == K_SQUEEZE || c.op == K_RESHAPE) {
    if (c.la.empty()) return false;
    c.la[s.below(c.la.size())] += by;
    return true;
  } else if (c.op >= K_CONV && c.op <= K_CONV3D && s.chance(30)) p = &c.groups;
  else {
    int k = (int)s.below(4);
    if (c.ia[k].empty()) return false;
    p = &c.ia[k][s.below(c.ia[k].size())];
  }
  i64 v = *p + by;
  if (v < INT_MIN || v > INT_MAX) return false;
  *p = (int)v;
  return true;
}
void Gen::make_invalid(int op, Call &c) {
  i64 keep = budget;
  if (budget > 300) budget = 300;
  make_valid(op, c);
  budget = keep;
  int rounds = s.chance(80) ? 1 : 2;
  for (int r = 0; r < rounds; r++) {
    if (op >= K_RESHAPE && s.chance(5) && alias(*this, c)) continue;
    switch (op) {
      case K_ADD: case K_SUB: case K_MUL: case K_DIV: case K_MATMUL: case K_DOT: {
        if (c.arg[0] == c.arg[1]) { c.t.push_back(c.t[0]); c.arg[1] = 1; }
        TV &v = c.t[s.below(2)];
        int k = (int)s.below(op == K_DIV ? 6 : 4);
        if (k == 0) { v.dt = (v.dt + 1 + (int)s.below(NDT - 1)) % NDT; fill_finite(v, 3); }
        else if (k == 1) v.dev.type = DEVICE_CUDA;
        else if (k < 4) reshape_tensor(*this, v);
        else if (!is_float(c.t[0].dt) && c.t[1].dt == c.t[0].dt && c.t[0].count() == c.t[1].count()) {
          i64 n = c.t[1].count();
          for (int q = 0; n > 0 && q < 2; q++) {
            i64 i = s.chance(40) ? n - 1 : (i64)s.below(n);
            if (k == 4) put_i(c.t[1], i, 0);
            else if (is_signed(c.t[0].dt)) { put_i(c.t[0], i, int_min(c.t[0].dt)); put_i(c.t[1], i, -1); }
          }
        }
        break;
      }
      case K_FULL: case K_CREATE: {
        int k = (int)s.below(op == K_CREATE ? 6 : 3);
        if (k < 2 && c.la.empty()) c.la.push_back(1);
        if (k == 0) c.la[s.below(c.la.size())] = -(i64)s.range(1, 5);
        else if (k == 1) {
          c.la[s.below(c.la.size())] = bad_long(*this);
          if (s.chance(60)) c.la.push_back(bad_long(*this));
          if (op == K_FULL || !c.give_data) {  // never let a huge request succeed
            ld p = 1;
            bool neg = false;
            for (i64 e : c.la) { p *= (ld)e; neg = neg || e < 0; }
            if (!neg && p < 9.3e18L) c.la.push_back(-1);
          }
        } else if (k == 2) c.la.push_back(-1);
        else {  // wrong byte length
          c.give_data = true;
          i64 n = 1;
          for (i64 e : c.la) n *= e;
          if (n < 0 || n > 100000) break;
          if (c.t[0].data.empty()) c.t[0].data.assign(16, 7);
          i64 other = s.chance(30) ? 0 : s.chance(50) ? n + (s.chance(50) ? 1 : -1) : interesting(0, n * 2 + 3);
          if (other < 0) other = n + 1;
          c.len = (u32)(other * kSize[c.dt]);
          if (s.chance(20)) c.len = (u32)bad_int(*this) / kSize[c.dt] * kSize[c.dt];
          if (s.chance(25) && n < 100000000) c.len = (u32)(n * kSize[c.dt]) + (u32)s.range(1, 7);
        }
        break;
      }
      case K_RESHAPE: {
        int k = (int)s.below(5);
        if (c.la.empty()) c.la.push_back(1);
        i64 &e = c.la[s.below(c.la.size())];
        if (k == 0) e += 1;
        else if (k == 1) e = -e;
        else if (k == 2) { e = bad_long(*this); if (s.chance(50)) c.la.push_back(bad_long(*this)); }
        else if (k == 3) c.la.push_back((i64)s.range(0, 3));
        else { e = -e; c.la.push_back(-1); }  // the product stays right
        break;
      }
      case K_SLICE: {
        if (c.ia[0].empty()) break;
        size_t i = s.below(c.ia[0].size());
        i64 d = c.t[0].dims[i];
        switch (s.below(8)) {
          case 0: c.ia[0][i] = (int)d; c.ia[1][i] = 0; break;
          case 1: c.ia[0][i] = (int)d; break;
          case 2: c.ia[1][i] = (int)(d - c.ia[0][i] + 1); break;
          case 3: c.ia[0][i] = bad_int(*this); break;
          case 4: c.ia[1][i] = bad_int(*this); break;
          case 5: c.ia[2][i] = s.chance(50) ? 0 : -1; break;
          case 6: c.ia[2][i] = bad_int(*this); break;
          default: c.ia[0][i] = -1; break;
        }
        break;
      }
      case K_SQUEEZE:
        if (s.chance(80)) {
          i64 bad[] = {(i64)c.t[0].dims.size(), -1, bad_long(*this), (i64)c.t[0].dims.size() + 1};
          c.la.insert(c.la.begin() + s.below(c.la.size() + 1), bad[s.below(4)]);
        } else c.la_n = -2 - (i64)s.below(3);
        break;
      case K_SQRT: {
        TV &v = c.t[0];
        if (!is_signed(v.dt)) { v.dt = s.chance(50) ? I32 : F32; fill_nonneg(v); }
        i64 n = v.count();
        if (!n) break;
        i64 i = s.chance(40) ? n - 1 : (i64)s.below(n);
        if (is_float(v.dt)) { ld q[] = {-1, -1e-30L, -INFINITY, -0.5L, v.dt == F32 ? -1.4e-45L : -4.95e-324L}; put_val(v, i, q[s.below(5)]); }
        else put_i(v, i, s.chance(50) ? -1 : (i128)int_min(v.dt));
        break;
      }
      case K_SIGMOID: case K_TANH:
        c.t[0].dt = (int)s.below(F32);
        fill_any(c.t[0]);
        break;
      case K_SOFTMAX: {
        i64 nd = (i64)c.t[0].dims.size();
        int v[] = {-2, (int)nd, (int)nd + 1, INT_MAX, INT_MIN, -(int)nd, bad_int(*this)};
        c.axis = v[s.below(7)];
        break;
      }
      case K_DROPOUT: {
        double v[] = {-1, 1.5, NAN, INFINITY, -INFINITY, -5e-324, nextafter(1, 2), 100, -0.01, 1e300};
        c.d = v[s.below(10)];
        break;
      }
      case K_BN: {
        while (c.t.size() < 5) { c.t.push_back(c.t[1]); }
        for (int i = 0; i < 5; i++) c.arg[i] = i;
        TV &p = c.t[1 + s.below(4)];
        switch (s.below(8)) {
          case 0: p.dt = (p.dt + 1 + (int)s.below(NDT - 1)) % NDT; fill_finite(p, 3); break;
          case 1: p.dims[0] += s.chance(50) ? 1 : (p.dims[0] > 1 ? -1 : 2); fill_finite(p, 3); break;
          case 2: p.dims.insert(p.dims.begin() + s.below(2), 1); break;
          case 3: c.d = s.chance(50) ? -1e-3 : -INFINITY; break;
          case 4: { int v[] = {0, -1, 2, (int)c.t[0].dims.size(), INT_MAX, INT_MIN}; c.axis = v[s.below(6)]; break; }
          case 5: reshape_tensor(*this, c.t[0]); break;
          case 6: {
            i64 n = c.t[4].count();
            if (n > 0 && is_float(c.t[4].dt)) put_val(c.t[4], s.chance(40) ? n - 1 : (i64)s.below(n), -100);
            break;
          }
          default: for (size_t i = 0; i < c.t.size(); i++) { c.t[i].dt = I32; fill_int(c.t[i], 5); } c.t[1].dt = U8; fill_int(c.t[1], 3); break;
        }
        break;
      }
      case K_CONV: case K_CONV2D: case K_CONV3D: {
        if (c.arg[0] == c.arg[1]) { c.t.push_back(c.t[0]); c.arg[1] = 1; }
        size_t sd = spatial(c, 2);
        if (sd == 0) break;
        size_t i = s.below(sd);
        switch (s.below(op == K_CONV ? 11 : 13)) {
          case 0: c.ia[0][i] = s.chance(50) ? 0 : bad_int(*this); break;
          case 1: c.ia[1][i] = s.chance(50) ? -1 : bad_int(*this); break;
          case 2: c.ia[2][i] = s.chance(50) ? 0 : bad_int(*this); break;
          case 3: c.groups = s.chance(50) ? 0 : bad_int(*this); break;
          case 4: c.groups += 1; break;
          case 5: { TV &v = c.t[s.below(2)]; v.dt = (v.dt + 1 + (int)s.below(NDT - 1)) % NDT; fill_finite(v, 3); break; }
          case 6: { TV &w = c.t[1]; w.dims[2 + i] += s.range(1, 30); i64 n = w.count(); if (n > 20000) w.dims[2 + i] = 1; fill_finite(w, 3); break; }
          case 7: { TV &w = c.t[1]; w.dims[s.below(2)] += 1; fill_finite(w, 3); break; }
          case 8: { TV &w = c.t[1]; w.dims[2 + i] = 0; fill_finite(w, 3); break; }
          case 9: {  // other ranks
            TV &v = c.t[s.below(2)];
            if (s.chance(50)) v.dims.push_back(1); else v.dims.pop_back();
            fill_finite(v, 3);
            for (int k = 0; k < 3; k++) while (c.ia[k].size() + 2 < v.dims.size()) c.ia[k].push_back(1);
            break;
          }
          case 11: case 12: {  // an array of another length, passed as such
            int j = (int)s.below(3);
            if (s.chance(70)) c.ia[j].resize(s.below(sd));
            else c.ia[j].resize(sd + 1 + s.below(3), j == 1 ? 0 : 1);
            if (s.chance(30)) for (int q = 0; q < 3; q++) c.ia[q].resize(c.ia[j].size(), q == 1 ? 0 : 1);
            break;
          }
          default: {  // both of another rank
            int k = (int)s.below(8);
            for (int j = 0; j < 2; j++) { dims(c.t[j].dims, k, 20); fill_finite(c.t[j], 3); }
            for (int j = 0; j < 3; j++) c.ia[j].assign(k > 2 ? k - 2 : 0, j == 1 ? 0 : 1);
          }
        }
        break;
      }
      case K_POOL: {
        size_t sd = spatial(c, 1);
        if (sd == 0) break;
        size_t i = s.below(sd);
        switch (s.below(8)) {
          case 0: c.ia[0][i] = s.chance(50) ? 0 : bad_int(*this); break;
          case 1: c.ia[1][i] = s.chance(50) ? 0 : bad_int(*this); break;
          case 2: c.ia[2][i] = s.chance(50) ? -1 : bad_int(*this); break;
          case 3: c.ia[3][i] = s.chance(50) ? 0 : bad_int(*this); break;
          case 4: { const char *m[] = {"", "min", "Max", "avgs", "ma", "AVG", "maxx", "sum"}; strcpy(c.mode, m[s.below(8)]); break; }
          case 5: {
            dims(c.t[0].dims, s.chance(50) ? (int)s.below(3) : (int)s.range(6, 9), 64);
            fill_finite(c.t[0], 3);
            for (int k = 0; k < 4; k++) c.ia[k].assign(8, k == 2 ? 0 : 1);
            break;
          }
          case 6: c.ia[0][i] = (int)(c.t[0].dims[2 + i] + 2 * c.ia[2][i] + 1); break;
          default: c.ia[3][i] = c.ia[0][i] > 1 ? (int)(c.t[0].dims[2 + i] + 2 * c.ia[2][i]) : 0; break;
        }
        break;
      }
      default: break;
    }
  }
}
// rough number of elementary steps of a call, to leave out endless ones
ld cost(const Call &c, const Exp &e) {
  if (e.cls == INVALID) return 0;
  ld n = result_count(e);
  if (c.op == K_MATMUL || (c.op == K_DOT && c.in(0).dims.size() && c.in(1).dims.size()))
    n *= (ld)c.in(0).dims.back();
  if (c.op == K_CONV || c.op == K_CONV2D || c.op == K_CONV3D)
    for (size_t i = 1; i < c.in(1).dims.size(); i++) n *= (ld)c.in(1).dims[i];
  if (c.op == K_POOL)
    for (size_t i = 0; i < c.ia[0].size(); i++) n *= (ld)c.ia[0][i];
  return n;
}
}  // namespace vf
