// The reference: which calls are valid, what shape and which element values
// they must produce.  Written from the documentation, not from the code.
#include "vf.h"

namespace vf {
i64 TV::count() const {
  i64 n = 1;
  for (i64 d : dims) n *= d;
  return n;
}
static bool zero_extent(const TV &v) {
  for (i64 d : v.dims) if (d == 0) return true;
  return false;
}
static bool cpu(const TV &v) { return v.dev.type == DEVICE_CPU; }
// product of extents; -1 if negative extents, -2 on overflow
static i64 checked_count(const std::vector<i64> &d) {
  ld p = 1;
  i64 r = 1;
  bool zero = false;
  for (i64 x : d) {
    if (x < 0) return -1;
    if (x == 0) zero = true;
  }
  if (zero) {  // whether huge extents beside an empty one are fine is left open
    for (i64 x : d) if (x) p *= (ld)x;
    return p > 9.2e18L ? -3 : 0;
  }
  for (i64 x : d) {
    p *= (ld)x;
    if (p > 9.2e18L) return -2;
    r *= x;
  }
  return r;
}
ld result_count(const Exp &e) {
  ld p = 1;
  for (i64 x : e.dims) p *= (ld)x;
  return p;
}
// collects the violated rules; the documented status only counts if all
// violated rules name the same one
struct Rules {
  Exp &e;
  int n, want;
  bool mixed;
  explicit Rules(Exp &x) : e(x), n(0), want(-1), mixed(false) {}
  void broken(const char *why, int w = -1) {
    if (!n) want = w, e.why = why; else if (w != want) mixed = true;
    n++;
  }
  bool done() {
    if (!n) return false;
    e.cls = INVALID;
    e.want = mixed ? -1 : want;
    return true;
  }
};

static bool broadcast(const std::vector<i64> &a, size_t na, const std::vector<i64> &b,
                      size_t nb, std::vector<i64> &out, bool &odd) {
  size_t n = na > nb ? na : nb;
  out.assign(n, 0);
  for (size_t i = 0; i < n; i++) {
    i64 x = i < na ? a[na - 1 - i] : -1, y = i < nb ? b[nb - 1 - i] : -1, r;
    if (x < 0) r = y;
    else if (y < 0) r = x;
    else if (x == y) r = x;
    else if (x == 1 || y == 1) { r = x > y ? x : y; if (x == 0 || y == 0) odd = true; }
    else return false;
    out[n - 1 - i] = r;
  }
  return true;
}

template <class E> static E at(const TV &v, i64 i) {
  E x;
  memcpy(&x, &v.data[i * sizeof(E)], sizeof(E));
  return x;
}
static ld val(const TV &v, i64 i) {
  ld r = 0;
  VF_DISPATCH(v.dt, E, r = (ld)at<E>(v, i));
  return r;
}
static i128 ival(const TV &v, i64 i) {
  i128 r = 0;
  switch (v.dt) {
    case I8: r = at<int8_t>(v, i); break;
    case U8: r = at<uint8_t>(v, i); break;
    case I16: r = at<int16_t>(v, i); break;
    case U16: r = at<uint16_t>(v, i); break;
    case I32: r = at<int32_t>(v, i); break;
    case U32: r = at<uint32_t>(v, i); break;
    case I64: r = at<int64_t>(v, i); break;
    case U64: r = at<uint64_t>(v, i); break;
  }
  return r;
}
static void put_int(std::vector<u8> &b, int dt, i64 i, i128 x) {
  unsigned __int128 u = (unsigned __int128)x;
  for (int k = 0; k < kSize[dt]; k++) b[i * kSize[dt] + k] = (u8)(u >> (8 * k));
}
static ld eps_of(int dt) { return dt == F32 ? (ld)FLT_EPSILON : (ld)DBL_EPSILON; }
static ld tiny_of(int dt) { return dt == F32 ? 2e-45L : 1e-323L; }

// ------------------------------------------------------------------ classify
static void same(const TV &v, Exp &e) { e.dt = v.dt; e.dev = v.dev; e.dims = v.dims; }

static void classify_conv(const Call &c, Exp &e) {
  const TV &x = c.in(0), &w = c.in(1);
  Rules r(e);
  size_t nd = x.dims.size();
  if (c.op == K_CONV2D && nd != 4) r.broken("conv2d takes rank 4");
  if (c.op == K_CONV3D && nd != 5) r.broken("conv3d takes rank 5");
  if (x.dt != F32 || w.dt != F32) r.broken("only float is supported");
  if (w.dims.size() != nd) r.broken("rank of the filter");
  if (nd < 2) r.broken("rank of the input");
  if (c.op != K_CONV && nd >= 2)
    for (int k = 0; k < 3; k++)
      if (c.ia[k].size() != nd - 2) r.broken("length of a parameter array");
  if (r.done()) return;
  if (c.groups < 1) r.broken("number of groups");
  else {
    if (x.dims[1] % c.groups) r.broken("groups do not divide the input channels");
    else if (w.dims[1] != x.dims[1] / c.groups) r.broken("channels of the filter");
    if (w.dims[0] % c.groups) r.broken("groups do not divide the output channels");
  }
  e.dims.assign(nd, 0);
  e.dims[0] = x.dims[0];
  e.dims[1] = w.dims[0];
  for (size_t i = 2; i < nd; i++) {
    i64 st = c.ia[0][i - 2], pd = c.ia[1][i - 2], dl = c.ia[2][i - 2];
    if (st < 1) r.broken("stride below one");
    if (pd < 0) r.broken("negative padding");
    if (dl < 1) r.broken("dilation below one");
    if (st < 1 || pd < 0 || dl < 1) continue;
    i128 span = (i128)dl * (w.dims[i] - 1) + 1, room = (i128)x.dims[i] + 2 * pd;
    if (w.dims[i] < 1) r.broken("window without elements");
    else if (span > room) r.broken("window larger than the padded input");
    else e.dims[i] = (i64)((room - span) / st + 1);
  }
  if (r.done()) return;
  e.dt = x.dt; e.dev = x.dev;
  e.cmp = CMP_TOL;
  if (nd < 3 || zero_extent(x) || zero_extent(w)) { e.cls = EITHER; e.judged = true; }
}

static void classify_pool(const Call &c, Exp &e) {
  const TV &x = c.in(0);
  Rules r(e);
  size_t nd = x.dims.size();
  if (nd < 3 || nd > 5) { r.broken("rank of the input"); r.done(); return; }
  if (strcmp(c.mode, "max") && strcmp(c.mode, "avg")) r.broken("unknown mode");
  e.dims = x.dims;
  for (size_t i = 2; i < nd; i++) {
    i64 k = c.ia[0][i - 2], st = c.ia[1][i - 2], pd = c.ia[2][i - 2], dl = c.ia[3][i - 2];
    if (k < 1) r.broken("window below one");
    if (st < 1) r.broken("stride below one");
    if (pd < 0) r.broken("negative padding");
    if (dl < 1) r.broken("dilation below one");
    if (k < 1 || st < 1 || pd < 0 || dl < 1) continue;
    i128 span = (i128)dl * (k - 1) + 1, room = (i128)x.dims[i] + 2 * pd;
    if (span > room) r.broken("window larger than the padded input");
    else e.dims[i] = (i64)((room - span) / st + 1);
  }
  if (r.done()) return;
  e.dt = x.dt; e.dev = x.dev;
  if (zero_extent(x)) { e.cls = EITHER; e.judged = true; }
}

void classify(const Call &c, Exp &e) {
  e = Exp();
  Rules r(e);
  switch (c.op) {
    case K_ADD: case K_SUB: case K_MUL: case K_DIV: {
      const TV &a = c.in(0), &b = c.in(1);
      if (!cpu(a) || !cpu(b)) r.broken("device", STATUS_NOT_SUPPORTED);
      if (a.dt != b.dt) r.broken("element types differ", STATUS_TYPE_MISMATCH);
      if (a.dims != b.dims) r.broken("shapes differ", STATUS_INVALID_ARGUMENT);
      if (r.done()) return;
      same(a, e);
      e.cmp = CMP_BITS;
      if (c.op == K_DIV && !is_float(a.dt)) {
        i64 n = a.count();
        for (i64 i = 0; i < n; i++) {
          i128 y = ival(b, i);
          if (y == 0 || (is_signed(a.dt) && y == -1 && ival(a, i) == int_min(a.dt))) {
            r.broken(y == 0 ? "integer division by zero" : "quotient does not fit",
                     STATUS_MATH_ERROR);
            r.done();
            return;
          }
        }
      }
      return;
    }
    case K_MATMUL: {
      const TV &a = c.in(0), &b = c.in(1);
      size_t na = a.dims.size(), nb = b.dims.size();
      if (!cpu(a) || !cpu(b)) r.broken("device", STATUS_NOT_SUPPORTED);
      if (a.dt != b.dt) r.broken("element types differ", STATUS_TYPE_MISMATCH);
      if (na < 1 || nb < 1) r.broken("rank zero", STATUS_INVALID_ARGUMENT);
      bool odd = false;
      if (na >= 1 && nb >= 1) {
        i64 ka = a.dims[na - 1], kb = nb == 1 ? b.dims[0] : b.dims[nb - 2];
        if (ka != kb) r.broken("shared extents differ", STATUS_DIMENSIONS_MISMATCH);
        std::vector<i64> bd;
        if (!broadcast(a.dims, na > 2 ? na - 2 : 0, b.dims, nb > 2 ? nb - 2 : 0, bd, odd))
          r.broken("batch extents do not broadcast", STATUS_DIMENSIONS_MISMATCH);
        e.dims = bd;
        if (na >= 2) e.dims.push_back(a.dims[na - 2]);
        if (nb >= 2) e.dims.push_back(b.dims[nb - 1]);
        if (na == 1 && nb == 1) e.dims.push_back(1);
      }
      if (r.done()) return;
      e.dt = a.dt; e.dev = a.dev;
      e.cmp = CMP_TOL;
      if (odd) e.cls = EITHER;  // a batch of none against a batch of one
      return;
    }
    case K_DOT: {
      const TV &a = c.in(0), &b = c.in(1);
      size_t na = a.dims.size(), nb = b.dims.size();
      if (!cpu(a) || !cpu(b)) r.broken("device");
      if (a.dt != b.dt) r.broken("element types differ");
      e.dt = a.dt; e.dev = a.dev;
      if (na == 0 || nb == 0) {
        e.dims = na ? a.dims : b.dims;
      } else if (na == 1 && nb == 1) {
        if (a.dims[0] != b.dims[0]) r.broken("contracted extents differ");
        e.dims.assign(1, 1);
      } else if (nb == 1) {
        if (a.dims[na - 1] != b.dims[0]) r.broken("contracted extents differ");
        e.dims.assign(a.dims.begin(), a.dims.end() - 1);
      } else if ((na == 2 && nb == 2) || (na > 2 && nb > 2)) {
        if (a.dims[na - 1] != b.dims[nb - 2]) r.broken("contracted extents differ");
        e.dims.assign(a.dims.begin(), a.dims.end() - 1);
        for (size_t i = 0; i < nb; i++)
          if (i != nb - 2) e.dims.push_back(b.dims[i]);
      } else {
        r.broken("unsupported pair of ranks");
      }
      if (r.done()) return;
      e.cmp = CMP_TOL;
      if ((zero_extent(a) || zero_extent(b)) && !(na < 2 && nb < 2) && !(na == 2 && nb == 2)) {
        e.cls = EITHER;
        e.judged = true;
      }
      return;
    }
    case K_CAST:
      same(c.in(0), e);
      e.dt = c.dt;
      e.cmp = CMP_BITS;
      return;
    case K_FULL: case K_CREATE: {
      i64 n = checked_count(c.la);
      if (n == -1) r.broken("negative extent");
      if (n == -2 || (n > 0 && (ld)n * kSize[c.dt] > 9.2e18L)) r.broken("too many elements");
      if (c.op == K_CREATE && c.give_data && (n >= 0 || n == -3) &&
          (c.len / kSize[c.dt] != (u64)(n > 0 ? n : 0) || c.len % kSize[c.dt])) r.broken("byte length does not match");
      if (r.done()) return;
      e.dt = c.dt; e.dev = c.dev; e.dims = c.la;
      e.cmp = c.op == K_FULL || c.give_data ? CMP_BITS : CMP_NONE;
      if (n == -3) e.cls = EITHER;
      return;
    }
    case K_DUP:
      same(c.in(0), e);
      e.cmp = CMP_BITS;
      if (zero_extent(c.in(0))) { e.cls = EITHER; e.judged = true; }
      return;
    case K_RESHAPE: {
      i64 n = checked_count(c.la);
      if (n == -1) r.broken("negative extent");
      else if (n == -2) r.broken("too many elements");
      else if (n != -3 && n != c.in(0).count())
        r.broken("element counts differ", STATUS_DIMENSIONS_MISMATCH);
      if (r.done()) return;
      same(c.in(0), e);
      e.dims = c.la;
      e.cmp = CMP_BITS;
      if (n == -3) e.cls = EITHER;
      return;
    }
    case K_SLICE: {
      const TV &x = c.in(0);
      same(x, e);
      e.dims.clear();
      for (size_t i = 0; i < x.dims.size(); i++) {
        i64 b = c.ia[0][i], s = c.ia[1][i], st = c.ia[2][i];
        if (b < 0 || b >= x.dims[i]) r.broken("begin outside the dimension");
        if (s < 0) r.broken("negative size");
        else if (b + s > x.dims[i]) r.broken("range reaches beyond the dimension");
        if (st < 1) r.broken("step below one");
        else if (s > 0) e.dims.push_back((s + st - 1) / st);
      }
      if (r.done()) return;
      e.cmp = CMP_BITS;
      return;
    }
    case K_SQUEEZE: {
      const TV &x = c.in(0);
      i64 n = c.la_n < 0 && c.la_n != -1 ? c.la_n : (i64)c.la.size();
      if (c.la_n < -1) r.broken("negative number of axes");
      for (i64 i = 0; i < n; i++)
        if (c.la[i] < 0 || c.la[i] >= (i64)x.dims.size()) r.broken("axis outside the tensor");
      if (r.done()) return;
      same(x, e);
      e.dims.clear();
      for (size_t i = 0; i < x.dims.size(); i++) {
        bool gone = x.dims[i] == 1;
        if (gone && n > 0) {
          gone = false;
          for (i64 k = 0; k < n; k++) gone = gone || c.la[k] == (i64)i;
        }
        if (!gone) e.dims.push_back(x.dims[i]);
      }
      e.cmp = CMP_BITS;
      return;
    }
    case K_SQRT: {
      const TV &x = c.in(0);
      i64 n = x.count();
      for (i64 i = 0; i < n && !r.n; i++)
        if (val(x, i) < 0) r.broken("square root of a negative number");
      if (r.done()) return;
      same(x, e);
      e.cmp = CMP_TOL;
      return;
    }
    case K_RELU:
      same(c.in(0), e);
      e.cmp = CMP_BITS;
      e.pm0 = true;
      return;
    case K_SIGMOID: case K_TANH:
      if (!is_float(c.in(0).dt)) { r.broken("element type"); r.done(); return; }
      same(c.in(0), e);
      e.cmp = CMP_TOL;
      (c.op == K_SIGMOID ? e.unit_lo : e.unit_sym) = true;
      return;
    case K_SOFTMAX: {
      const TV &x = c.in(0);
      if (c.axis < -1 || c.axis >= (i64)x.dims.size()) r.broken("axis outside the tensor");
      if (r.done()) return;
      same(x, e);
      e.cmp = CMP_TOL;
      e.unit_lo = true;
      if (!is_float(x.dt)) e.cls = EITHER;
      if (e.cls == EITHER) e.cmp = CMP_NONE;
      return;
    }
    case K_DROPOUT:
      if (!(c.d >= 0 && c.d <= 1)) { r.broken("rate outside [0,1]"); r.done(); return; }
      same(c.in(0), e);
      e.cmp = CMP_DROPOUT;
      if (zero_extent(c.in(0))) { e.cls = EITHER; e.judged = true; }
      return;
    case K_BN: {
      const TV &x = c.in(0);
      size_t nd = x.dims.size();
      if (nd < 2 || nd > 5) { r.broken("rank of the input"); r.done(); return; }
      bool axis_ok = c.axis == 1 || c.axis == (i64)nd - 1;
      if (!axis_ok) r.broken("axis");
      for (int i = 1; i < 5; i++) {
        if (c.in(i).dt != x.dt) r.broken("element types differ");
        if (c.in(i).dims.size() != 1 ||
            (axis_ok && c.in(i).dims[0] != x.dims[c.axis])) r.broken("shape of a parameter");
      }
      if (c.d < 0) r.broken("negative epsilon");
      if (r.done()) return;
      same(x, e);
      e.cmp = CMP_TOL;
      if (!is_float(x.dt) || c.d != c.d || zero_extent(x)) { e.cls = EITHER; e.cmp = CMP_NONE; e.judged = is_float(x.dt); return; }
      for (i64 i = 0; i < c.in(4).count(); i++) {
        ld v = val(c.in(4), i) + (x.dt == F32 ? (ld)(float)c.d : (ld)c.d);
        if (fabsl(v) <= 8 * eps_of(x.dt) * fabsl((ld)c.d)) { e.cls = EITHER; e.cmp = CMP_NONE; continue; }
        if (v < 0) { e.cls = VALID; r.broken("square root of a negative number"); r.done(); return; }
        if (!(v > 0)) e.cmp = CMP_NONE;
      }
      return;
    }
    case K_CONV: case K_CONV2D: case K_CONV3D: classify_conv(c, e); return;
    case K_POOL:
      classify_pool(c, e);
      if (e.cls != INVALID) e.cmp = CMP_TOL;
      return;
  }
}

// -------------------------------------------------------------------- values
// expectation for integer results given as exact mathematical values
struct Sum {  // accumulates sum of products exactly (ints) or in long double
  bool fl;
  i128 s, abs_;
  ld f, fabs_;
  bool whole;
  i64 n;
  bool over;
  ld odd;         // sum of the terms that are infinite or not a number
  bool has_odd;
  explicit Sum(bool is_fl) : fl(is_fl), s(0), abs_(0), f(0), fabs_(0), whole(true), n(0), over(false), odd(0), has_odd(false) {}
  void add(const TV &a, i64 i, const TV &b, i64 j) {
    n++;
    if (fl) {
      ld x = val(a, i), y = val(b, j), p = x * y;
      if (!(fabsl(p) <= LDBL_MAX)) { odd += p; has_odd = true; return; }
      f += p;
      fabs_ += fabsl(p);
      if (whole && (x != rintl(x) || y != rintl(y))) whole = false;
    } else {
      i128 p = ival(a, i) * ival(b, j), q = p < 0 ? -p : p;
      s += p;
      abs_ += q;
      if (abs_ > ((i128)1 << 100)) over = true, abs_ = 0, s = 0;
    }
  }
};
static void store_sum(Exp &e, i64 i, const Sum &s, int dt) {
  if (s.fl) {
    e.ref[i] = s.has_odd ? s.odd : s.f;
    ld lim = dt == F32 ? 16777216.0L : 9007199254740992.0L;
    if (s.has_odd) e.care[i] = s.fabs_ < (dt == F32 ? 1e37L : 1e307L);
    else if (s.whole && s.fabs_ < lim) e.tol[i] = 0;
    else if (s.fabs_ > (dt == F32 ? 1e37L : 1e307L)) e.care[i] = 0;
    else e.tol[i] = (ld)(s.n + 2) * eps_of(dt) * s.fabs_ + (ld)(s.n + 1) * tiny_of(dt);
  } else {
    if (s.over || s.abs_ > int_max(dt)) e.care[i] = 0;
    else put_int(e.bits, dt, i, s.s);
  }
}
static void start(Exp &e) {
  i64 n = 1;
  for (i64 d : e.dims) n *= d;
  e.care.assign(n, 1);
  if (is_float(e.dt)) { e.ref.assign(n, 0); e.tol.assign(n, 0); e.cmp = CMP_TOL; }
  else { e.bits.assign(n * kSize[e.dt], 0); e.cmp = CMP_BITS; }
}

template <class E> static void binary_float(const Call &c, Exp &e) {
  i64 n = c.in(0).count();
  for (i64 i = 0; i < n; i++) {
    volatile E a = at<E>(c.in(0), i), b = at<E>(c.in(1), i);
    volatile E r = 0;
    if (c.op == K_ADD) r = a + b;
    if (c.op == K_SUB) r = a - b;
    if (c.op == K_MUL) r = a * b;
    if (c.op == K_DIV) r = a / b;
    E q = r;
    memcpy(&e.bits[i * sizeof(E)], &q, sizeof(E));
  }
}
static void v_binary(const Call &c, Exp &e) {
  i64 n = c.in(0).count();
  e.bits.assign(n * kSize[e.dt], 0);
  e.care.assign(n, 1);
  if (e.dt == F32) { binary_float<float>(c, e); return; }
  if (e.dt == F64) { binary_float<double>(c, e); return; }
  for (i64 i = 0; i < n; i++) {
    i128 a = ival(c.in(0), i), b = ival(c.in(1), i), r = 0;
    if (c.op == K_ADD) r = a + b;
    if (c.op == K_SUB) r = a - b;
    if (c.op == K_MUL) r = a * b;
    if (c.op == K_DIV) r = a / b;
    if (is_signed(e.dt) && (r < int_min(e.dt) || r > int_max(e.dt))) e.care[i] = 0;
    put_int(e.bits, e.dt, i, r);
  }
}

static void v_matmul(const Call &c, Exp &e) {
  const TV &a = c.in(0), &b = c.in(1);
  start(e);
  size_t na = a.dims.size(), nb = b.dims.size();
  i64 K = a.dims[na - 1], M = na >= 2 ? a.dims[na - 2] : 1, N = nb >= 2 ? b.dims[nb - 1] : 1;
  size_t ba = na > 2 ? na - 2 : 0, bb = nb > 2 ? nb - 2 : 0, nbat = ba > bb ? ba : bb;
  i64 batches = 1;
  for (size_t i = 0; i < nbat; i++) batches *= e.dims[i];
  std::vector<i64> idx(nbat, 0);
  for (i64 t = 0; t < batches; t++) {
    i64 rem = t;
    for (size_t i = nbat; i-- > 0;) { idx[i] = rem % e.dims[i]; rem /= e.dims[i]; }
    i64 oa = 0, ob = 0;
    for (size_t i = 0; i < ba; i++) {
      i64 d = a.dims[i];
      oa = oa * d + (d == 1 ? 0 : idx[nbat - ba + i]);
    }
    for (size_t i = 0; i < bb; i++) {
      i64 d = b.dims[i];
      ob = ob * d + (d == 1 ? 0 : idx[nbat - bb + i]);
    }
    for (i64 m = 0; m < M; m++)
      for (i64 n = 0; n < N; n++) {
        Sum s(is_float(e.dt));
        for (i64 k = 0; k < K; k++) s.add(a, (oa * M + m) * K + k, b, (ob * K + k) * N + n);
        store_sum(e, (t * M + m) * N + n, s, e.dt);
      }
  }
}
static void v_dot(const Call &c, Exp &e) {
  const TV &a = c.in(0), &b = c.in(1);
  start(e);
  size_t na = a.dims.size(), nb = b.dims.size();
  if (na == 0 || nb == 0) {
    i64 n = (i64)e.care.size();
    for (i64 i = 0; i < n; i++) {
      i64 x = na ? i : 0, y = nb ? i : 0;
      if (is_float(e.dt)) {
        e.bits.resize(n * kSize[e.dt]);
        if (e.dt == F32) {
          volatile float r = at<float>(a, x) * at<float>(b, y);
          float q = r; memcpy(&e.bits[i * 4], &q, 4);
        } else {
          volatile double r = at<double>(a, x) * at<double>(b, y);
          double q = r; memcpy(&e.bits[i * 8], &q, 8);
        }
        e.cmp = CMP_BITS;
      } else {
        i128 r = ival(a, x) * ival(b, y);
        if (is_signed(e.dt) && (r < int_min(e.dt) || r > int_max(e.dt))) e.care[i] = 0;
        put_int(e.bits, e.dt, i, r);
      }
    }
    return;
  }
  i64 K = a.dims[na - 1];
  i64 rows = 1;
  for (size_t i = 0; i + 1 < na; i++) rows *= a.dims[i];
  i64 outer = 1, inner = nb == 1 ? 1 : b.dims[nb - 1];
  for (size_t i = 0; i + 2 < nb; i++) outer *= b.dims[i];
  for (i64 r = 0; r < rows; r++)
    for (i64 o = 0; o < outer; o++)
      for (i64 q = 0; q < inner; q++) {
        Sum s(is_float(e.dt));
        for (i64 k = 0; k < K; k++) s.add(a, r * K + k, b, (o * K + k) * inner + q);
        store_sum(e, (r * outer + o) * inner + q, s, e.dt);
      }
}
template <class F, class T> static bool cast_one(F x, T &y) {
  if (T(0.5) != T(0)) { y = (T)x; return true; }               // to floating
  if (F(0.5) == F(0)) { y = (T)x; return true; }               // int to int
  ld t = truncl((ld)x);
  const bool sg = T(-1) < T(0);
  const int w = 8 * sizeof(T) - (sg ? 1 : 0);
  ld hi = ldexpl(1.0L, w), lo = sg ? -hi : 0;
  if (!(t >= lo && t < hi)) return false;
  y = (T)(i128)t;
  return true;
}
static bool f64_to_f32_ok(double x) {   // finite values beyond float are undefined
  return !(isfinite(x) && fabs(x) > 3.4028235677973366e38);
}
static void v_cast(const Call &c, Exp &e) {
  const TV &x = c.in(0);
  i64 n = x.count();
  e.bits.assign(n * kSize[e.dt], 0);
  e.care.assign(n, 1);
  if (x.dt == e.dt) { e.bits = x.data; return; }
  VF_DISPATCH(x.dt, F, VF_DISPATCH(e.dt, T, for (i64 i = 0; i < n; i++) {
    F f = at<F>(x, i);
    T y = 0;
    if (sizeof(F) == 8 && F(0.5) != F(0) && T(0.5) != T(0) && !f64_to_f32_ok((double)f)) e.care[i] = 0;
    else if (!cast_one<F, T>(f, y)) e.care[i] = 0;
    memcpy(&e.bits[i * sizeof(T)], &y, sizeof(T));
  }))
}
static void v_full(const Call &c, Exp &e) {
  i64 n = 1;
  for (i64 d : e.dims) n *= d;
  e.bits.assign(n * kSize[e.dt], 0);
  VF_DISPATCH(e.dt, T, T y = 0;
    bool ok = !(e.dt == F32 && !f64_to_f32_ok(c.d)) && cast_one<double, T>(c.d, y);
    if (!ok) { e.care.assign(n, 0); break; }
    for (i64 i = 0; i < n; i++) memcpy(&e.bits[i * sizeof(T)], &y, sizeof(T)));
}
static void v_slice(const Call &c, Exp &e) {
  const TV &x = c.in(0);
  size_t nd = x.dims.size();
  int sz = kSize[x.dt];
  // odometer over the picked coordinates
  std::vector<i64> pos(nd), step(nd), end(nd), stride(nd);
  i64 st = 1;
  for (size_t i = nd; i-- > 0;) { stride[i] = st; st *= x.dims[i]; }
  for (size_t i = 0; i < nd; i++) {
    pos[i] = c.ia[0][i];
    step[i] = c.ia[2][i];
    end[i] = c.ia[0][i] + (c.ia[1][i] ? c.ia[1][i] : 1);
  }
  e.bits.clear();
  for (;;) {
    i64 o = 0;
    for (size_t i = 0; i < nd; i++) o += pos[i] * stride[i];
    e.bits.insert(e.bits.end(), x.data.begin() + o * sz, x.data.begin() + (o + 1) * sz);
    size_t i = nd;
    while (i > 0) {
      i--;
      pos[i] += step[i];
      if (pos[i] < end[i]) break;
      pos[i] = c.ia[0][i];
      if (i == 0) return;
    }
    if (nd == 0) return;
  }
}
static void v_unary(const Call &c, Exp &e) {
  const TV &x = c.in(0);
  start(e);
  i64 n = x.count();
  for (i64 i = 0; i < n; i++) {
    if (!is_float(x.dt)) {
      i128 v = ival(x, i), r = 0;
      if (c.op == K_RELU) r = v > 0 ? v : 0;
      else {  // integer square root
        if (v > ((i128)1 << 52)) { e.care[i] = 0; continue; }
        r = (i128)floorl(sqrtl((ld)v));
        while (r * r > v) r--;
        while ((r + 1) * (r + 1) <= v) r++;
      }
      put_int(e.bits, x.dt, i, r);
      continue;
    }
    ld v = val(x, i), eps = eps_of(x.dt), tiny = tiny_of(x.dt), r = 0, t = 0;
    switch (c.op) {
      case K_RELU:
        if (v != v) { e.care[i] = 0; continue; }
        r = v > 0 ? v : 0;
        break;
      case K_SQRT: r = sqrtl(v); t = 2 * eps * fabsl(r); break;
      case K_SIGMOID:
        r = v >= 0 ? 1 / (1 + expl(-v)) : expl(v) / (1 + expl(v));
        t = 32 * eps * fabsl(r) + 4 * tiny;
        if (x.dt == F64 && v < -600) t += 1e-260L;
        if (x.dt == F32 && v < -80) t += 2e-35L;
        break;
      case K_TANH:
        r = tanhl(v);
        t = 32 * eps * fabsl(r) + 4 * tiny + (x.dt == F64 ? 1e-15L : 3e-8L);
        break;
    }
    e.ref[i] = r;
    e.tol[i] = t;
  }
}
static void v_softmax(const Call &c, Exp &e) {
  const TV &x = c.in(0);
  start(e);
  i64 n = x.count(), len, inner = 1;
  if (c.axis < 0) len = n;
  else {
    len = x.dims[c.axis];
    for (size_t i = c.axis + 1; i < x.dims.size(); i++) inner *= x.dims[i];
  }
  if (n == 0) return;
  ld eps = eps_of(x.dt), tiny = tiny_of(x.dt);
  for (i64 g = 0; g < n / len; g++) {
    i64 base = g / inner * len * inner + g % inner;
    ld mx = val(x, base);
    for (i64 k = 1; k < len; k++) { ld v = val(x, base + k * inner); if (v > mx) mx = v; }
    ld tot = 0;
    bool nan = false;
    for (i64 k = 0; k < len; k++) { ld v = val(x, base + k * inner); if (v != v) nan = true; }
    if (nan || fabsl(mx) == (ld)INFINITY) {  // exp of the maximum is no number
      for (i64 k = 0; k < len; k++) { e.ref[base + k * inner] = NAN; e.care[base + k * inner] = nan; }
      continue;
    }
    for (i64 k = 0; k < len; k++) tot += expl(val(x, base + k * inner) - mx);
    for (i64 k = 0; k < len; k++) {
      ld d = val(x, base + k * inner) - mx, r = expl(d) / tot;
      e.ref[base + k * inner] = r;
      // |d| eps: rounding of the difference; n eps: order of summation
      e.tol[base + k * inner] = ((ld)len + 16 + (r > 0 ? fabsl(d) : 0)) * eps * r + 4 * tiny;
    }
  }
}
static void v_bn(const Call &c, Exp &e) {
  const TV &x = c.in(0);
  if (e.cmp == CMP_NONE) return;
  start(e);
  i64 n = x.count(), inner = 1, ch = x.dims[c.axis];
  for (size_t i = c.axis + 1; i < x.dims.size(); i++) inner *= x.dims[i];
  ld eps = eps_of(x.dt);
  for (i64 i = 0; i < n; i++) {
    i64 k = i / inner % ch;
    ld g = val(c.in(1), k), b = val(c.in(2), k), m = val(c.in(3), k), v = val(c.in(4), k), xx = val(x, i);
    ld den = sqrtl(v + (x.dt == F32 ? (ld)(float)c.d : (ld)c.d));
    ld r = g * (xx - m) / den;
    e.ref[i] = r + b;
    ld mag = fabsl(r) + fabsl(b) + fabsl(g) * (fabsl(xx) + fabsl(m)) / den * 0.25L;
    // any order of the operations, intermediate results that underflow included
    e.tol[i] = 16 * eps * mag + 16 * tiny_of(x.dt) * (1 + fabsl(g) + fabsl(xx) + fabsl(m) + 1 / den);
    if (!isfinite((double)xx)) {  // stays what it is, unless a parameter is odd too
      e.care[i] = den > 0 && isfinite((double)g) && isfinite((double)b) && isfinite((double)m) && isfinite((double)v) &&
                  fabsl(g / den) > 1e-15L;
    } else if (mag > (x.dt == F32 ? 1e36L : 1e306L) || den < (x.dt == F32 ? 1e-18L : 1e-150L)) e.care[i] = 0;
  }
}
static void v_window(const Call &c, Exp &e) {  // convolution and pooling
  const TV &x = c.in(0);
  bool pool = c.op == K_POOL, max = pool && !strcmp(c.mode, "max");
  const TV *w = pool ? NULL : &c.in(1);
  const std::vector<int> &st = c.ia[pool ? 1 : 0], &pd = c.ia[pool ? 2 : 1], &dl = c.ia[pool ? 3 : 2];
  start(e);
  size_t sd = x.dims.size() - 2;
  i64 ksz = 1, osz = 1, isz = 1;
  std::vector<i64> k(sd);
  for (size_t i = 0; i < sd; i++) {
    k[i] = pool ? c.ia[0][i] : w->dims[2 + i];
    ksz *= k[i]; osz *= e.dims[2 + i]; isz *= x.dims[2 + i];
  }
  bool odd_filter = false;
  if (w && is_float(w->dt))
    for (i64 i = 0; i < w->count() && !odd_filter; i++) odd_filter = !isfinite((double)val(*w, i));
  i64 oc = e.dims[1], ic = x.dims[1], per_out = pool ? 1 : oc / c.groups, per_in = pool ? 1 : ic / c.groups;
  std::vector<i64> o(sd);
  for (i64 b = 0; b < e.dims[0]; b++)
    for (i64 q = 0; q < oc; q++)
      for (i64 oi = 0; oi < osz; oi++) {
        i64 rem = oi;
        for (size_t i = sd; i-- > 0;) { o[i] = rem % e.dims[2 + i]; rem /= e.dims[2 + i]; }
        Sum s(is_float(e.dt));
        i128 isum = 0, iabs = 0, imax = 0;
        ld fsum = 0, fabs_ = 0, fmax_ = 0;
        bool any = false, padded = false, nan = false;
        for (i64 ki = 0; ki < ksz; ki++) {
          i64 r2 = ki, off = 0, mul = 1;
          bool inside = true;
          for (size_t i = sd; i-- > 0;) {
            i64 kk = r2 % k[i];
            r2 /= k[i];
            i64 p = o[i] * st[i] - pd[i] + (i64)dl[i] * kk;
            if (p < 0 || p >= x.dims[2 + i]) inside = false;
            off += p * mul;
            mul *= x.dims[2 + i];
          }
          if (!inside) { padded = true; continue; }
          if (!pool) {
            for (i64 ch = 0; ch < per_in; ch++)
              s.add(x, ((b * ic + q / per_out * per_in + ch) * isz) + off, *w, (q * per_in + ch) * ksz + ki);
          } else {
            i64 at_ = (b * ic + q) * isz + off;
            if (is_float(e.dt)) {
              ld v = val(x, at_);
              if (v != v) nan = true;
              fsum += v; fabs_ += fabsl(v);
              if (!any || v > fmax_) fmax_ = v;
            } else {
              i128 v = ival(x, at_);
              isum += v; iabs += v < 0 ? -v : v;
              if (!any || v > imax) imax = v;
            }
            any = true;
          }
        }
        i64 out = (b * oc + q) * osz + oi;
        if (!pool) {
          store_sum(e, out, s, e.dt);
          if (padded && odd_filter) e.care[out] = 0;   // zero times infinity
          continue;
        }
        if (nan && max) { e.care[out] = 0; continue; }
        if (max) {
          if (is_float(e.dt)) e.ref[out] = !any ? 0 : padded && fmax_ < 0 ? 0 : fmax_;
          else put_int(e.bits, e.dt, out, !any ? 0 : padded && imax < 0 ? 0 : imax);
        } else if (is_float(e.dt)) {
          e.ref[out] = fsum / ksz;
          e.tol[out] = (ld)(ksz + 2) * eps_of(e.dt) * fabs_ / ksz + tiny_of(e.dt) * 2;
          if (isfinite(fabs_) && fabs_ > (e.dt == F32 ? 1e37L : 1e307L)) e.care[out] = 0;  // no infinite element, but a sum near the limit
        } else {
          if (iabs > ((i128)1 << 50)) e.care[out] = 0;
          put_int(e.bits, e.dt, out, isum / ksz);
        }
      }
}
void expect_values(const Call &c, Exp &e) {
  if (e.cls == INVALID) return;
  if (e.cls == EITHER && e.judged && e.cmp == CMP_NONE) return;
  if (e.cls == EITHER && !e.judged) { e.cmp = c.op == K_DROPOUT ? CMP_DROPOUT : CMP_NONE; return; }
  switch (c.op) {
    case K_ADD: case K_SUB: case K_MUL: case K_DIV: v_binary(c, e); break;
    case K_MATMUL: v_matmul(c, e); break;
    case K_DOT: v_dot(c, e); break;
    case K_CAST: v_cast(c, e); break;
    case K_FULL: v_full(c, e); break;
    case K_CREATE: if (c.give_data) e.bits = c.t[0].data; break;
    case K_DUP: case K_RESHAPE: case K_SQUEEZE: e.bits = c.in(0).data; break;
    case K_SLICE: v_slice(c, e); break;
    case K_SQRT: case K_RELU: case K_SIGMOID: case K_TANH: v_unary(c, e); break;
    case K_SOFTMAX: v_softmax(c, e); break;
    case K_BN: v_bn(c, e); break;
    case K_CONV: case K_CONV2D: case K_CONV3D: case K_POOL: v_window(c, e); break;
  }
}
}  // namespace vf
