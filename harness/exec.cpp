// Runs a described call against the library and judges what came out.
#include "vf.h"

namespace vf {
static _TensorImpl sentinel_obj;
Tensor kSentinel = (Tensor)&sentinel_obj;

static void put(char *b, size_t n, size_t &o, const char *fmt, ...) {
  if (o >= n) return;
  va_list ap;
  va_start(ap, fmt);
  int k = vsnprintf(b + o, n - o, fmt, ap);
  va_end(ap);
  if (k > 0) o += k;
}
static void put_tv(char *b, size_t n, size_t &o, const TV &v) {
  put(b, n, o, "%s[", kName[v.dt]);
  for (size_t i = 0; i < v.dims.size(); i++) put(b, n, o, "%s%lld", i ? "," : "", (long long)v.dims[i]);
  put(b, n, o, "]");
  if (v.dev.type != DEVICE_CPU || v.dev.id) put(b, n, o, "@%d:%d", (int)v.dev.type, v.dev.id);
  i64 c = v.data.empty() ? 0 : v.count();
  if (c > 0 && (size_t)c * kSize[v.dt] <= v.data.size()) {
    put(b, n, o, "{");
    for (i64 i = 0; i < c && i < 4; i++)
      VF_DISPATCH(v.dt, E, E x; memcpy(&x, &v.data[i * sizeof(E)], sizeof(E));
                  if (E(0.5) != E(0)) put(b, n, o, "%s%.9g", i ? "," : "", (double)x);
                  else if (E(-1) < E(0)) put(b, n, o, "%s%lld", i ? "," : "", (long long)x);
                  else put(b, n, o, "%s%llu", i ? "," : "", (unsigned long long)x));
    put(b, n, o, c > 4 ? ",...}" : "}");
  }
}
void describe(const Call &c, char *b, size_t n) {
  size_t o = 0;
  b[0] = 0;
  put(b, n, o, "%s(", kOpName[c.op]);
  for (int i = 0; i < c.nargs; i++) {
    if (i) put(b, n, o, ", ");
    put_tv(b, n, o, c.in(i));
    if (i && c.arg[i] == c.arg[0]) put(b, n, o, "=same");
  }
  static const char *const conv[] = {"stride", "padding", "dilation", ""};
  static const char *const pool[] = {"ksize", "stride", "padding", "dilation"};
  static const char *const slice[] = {"begin", "size", "step", ""};
  const char *const *nm = c.op == K_POOL ? pool : c.op == K_SLICE ? slice : conv;
  for (int k = 0; k < 4; k++)
    if (!c.ia[k].empty()) {
      put(b, n, o, " %s=", nm[k]);
      for (size_t i = 0; i < c.ia[k].size(); i++) put(b, n, o, "%s%d", i ? "," : "", c.ia[k][i]);
    }
  if (c.op == K_RESHAPE || c.op == K_FULL || c.op == K_CREATE || c.op == K_SQUEEZE) {
    put(b, n, o, " %s=[", c.op == K_SQUEEZE ? "axes" : "dims");
    for (size_t i = 0; i < c.la.size(); i++) put(b, n, o, "%s%lld", i ? "," : "", (long long)c.la[i]);
    put(b, n, o, "]");
    if (c.la_n != -1) put(b, n, o, " count=%lld", (long long)c.la_n);
  }
  if (c.op == K_CAST || c.op == K_FULL || c.op == K_CREATE) put(b, n, o, " type=%s", kName[c.dt]);
  if (c.op == K_FULL || c.op == K_DROPOUT || c.op == K_BN) put(b, n, o, " %s=%.17g", c.op == K_FULL ? "value" : c.op == K_BN ? "epsilon" : "rate", c.d);
  if (c.op == K_SOFTMAX || c.op == K_BN) put(b, n, o, " axis=%d", c.axis);
  if (c.op == K_CONV || c.op == K_CONV2D || c.op == K_CONV3D) put(b, n, o, " groups=%d", c.groups);
  if (c.op == K_POOL) put(b, n, o, " mode=%s", c.mode);
  if (c.op == K_CREATE) put(b, n, o, " data=%d len=%u", c.give_data, c.len);
  put(b, n, o, ")");
}
static u64 hb(u64 h, const void *p, size_t n) {
  const u8 *q = (const u8 *)p;
  for (size_t i = 0; i < n; i++) h = (h ^ q[i]) * 0x100000001b3ull;
  return mix(h ^ n);
}
u64 hash_call(const Call &c) {
  u64 h = hb(14695981039346656037ull, &c.op, sizeof c.op);
  for (const TV &t : c.t) {
    h = hb(h, &t.dt, sizeof t.dt);
    h = hb(h, &t.dev, sizeof t.dev);
    h = hb(h, t.dims.data(), t.dims.size() * 8);
    h = hb(h, t.data.data(), t.data.size() < 4096 ? t.data.size() : 4096);
  }
  h = hb(h, c.arg, sizeof(int) * c.nargs);
  for (int k = 0; k < 4; k++) h = hb(h, c.ia[k].data(), c.ia[k].size() * 4);
  h = hb(h, c.la.data(), c.la.size() * 8);
  h = hb(h, &c.la_n, 8);
  h = hb(h, &c.d, 8);
  int q[] = {c.axis, c.groups, c.dt, (int)c.len, c.give_data, (int)c.dev.type, c.dev.id};
  h = hb(h, q, sizeof q);
  return hb(h, c.mode, strlen(c.mode));
}
// -------------------------------------------------------------------- building
Tensor make_tensor(const TV &v, bool adopt) {
  Tensor t = NULL;
  size_t nd = v.dims.size();
  i64 *d = (i64 *)malloc(nd * sizeof(i64));
  if (nd) memcpy(d, v.dims.data(), nd * sizeof(i64));
  void *buf = NULL;
  u32 len = 0;
  if (adopt && !v.data.empty()) {
    len = (u32)v.data.size();
    buf = mem::user_alloc(len);
    memcpy(buf, v.data.data(), len);
  }
  Status s = aitisa_create(kDT[v.dt], v.dev, d, (i64)nd, buf, len, &t);
  free(d);
  if (s != STATUS_SUCCESS) {
    if (buf) mem::user_free(buf);
    return NULL;
  }
  if (!buf && !v.data.empty()) memcpy(aitisa_tensor_data(t), v.data.data(), v.data.size());
  return t;
}
template <class T> static T *copy(const std::vector<T> &v) {
  T *p = (T *)malloc(v.size() * sizeof(T));
  if (!v.empty()) memcpy(p, v.data(), v.size() * sizeof(T));
  return p;
}
bool build(const Call &c, Live &l) {
  if (c.op != K_CREATE)
    for (size_t i = 0; i < c.t.size(); i++) {
      Tensor t = make_tensor(c.t[i], c.adopt >> i & 1);
      if (!t) { release(c, l); return false; }
      l.t.push_back(t);
    }
  for (int k = 0; k < 4; k++) l.ia[k] = copy(c.ia[k]);
  l.la = copy(c.la);
  l.la_bytes = c.la.size() * sizeof(i64);
  return true;
}
void release(const Call &, Live &l) {
  for (Tensor &t : l.t) aitisa_destroy(&t);
  l.t.clear();
  for (int k = 0; k < 4; k++) { free(l.ia[k]); l.ia[k] = NULL; }
  free(l.la);
  l.la = NULL;
}
Status invoke(const Call &c, Live &l, Tensor *out) {
  if (g_verbose) { char b[1200]; describe(c, b, sizeof b); printf("VF-CALL %s\n", b); fflush(stdout); }
  Tensor a = c.nargs > 0 ? l.t[c.arg[0]] : NULL, b = c.nargs > 1 ? l.t[c.arg[1]] : NULL;
  i64 n = c.la_n != -1 ? c.la_n : (i64)c.la.size();
  switch (c.op) {
    case K_ADD: return aitisa_add(a, b, out);
    case K_SUB: return aitisa_sub(a, b, out);
    case K_MUL: return aitisa_mul(a, b, out);
    case K_DIV: return aitisa_div(a, b, out);
    case K_MATMUL: return aitisa_matmul(a, b, out);
    case K_DOT: return aitisa_dot(a, b, out);
    case K_CAST: return aitisa_cast(a, kDT[c.dt], out);
    case K_FULL: return aitisa_full(kDT[c.dt], c.dev, l.la, n, c.d, out);
    case K_DUP: return aitisa_duplicate(a, out);
    case K_RESHAPE: return aitisa_reshape(a, l.la, n, out);
    case K_SLICE: return aitisa_slice(a, l.ia[0], l.ia[1], l.ia[2], out);
    case K_SQUEEZE: return aitisa_squeeze(a, l.la, n, out);
    case K_SQRT: return aitisa_sqrt(a, out);
    case K_RELU: return aitisa_relu(a, out);
    case K_SIGMOID: return aitisa_sigmoid(a, out);
    case K_TANH: return aitisa_tanh(a, out);
    case K_SOFTMAX: return aitisa_softmax(a, c.axis, out);
    case K_DROPOUT: return aitisa_dropout(a, c.d, out);
    case K_BN:
      return aitisa_batch_norm(a, c.axis, b, l.t[c.arg[2]], l.t[c.arg[3]], l.t[c.arg[4]], c.d, out);
    case K_CONV: return aitisa_conv(a, b, l.ia[0], l.ia[1], l.ia[2], c.groups, out);
    case K_CONV2D: case K_CONV3D: {
      return (c.op == K_CONV2D ? aitisa_conv2d : aitisa_conv3d)(
          a, b, l.ia[0], (int)c.ia[0].size(), l.ia[1], (int)c.ia[1].size(), l.ia[2],
          (int)c.ia[2].size(), c.groups, out);
    }
    case K_POOL: {
      size_t m = strlen(c.mode) + 1;
      char *mode = (char *)malloc(m);
      memcpy(mode, c.mode, m);
      Status s = aitisa_pooling(a, mode, l.ia[0], l.ia[1], l.ia[2], l.ia[3], out);
      free(mode);
      return s;
    }
    case K_CREATE: {
      void *buf = NULL;
      if (c.give_data) {
        buf = mem::user_alloc(c.t[0].data.size() ? c.t[0].data.size() : 1);
        if (!c.t[0].data.empty()) memcpy(buf, c.t[0].data.data(), c.t[0].data.size());
      }
      Status s = aitisa_create(kDT[c.dt], c.dev, l.la, n, buf, c.len, out);
      if (buf && (s != STATUS_SUCCESS || *out == kSentinel)) {
        if (!mem::is_live(buf)) fail("released-declined-buffer", "create failed with %s and released the caller's buffer", status_name(s));
        else mem::user_free(buf);
      }
      return s;
    }
  }
  return STATUS_INTERNAL_ERROR;
}
bool read_tensor(const Tensor t, TV &v) {
  DataType d = aitisa_tensor_data_type(t);
  v.dt = -1;
  for (int i = 0; i < NDT; i++) if (kDT[i].code == d.code) v.dt = i;
  if (v.dt < 0 || d.size != kSize[v.dt]) return false;
  v.dev = aitisa_tensor_device(t);
  i64 nd = aitisa_tensor_ndim(t);
  if (nd < 0 || nd > 1000) return false;
  v.dims.assign(nd, 0);
  for (i64 i = 0; i < nd; i++) v.dims[i] = aitisa_tensor_dim(t, i);
  i64 n = aitisa_tensor_size(t);
  if (n < 0 || n != v.count()) return false;
  const u8 *p = (const u8 *)aitisa_tensor_data(t);
  v.data.assign(p, p + (size_t)n * kSize[v.dt]);
  return true;
}
static bool same_dev(Device a, Device b) { return a.type == b.type && a.id == b.id; }
bool well_formed(const Tensor t, char *msg, size_t n) {
  msg[0] = 0;
  i64 nd = aitisa_tensor_ndim(t);
  i64 *d = aitisa_tensor_dims(t);
  if (nd < 0 || nd > 1000) { snprintf(msg, n, "rank %lld", (long long)nd); return false; }
  i64 p = 1;
  for (i64 i = 0; i < nd; i++) {
    if (d[i] < 0) { snprintf(msg, n, "negative extent"); return false; }
    if (aitisa_tensor_dim(t, i) != d[i] || aitisa_tensor_shape(t).dims[i] != d[i]) { snprintf(msg, n, "accessors disagree about extent %lld", (long long)i); return false; }
    p *= d[i];
  }
  if (aitisa_tensor_size(t) != p) { snprintf(msg, n, "element count %lld, product of extents %lld", (long long)aitisa_tensor_size(t), (long long)p); return false; }
  if (aitisa_tensor_storage(t)->size != p) { snprintf(msg, n, "storage of %lld elements, product of extents %lld", (long long)aitisa_tensor_storage(t)->size, (long long)p); return false; }
  if (aitisa_tensor_shape(t).ndim != nd) { snprintf(msg, n, "rank of the shape"); return false; }
  if (aitisa_tensor_layout_type(t) != LAYOUT_DENSE) { snprintf(msg, n, "layout type %d", (int)aitisa_tensor_layout_type(t)); return false; }
  DataType dt = aitisa_tensor_data_type(t);
  int k = -1;
  for (int i = 0; i < NDT; i++) if (kDT[i].code == dt.code) k = i;
  if (k < 0 || dt.size != kSize[k]) { snprintf(msg, n, "type code %d with size %d", (int)dt.code, (int)dt.size); return false; }
  DataType rt;
  Device rd;
  i64 *rdims = NULL, rn = -7;
  void *rp = NULL;
  unsigned rl = 77;
  rt.code = TYPE_NTYPES; rt.size = 0; rd.type = DEVICE_CPU; rd.id = -9;
  Status s = aitisa_resolve(t, &rt, &rd, &rdims, &rn, &rp, &rl);
  if (s != STATUS_SUCCESS) { snprintf(msg, n, "resolve returned %s", status_name(s)); return false; }
  if (rt.code != dt.code || rt.size != dt.size || !same_dev(rd, aitisa_tensor_device(t)) || rn != nd ||
      rp != aitisa_tensor_data(t) || rl != (unsigned)(p * dt.size)) {
    snprintf(msg, n, "resolve disagrees with the accessors (rank %lld, byte length %u, expected %lld, %u)",
             (long long)rn, rl, (long long)nd, (unsigned)(p * dt.size));
    return false;
  }
  for (i64 i = 0; i < nd; i++) if (rdims[i] != d[i]) { snprintf(msg, n, "resolve reports another extent %lld", (long long)i); return false; }
  // row-major layout
  i64 *st = (i64 *)malloc(nd * sizeof(i64));
  for (i64 i = 0; i < nd; i++) st[i] = -5;
  aitisa_get_all_strides(t, st);
  i64 want = 1;
  bool ok = true;
  for (i64 i = nd - 1; i >= 0; i--) {
    if (st[i] != want) { snprintf(msg, n, "stride %lld of dimension %lld, row-major is %lld", (long long)st[i], (long long)i, (long long)want); ok = false; break; }
    want *= d[i];
  }
  free(st);
  return ok;
}
// -------------------------------------------------------------------- comparing
static void where(const Exp &e, i64 i, char *b, size_t n) {
  size_t o = 0;
  b[0] = 0;
  std::vector<i64> p(e.dims.size());
  for (size_t k = e.dims.size(); k-- > 0;) { p[k] = e.dims[k] ? i % e.dims[k] : 0; if (e.dims[k]) i /= e.dims[k]; }
  put(b, n, o, "(");
  for (size_t k = 0; k < p.size(); k++) put(b, n, o, "%s%lld", k ? "," : "", (long long)p[k]);
  put(b, n, o, ")");
}
template <class E> static void show(char *b, size_t n, E x) {
  if (E(0.5) != E(0)) snprintf(b, n, "%.17g", (double)x);
  else if (E(-1) < E(0)) snprintf(b, n, "%lld", (long long)x);
  else snprintf(b, n, "%llu", (unsigned long long)x);
}
static bool copies_bits(int op) {
  return op == K_DUP || op == K_RESHAPE || op == K_SLICE || op == K_SQUEEZE || op == K_CREATE;
}
template <class E> static bool cmp_bits(const Exp &e, const Call &c, const E *got, i64 n, char *msg, size_t m) {
  bool strict = copies_bits(c.op) || (c.op == K_CAST && c.in(0).dt == c.dt);
  for (i64 i = 0; i < n; i++) {
    if (!e.care.empty() && !e.care[i]) continue;
    E w, g;
    memcpy(&w, &e.bits[i * sizeof(E)], sizeof(E));
    memcpy(&g, got + i, sizeof(E));
    if (!memcmp(&w, &g, sizeof(E))) continue;
    if (!strict && w != w && g != g) continue;
    if (e.pm0 && w == 0 && g == 0) continue;
    char p[200], a[40], b[40];
    where(e, i, p, sizeof p);
    show<E>(a, sizeof a, g);
    show<E>(b, sizeof b, w);
    snprintf(msg, m, "element %lld %s is %s, expected %s", (long long)i, p, a, b);
    return false;
  }
  return true;
}
bool compare(const Exp &e, const Call &c, const Tensor out, char *msg, size_t m) {
  msg[0] = 0;
  i64 nd = aitisa_tensor_ndim(out);
  DataType dt = aitisa_tensor_data_type(out);
  bool shape_ok = nd == (i64)e.dims.size();
  for (i64 i = 0; shape_ok && i < nd; i++) shape_ok = aitisa_tensor_dim(out, i) == e.dims[i];
  if (!shape_ok) {
    size_t o = 0;
    put(msg, m, o, "shape [");
    for (i64 i = 0; i < nd && i < 12; i++) put(msg, m, o, "%s%lld", i ? "," : "", (long long)aitisa_tensor_dim(out, i));
    put(msg, m, o, "], expected [");
    for (size_t i = 0; i < e.dims.size(); i++) put(msg, m, o, "%s%lld", i ? "," : "", (long long)e.dims[i]);
    put(msg, m, o, "]");
    return false;
  }
  if (dt.code != kDT[e.dt].code || dt.size != kSize[e.dt]) { snprintf(msg, m, "type code %d size %d, expected %s", (int)dt.code, (int)dt.size, kName[e.dt]); return false; }
  if (!same_dev(aitisa_tensor_device(out), e.dev)) { snprintf(msg, m, "device %d:%d, expected %d:%d", (int)aitisa_tensor_device(out).type, aitisa_tensor_device(out).id, (int)e.dev.type, e.dev.id); return false; }
  i64 n = 1;
  for (i64 d : e.dims) n *= d;
  if (aitisa_tensor_size(out) != n) { snprintf(msg, m, "element count %lld, expected %lld", (long long)aitisa_tensor_size(out), (long long)n); return false; }
  if (e.cmp == CMP_NONE || n == 0) return true;
  const void *data = aitisa_tensor_data(out);
  char p[200];
  switch (e.cmp) {
    case CMP_BITS: {
      bool ok = true;
      VF_DISPATCH(e.dt, E, ok = cmp_bits<E>(e, c, (const E *)data, n, msg, m));
      return ok;
    }
    case CMP_TOL:
      for (i64 i = 0; i < n; i++) {
        ld g = e.dt == F32 ? (ld)((const float *)data)[i] : (ld)((const double *)data)[i], w = e.ref[i];
        if (!e.care.empty() && !e.care[i]) continue;
        bool ok;
        if (w != w) ok = g != g;                     // the input was not a number
        else if (fabsl(w) == (ld)INFINITY) ok = g == w;
        else ok = fabsl(g - w) <= e.tol[i];
        if (ok && w == w && e.unit_lo) ok = g >= 0 && g <= 1;
        if (ok && w == w && e.unit_sym) ok = g >= -1 && g <= 1;
        if (!ok) {
          where(e, i, p, sizeof p);
          snprintf(msg, m, "element %lld %s is %.17g, expected %.17Lg (tolerance %.3Lg)", (long long)i, p, (double)g, w, e.tol[i]);
          return false;
        }
      }
      return true;
    case CMP_DROPOUT: {
      const TV &x = c.in(0);
      int sz = kSize[x.dt];
      for (i64 i = 0; i < n; i++) {
        const u8 *g = (const u8 *)data + i * sz;
        bool kept = !memcmp(g, &x.data[i * sz], sz);
        bool zero = true;
        for (int k = 0; k < sz; k++) zero = zero && (g[k] == 0 || (is_float(x.dt) && k == sz - 1 && g[k] == 0x80));
        if ((c.d <= 0 && !kept) || (c.d >= 1 && !zero) || (!kept && !zero)) {
          where(e, i, p, sizeof p);
          snprintf(msg, m, "element %lld %s is %s at rate %.17g", (long long)i, p,
                   !kept && !zero ? "neither kept nor zero" : zero ? "zeroed" : "not zeroed", c.d);
          return false;
        }
      }
      return true;
    }
  }
  return true;
}
}  // namespace vf
