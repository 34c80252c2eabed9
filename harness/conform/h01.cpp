// A user of the conformance suite: an implementation that agrees with the
// library except for one point chosen by VF_DEV, or that computes everything on
// its own.
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include <vector>
#include "auto_test/basic.h"
#if defined VF_BINARY
#include "auto_test/test_code/binary_op_test.h"
#elif defined VF_MATMUL
#include "auto_test/test_code/matmul_test.h"
#else
#include "auto_test/test_code/activation_test.h"
#endif
#define PERFORM_TEST ::testing::InitGoogleTest(&argc, argv); return RUN_ALL_TESTS();
extern "C" {
#include "src/math/binary_op.h"
#include "src/math/matmul.h"
#include "src/nn/relu.h"
#include "src/nn/sigmoid.h"
#include "src/nn/tanh.h"
#include "src/core/tensor.h"
}
struct UT {                      // the user's tensor
  int dtype, device;
  std::vector<int64_t> dims;
  int64_t ndim;
  void *data;
  unsigned len;
};
typedef UT *UserT;
static int same_int(int x) { return x; }
static void u_create(int dtype, int device, int64_t *dims, int64_t ndim, void *data, unsigned len, UserT *t) {
  UT *u = new UT;
  u->dtype = dtype; u->device = device; u->ndim = ndim; u->dims.assign(dims, dims + ndim);
  u->data = data; u->len = len;
  *t = u;
}
static void u_resolve(UserT t, int *dtype, int *device, int64_t **dims, int64_t *ndim, void **data, unsigned *len) {
  *dtype = t->dtype; *device = t->device; *dims = t->dims.data(); *ndim = t->ndim; *data = t->data; *len = t->len;
}
static Tensor lib(const UT *t) {     // a copy, as the library adopts buffers
  void *p = malloc(t->len ? t->len : 1);
  memcpy(p, t->data, t->len);
  Tensor x = NULL;
  Device cpu = {DEVICE_CPU, 0};
  if (aitisa_create(aitisa_api::aitisa_dtypes[t->dtype], cpu, (int64_t *)t->dims.data(), t->ndim, p, t->len, &x) != STATUS_SUCCESS) abort();
  return x;
}
// ------------------------------------------------------------ the deviation
static int dev_op = -1;              // which operator call (0-based) of the suite
static char dev_kind[20] = "none";
static double dev_at, dev_by;        // position in [0,1), amount
static int calls;
template <class T> static void bump(UT *r, bool relative) {
  T *p = (T *)r->data;
  size_t n = r->len / sizeof(T), i = (size_t)(dev_at * (double)n);
  if (i >= n) i = n - 1;
  if (relative) {                    // an element that is not tiny
    for (size_t k = 0; k < n; k++, i = (i + 1) % n) if ((double)p[i] > 0.01 || (double)p[i] < -0.01) break;
    p[i] = (T)(p[i] * (1 + dev_by));
  } else p[i] = (T)(p[i] + dev_by);
  printf("deviates in element %zu of %zu by %g\n", i, n, dev_by);
}
static UT *take(Tensor out, int device) {
  UT *r = new UT;
  DataType dt;
  Device dv;
  int64_t *dims;
  unsigned len;
  if (aitisa_resolve(out, &dt, &dv, &dims, &r->ndim, &r->data, &len) != STATUS_SUCCESS) abort();
  r->dims.assign(dims, dims + r->ndim);
  r->dims.push_back(1);
  r->len = len; r->dtype = (int)dt.code; r->device = device;
  if (calls++ == dev_op) {
    bool rel = !strcmp(dev_kind, "relative");
    if (rel || !strcmp(dev_kind, "element")) switch (r->dtype) {
      case TYPE_INT32: bump<int32_t>(r, rel); break;
      case TYPE_UINT64: bump<uint64_t>(r, rel); break;
      case TYPE_FLOAT: bump<float>(r, rel); break;
      case TYPE_DOUBLE: bump<double>(r, rel); break;
      default: abort();
    }
    else if (!strcmp(dev_kind, "extent")) r->dims[(size_t)(dev_at * (double)r->ndim)] += (int64_t)dev_by;
    else if (!strcmp(dev_kind, "rank")) r->ndim += (int64_t)dev_by;
    else if (!strcmp(dev_kind, "type")) r->dtype = (r->dtype + 1 + (int)(dev_at * 9)) % 10;
    else if (!strcmp(dev_kind, "length")) r->len += (int)dev_by;
    else if (!strcmp(dev_kind, "device")) r->device = 1 - r->device;
    else if (strcmp(dev_kind, "none")) abort();
  }
  return r;
}
// --------------------------------- an implementation of the user's own (VF_OWN)
static bool own;
#define EACH_TYPE(dt, E, ...)                                             \
  switch (dt) {                                                           \
    case TYPE_INT8: { typedef int8_t E; __VA_ARGS__; break; }             \
    case TYPE_UINT8: { typedef uint8_t E; __VA_ARGS__; break; }           \
    case TYPE_INT16: { typedef int16_t E; __VA_ARGS__; break; }           \
    case TYPE_UINT16: { typedef uint16_t E; __VA_ARGS__; break; }         \
    case TYPE_INT32: { typedef int32_t E; __VA_ARGS__; break; }           \
    case TYPE_UINT32: { typedef uint32_t E; __VA_ARGS__; break; }         \
    case TYPE_INT64: { typedef int64_t E; __VA_ARGS__; break; }           \
    case TYPE_UINT64: { typedef uint64_t E; __VA_ARGS__; break; }         \
    case TYPE_FLOAT: { typedef float E; __VA_ARGS__; break; }             \
    case TYPE_DOUBLE: { typedef double E; __VA_ARGS__; break; }           \
    default: abort();                                                     \
  }
static UT *own_result(const UT *like, const std::vector<int64_t> &dims, int64_t ndim) {
  UT *r = new UT;
  int64_t n = 1;
  for (int64_t i = 0; i < ndim; i++) n *= dims[i];
  size_t size = 0;
  EACH_TYPE(like->dtype, E, size = sizeof(E));
  r->dims = dims; r->dims.resize(ndim); r->dims.push_back(1);
  r->ndim = ndim; r->dtype = like->dtype; r->device = like->device;
  r->len = (unsigned)(n * size);
  r->data = calloc(n ? n : 1, size);
  return r;
}
static UT *own_binary(char op, const UT *a, const UT *b) {
  UT *r = own_result(a, a->dims, a->ndim);
  EACH_TYPE(a->dtype, E,
    const E *p = (const E *)a->data; const E *q = (const E *)b->data; E *o = (E *)r->data;
    for (size_t i = 0; i < r->len / sizeof(E); i++)
      o[i] = op == '+' ? (E)(p[i] + q[i]) : op == '-' ? (E)(p[i] - q[i]) : op == '*' ? (E)(p[i] * q[i]) : (E)(p[i] / q[i]));
  return r;
}
static UT *own_unary(char op, const UT *a) {
  UT *r = own_result(a, a->dims, a->ndim);
  EACH_TYPE(a->dtype, E,
    const E *p = (const E *)a->data; E *o = (E *)r->data;
    for (size_t i = 0; i < r->len / sizeof(E); i++)
      o[i] = op == 'r' ? (p[i] > 0 ? p[i] : (E)0) : op == 's' ? (E)(1 / (1 + exp(-(double)p[i]))) : (E)tanh((double)p[i]));
  return r;
}
static UT *own_matmul(const UT *a, const UT *b) {
  std::vector<int64_t> x(a->dims.begin(), a->dims.begin() + a->ndim), y(b->dims.begin(), b->dims.begin() + b->ndim), d;
  bool row = x.size() == 1, col = y.size() == 1;
  if (row) x.insert(x.begin(), 1);
  if (col) y.push_back(1);
  size_t nb = (x.size() > y.size() ? x.size() : y.size()) - 2;
  while (x.size() < nb + 2) x.insert(x.begin(), 1);
  while (y.size() < nb + 2) y.insert(y.begin(), 1);
  int64_t M = x[nb], K = x[nb + 1], N = y[nb + 1], batches = 1;
  for (size_t i = 0; i < nb; i++) { d.push_back(x[i] > y[i] ? x[i] : y[i]); batches *= d.back(); }
  std::vector<int64_t> full = d;
  if (!row) full.push_back(M);
  if (!col) full.push_back(N);
  if (full.empty()) full.push_back(1);
  UT *r = own_result(a, full, (int64_t)full.size());
  EACH_TYPE(a->dtype, E,
    for (int64_t k = 0; k < batches; k++) {
      int64_t at = k; int64_t pa = 0; int64_t pb = 0; int64_t sa = 1; int64_t sb = 1;
      for (size_t i = nb; i-- > 0;) {
        int64_t c = at % d[i];
        at /= d[i];
        if (x[i] > 1) pa += c * sa;
        if (y[i] > 1) pb += c * sb;
        sa *= x[i]; sb *= y[i];
      }
      const E *p = (const E *)a->data + pa * M * K; const E *q = (const E *)b->data + pb * K * N;
      E *o = (E *)r->data + k * M * N;
      for (int64_t i = 0; i < M; i++)
        for (int64_t j = 0; j < K; j++)
          for (int64_t l = 0; l < N; l++) o[i * N + l] = (E)(o[i * N + l] + p[i * K + j] * q[j * N + l]);
    });
  return r;
}
#define BINARY(name, fn, op)                              \
  static void name(UserT a, UserT b, UserT *out) {        \
    if (own) { *out = own_binary(op, a, b); return; }     \
    Tensor x = lib(a), y = lib(b), z = NULL;              \
    if (fn(x, y, &z) != STATUS_SUCCESS) abort();          \
    *out = take(z, a->device);                            \
  }
BINARY(u_add, aitisa_add, '+')
BINARY(u_sub, aitisa_sub, '-')
BINARY(u_mul, aitisa_mul, '*')
BINARY(u_div, aitisa_div, '/')
#define UNARY(name, fn, op)                               \
  static void name(UserT a, UserT *out) {                 \
    if (own) { *out = own_unary(op, a); return; }         \
    Tensor x = lib(a), z = NULL;                          \
    if (fn(x, &z) != STATUS_SUCCESS) abort();             \
    *out = take(z, a->device);                            \
  }
UNARY(u_relu, aitisa_relu, 'r')
UNARY(u_sigmoid, aitisa_sigmoid, 's')
UNARY(u_tanh, aitisa_tanh, 't')
// the large product by rows of the second operand, which is much faster
static void u_matmul(UserT a, UserT b, UserT *out) {
  if (own) { *out = own_matmul(a, b); return; }
  if (a->ndim == 2 && b->ndim == 2 && a->dtype == TYPE_DOUBLE && a->len > 100000) {
    int64_t M = a->dims[0], K = a->dims[1], N = b->dims[1], d[2] = {M, N};
    double *c = (double *)calloc(M * N, 8), *p = (double *)a->data, *q = (double *)b->data;
    for (int64_t i = 0; i < M; i++)
      for (int64_t k = 0; k < K; k++) {
        double f = p[i * K + k], *s = q + k * N, *o = c + i * N;
        for (int64_t j = 0; j < N; j++) o[j] += f * s[j];
      }
    Tensor z = NULL;
    Device cpu = {DEVICE_CPU, 0};
    if (aitisa_create(kDouble, cpu, d, 2, c, (unsigned)(M * N * 8), &z) != STATUS_SUCCESS) abort();
    *out = take(z, a->device);
    return;
  }
  Tensor x = lib(a), y = lib(b), z = NULL;
  if (aitisa_matmul(x, y, &z) != STATUS_SUCCESS) abort();
  *out = take(z, a->device);
}
namespace aitisa_api {
REGISTER_BASIC(UserT, int, same_int, same_int, int, same_int, same_int, u_create, u_resolve)
}
using aitisa_api::Basic;
#ifdef VF_BINARY
#define VF_SUITE REGISTER_BINARY_OP(u_add, u_sub, u_mul, u_div)
#elif defined VF_MATMUL
#define VF_SUITE REGISTER_MATMUL(u_matmul)
#else
#define VF_SUITE REGISTER_ACTIVATION(u_relu, u_sigmoid, u_tanh)
#endif
VF_SUITE
int main(int argc, char **argv) {
  const char *d = getenv("VF_DEV");
  own = d && !strcmp(d, "own");
  if (own) d = NULL;
  if (d && sscanf(d, "%d %19s %lf %lf", &dev_op, dev_kind, &dev_at, &dev_by) != 4) return 9;
  PERFORM_TEST
}
