// Shared declarations of the runtime-monitoring harness for aitisa_api.
// Only AITISA_API_PUBLIC functions and the inline functions of the public
// headers are used, so that the inside of the library may be rewritten freely.
#ifndef VF_H
#define VF_H
#include <float.h>
#include <limits.h>
#include <math.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <vector>

extern "C" {
#include "src/basic/broadcast.h"
#include "src/basic/cast.h"
#include "src/basic/duplicate.h"
#include "src/basic/factories.h"
#include "src/basic/index_utils.h"
#include "src/basic/reshape.h"
#include "src/basic/slice.h"
#include "src/basic/squeeze.h"
#include "src/core/allocator.h"
#include "src/core/tensor.h"
#include "src/math/binary_op.h"
#include "src/math/dot.h"
#include "src/math/matmul.h"
#include "src/math/sqrt.h"
#include "src/nn/batch_norm.h"
#include "src/nn/conv.h"
#include "src/nn/dropout.h"
#include "src/nn/pooling.h"
#include "src/nn/relu.h"
#include "src/nn/sigmoid.h"
#include "src/nn/softmax.h"
#include "src/nn/tanh.h"
}

namespace vf {
typedef int64_t i64;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef __int128 i128;
typedef long double ld;

// ------------------------------------------------------------- element types
enum { I8, U8, I16, U16, I32, U32, I64, U64, F32, F64, NDT };
extern const int kSize[NDT];
extern const char *const kName[NDT];
extern DataType kDT[NDT];
inline bool is_float(int dt) { return dt >= F32; }
inline bool is_signed(int dt) { return dt >= F32 || !(dt & 1); }
i128 int_min(int dt);
i128 int_max(int dt);

#define VF_DISPATCH(dt, E, ...)                                         \
  switch (dt) {                                                         \
    case vf::I8: { typedef int8_t E; __VA_ARGS__; break; }              \
    case vf::U8: { typedef uint8_t E; __VA_ARGS__; break; }             \
    case vf::I16: { typedef int16_t E; __VA_ARGS__; break; }            \
    case vf::U16: { typedef uint16_t E; __VA_ARGS__; break; }           \
    case vf::I32: { typedef int32_t E; __VA_ARGS__; break; }            \
    case vf::U32: { typedef uint32_t E; __VA_ARGS__; break; }           \
    case vf::I64: { typedef int64_t E; __VA_ARGS__; break; }            \
    case vf::U64: { typedef uint64_t E; __VA_ARGS__; break; }           \
    case vf::F32: { typedef float E; __VA_ARGS__; break; }              \
    case vf::F64: { typedef double E; __VA_ARGS__; break; }             \
  }

// ------------------------------------------------------- source of decisions
// Either a pseudo-random generator or the bytes of a fuzzer input, so that the
// same generators serve random testing, replay and coverage-guided search.
struct Src {
  u64 s[2];
  const u8 *p;
  size_t n, pos;
  explicit Src(u64 seed);
  Src(const u8 *bytes, size_t len);
  u64 rnd();                      // 64 random bits
  u64 below(u64 m);               // uniform in [0, m)
  i64 range(i64 lo, i64 hi);      // inclusive
  bool chance(int percent);
  template <class T, size_t N> T pick(const T (&a)[N]) { return a[below(N)]; }
};
u64 mix(u64 x);

// ------------------------------------------------------------ tensors, calls
struct TV {  // a tensor as a plain value
  int dt;
  Device dev;
  std::vector<i64> dims;
  std::vector<u8> data;
  i64 count() const;
  TV() : dt(F32) { dev.type = DEVICE_CPU; dev.id = 0; }
};

enum Op {
  K_ADD, K_SUB, K_MUL, K_DIV, K_MATMUL, K_DOT, K_CAST, K_FULL, K_DUP,
  K_RESHAPE, K_SLICE, K_SQUEEZE, K_SQRT, K_RELU, K_SIGMOID, K_TANH, K_SOFTMAX,
  K_DROPOUT, K_BN, K_CONV, K_CONV2D, K_CONV3D, K_POOL, K_CREATE, NOPS
};
extern const char *const kOpName[NOPS];

struct Call {
  int op;
  std::vector<TV> t;           // distinct tensors
  int arg[5], nargs;           // operands, as indices into t
  std::vector<int> ia[4];      // int arrays (slice, conv, pooling)
  std::vector<i64> la;         // dims of reshape/full/create, axes of squeeze
  i64 la_n;                    // length passed for la (-1: its size)
  double d;                    // value, rate, epsilon
  int axis, groups, dt;
  Device dev;
  char mode[12];
  bool give_data;              // create: pass a buffer
  u32 len;                     // create: length passed
  u32 adopt;                   // bit i: tensor i adopts a caller's buffer
  Call() : op(0), nargs(0), la_n(-1), d(0), axis(0), groups(1), dt(F32),
           give_data(false), len(0), adopt(0) {
    dev.type = DEVICE_CPU; dev.id = 0; mode[0] = 0;
    for (int i = 0; i < 5; i++) arg[i] = 0;
  }
  const TV &in(int i) const { return t[arg[i]]; }
};
void describe(const Call &c, char *buf, size_t n);
u64 hash_call(const Call &c);

// -------------------------------------------------------------- specification
enum { VALID, INVALID, EITHER };
enum { CMP_BITS, CMP_TOL, CMP_DROPOUT, CMP_NONE };
struct Exp {
  int cls;
  int want;                    // documented failure status, or -1
  const char *why;             // the rule that makes the call invalid
  int dt;                      // expected result
  Device dev;
  std::vector<i64> dims;
  int cmp;
  bool judged;                 // EITHER, but a result is held to the expectation
  bool pm0;                    // +0 and -0 count as equal
  bool unit_lo, unit_sym;      // result must lie in [0,1] / in [-1,1]
  std::vector<u8> bits;
  std::vector<u8> care;        // empty: every element is specified
  std::vector<ld> ref, tol;
  Exp() : cls(VALID), want(-1), why(""), dt(F32), cmp(CMP_NONE), judged(false), pm0(false),
          unit_lo(false), unit_sym(false) {
    dev.type = DEVICE_CPU; dev.id = 0;
  }
};
void classify(const Call &c, Exp &e);           // verdict, shape and type
void expect_values(const Call &c, Exp &e);      // element values (if VALID)
// number of elements of the result and rough cost of the call
ld result_count(const Exp &e);
ld cost(const Call &c, const Exp &e);
void load_dict(const char *path);

// -------------------------------------------------------------------- library
extern Tensor kSentinel;
struct Live {                   // operands and parameters inside the library
  std::vector<Tensor> t;
  int *ia[4];
  i64 *la;
  size_t la_bytes;
  Live() : la(NULL), la_bytes(0) { for (int i = 0; i < 4; i++) ia[i] = NULL; }
};
bool build(const Call &c, Live &l);             // create operands and arrays
void release(const Call &c, Live &l);           // destroy them again
Status invoke(const Call &c, Live &l, Tensor *out);
Tensor make_tensor(const TV &v, bool adopt);    // NULL on failure
bool read_tensor(const Tensor t, TV &v);        // copy out through accessors
// "" if the tensor agrees with the expectation; otherwise a description
bool compare(const Exp &e, const Call &c, const Tensor out, char *msg, size_t n);
bool well_formed(const Tensor t, char *msg, size_t n);
const char *status_name(int s);

// ------------------------------------------------------- memory of the library
// malloc & co. of the library's objects are redirected to these (objcopy).
struct MemStat {
  u64 live, live_bytes, requests, total_frees;
};
namespace mem {
void reset_faults();
void arm(i64 k, bool sustained);        // k-th request from now on (0-based) fails
bool fired();
u64 requests();                         // since the last reset_faults()
u64 live_count();
u64 live_hash();                        // hash of the set of live library blocks
extern int poison;                      // pattern of fresh blocks
enum { P_NONE, P_ZERO, P_FF, P_AA, P_NAN, P_RAND, P_ONE };
extern bool lifo;                       // reuse freed blocks of a size at once
extern bool huge_ok;                    // serve huge requests by reserving space
extern u64 limit;                       // larger requests fail
void *user_alloc(size_t n);             // a buffer the library may adopt
void user_free(void *p);
void add_foreign(void *p);              // fake buffer the library may adopt
bool is_live(const void *p);
void drop_cache();
const char *error();                    // first wrong release, or NULL
void clear_error();
extern void (*yield_hook)();
}  // namespace mem
extern long vf_time_base;               // what time() tells the library

// ------------------------------------------------------------------ generators
struct Gen {
  Src &s;
  i64 budget;                           // bound on elements / work of one call
  bool big;                             // spend the whole budget, on several extents at once
  explicit Gen(Src &src) : s(src), budget(600), big(false) {}
  i64 upto(i64 want, i64 most) const { return want < most || big ? want : most; }
  void dims(std::vector<i64> &d, int rank, i64 max_elems);
  int rank(int lo, int hi);
  int any_dt();
  Device device();
  i64 interesting(i64 lo, i64 hi);
  void fill_any(TV &v);                 // any bit pattern
  void fill_finite(TV &v, ld maxabs);
  void fill_int(TV &v, i64 bound);      // integers in [-bound, bound]
  void fill_nonneg(TV &v);
  void valid(int op, Call &c);          // a call that satisfies the documentation
  void invalid(int op, Call &c);        // a call that (most likely) does not
  void sibling(const Call &like, Call &c);  // like another call but for an aspect or two
  void make_valid(int op, Call &c);
  void make_invalid(int op, Call &c);
};

// ------------------------------------------------------------------- reporting
void fail(const char *key, const char *fmt, ...)
    __attribute__((format(printf, 2, 3)));
extern int g_violations;
void note_case(const Call &c, const Exp &e, bool nontrivial);
void note_sig(u64 sig, bool nontrivial);
void count(const char *name, u64 by = 1);
void sample(const char *text);
extern bool g_verbose;

// ------------------------------------------------------------------ properties
typedef void (*CaseFn)(Src &s);
struct Prop { const char *id; CaseFn fn; };
CaseFn find_prop(const char *id);
extern int g_tier;                      // 0 quick, 1 thorough

// building blocks used by several properties
}  // namespace vf
#endif
