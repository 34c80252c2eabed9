// Runtime of the harness: decisions, memory ledger, fault injection, reporting.
#include "vf.h"
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>

namespace vf {
const int kSize[NDT] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8};
const char *const kName[NDT] = {"int8",  "uint8",  "int16", "uint16", "int32",
                                "uint32", "int64", "uint64", "float", "double"};
DataType kDT[NDT];
struct InitDT {
  InitDT() {
    kDT[I8] = kInt8; kDT[U8] = kUint8; kDT[I16] = kInt16; kDT[U16] = kUint16;
    kDT[I32] = kInt32; kDT[U32] = kUint32; kDT[I64] = kInt64;
    kDT[U64] = kUint64; kDT[F32] = kFloat; kDT[F64] = kDouble;
  }
} init_dt;
i128 int_min(int dt) {
  return is_signed(dt) ? -((i128)1 << (8 * kSize[dt] - 1)) : 0;
}
i128 int_max(int dt) {
  return ((i128)1 << (8 * kSize[dt] - (is_signed(dt) ? 1 : 0))) - 1;
}
const char *const kOpName[NOPS] = {
    "add", "sub", "mul", "div", "matmul", "dot", "cast", "full", "duplicate",
    "reshape", "slice", "squeeze", "sqrt", "relu", "sigmoid", "tanh", "softmax",
    "dropout", "batch_norm", "conv", "conv2d", "conv3d", "pooling", "create"};
const char *status_name(int s) {
  static const char *const n[] = {
      "SUCCESS", "TYPE_MISMATCH", "DIMENSIONS_MISMATCH", "INVALID_ARGUMENT",
      "NOT_SUPPORTED", "ALLOC_FAILED", "OUT_OF_RANGE", "INTERNAL_ERROR",
      "MATH_ERROR"};
  return s >= 0 && s < 9 ? n[s] : "(not a status)";
}

// ---------------------------------------------------------------- Src
u64 mix(u64 x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
Src::Src(u64 seed) : p(NULL), n(0), pos(0) { s[0] = mix(seed); s[1] = mix(s[0]) | 1; }
Src::Src(const u8 *b, size_t len) : p(b), n(len), pos(0) {
  u64 h = 1;
  for (size_t i = 0; i < len && i < 4; i++) h = h * 257 + b[i];
  s[0] = mix(h); s[1] = mix(s[0]) | 1;
}
u64 Src::rnd() {  // xoroshiro128+
  u64 a = s[0], b = s[1], r = a + b;
  b ^= a;
  s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16);
  s[1] = (b << 37) | (b >> 27);
  return r;
}
u64 Src::below(u64 m) {
  if (m <= 1) return 0;
  if (p && pos < n) {
    u64 v = 0;
    int k = m <= 256 ? 1 : m <= 65536 ? 2 : m <= (1ull << 32) ? 4 : 8;
    for (int i = 0; i < k && pos < n; i++) v = v << 8 | p[pos++];
    return v % m;
  }
  return (u64)(((unsigned __int128)rnd() * m) >> 64);
}
i64 Src::range(i64 lo, i64 hi) {
  if (hi <= lo) return lo;
  u64 w = (u64)hi - (u64)lo;
  if (w == UINT64_MAX) return (i64)rnd();
  return (i64)((u64)lo + below(w + 1));
}
bool Src::chance(int percent) { return (int)below(100) < percent; }

// ---------------------------------------------------------------- ledger
long vf_time_base = 1600000000;
namespace mem {
int poison = P_NONE;
bool lifo = false, huge_ok = false;
u64 limit = (u64)256 << 20;
void (*yield_hook)() = NULL;
static i64 fail_at = -1;
static bool fail_sustained = false, did_fire = false;
static u64 n_requests = 0;
static char err[256];
const char *error() { return err[0] ? err : NULL; }
void clear_error() { err[0] = 0; }
void reset_faults() { fail_at = -1; did_fire = false; n_requests = 0; }
void arm(i64 k, bool sustained) {
  reset_faults(); fail_at = k; fail_sustained = sustained;
}
bool fired() { return did_fire; }
u64 requests() { return n_requests; }

#ifndef VF_NO_LEDGER
enum { EMPTY, LIB, USER, FAKE, MAPPED };
struct Ent { u64 p; u64 size; u32 kind; };
static Ent *tab = NULL;
static u64 cap = 0, live = 0, hash = 0;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
struct Lock {
  Lock() { pthread_mutex_lock(&mu); }
  ~Lock() { pthread_mutex_unlock(&mu); }
};
static Ent *find(u64 p) {
  if (!cap) return NULL;
  for (u64 i = mix(p) & (cap - 1);; i = (i + 1) & (cap - 1)) {
    if (tab[i].kind == EMPTY) return NULL;
    if (tab[i].p == p) return &tab[i];
  }
}
static void put(u64 p, u64 size, u32 kind) {
  if (live * 2 >= cap) {
    u64 oc = cap;
    Ent *ot = tab;
    cap = cap ? cap * 2 : 4096;
    tab = (Ent *)calloc(cap, sizeof(Ent));
    for (u64 i = 0; i < oc; i++)
      if (ot[i].kind != EMPTY) {
        u64 j = mix(ot[i].p) & (cap - 1);
        while (tab[j].kind != EMPTY) j = (j + 1) & (cap - 1);
        tab[j] = ot[i];
      }
    free(ot);
  }
  u64 i = mix(p) & (cap - 1);
  while (tab[i].kind != EMPTY) i = (i + 1) & (cap - 1);
  tab[i].p = p; tab[i].size = size; tab[i].kind = kind;
  live++; hash ^= mix(p ^ mix(size));
}
static void take(Ent *e) {       // remove, moving back what follows in the chain
  live--; hash ^= mix(e->p ^ mix(e->size));
  u64 hole = (u64)(e - tab);
  for (u64 i = (hole + 1) & (cap - 1); tab[i].kind != EMPTY; i = (i + 1) & (cap - 1)) {
    u64 home = mix(tab[i].p) & (cap - 1);
    if (((i - home) & (cap - 1)) < ((i - hole) & (cap - 1))) continue;
    tab[hole] = tab[i];
    hole = i;
  }
  tab[hole].kind = EMPTY;
}
// LIFO cache of freed blocks: fresh memory then has the address and content of
// the block released last
enum { NC = 512 };
static std::vector<void *> *cache[NC];
void drop_cache() {
  for (int i = 0; i < NC; i++)
    if (cache[i]) { for (void *p : *cache[i]) free(p); cache[i]->clear(); }
}
static void *raw_get(u64 n) {
  if (lifo && n <= 16 * (NC - 1)) {
    int k = (int)((n + 15) / 16);
    if (cache[k] && !cache[k]->empty()) {
      void *p = cache[k]->back();
      cache[k]->pop_back();
      return p;
    }
    return malloc(k > 0 ? (size_t)k * 16 : 16);
  }
  return malloc(n);
}
static void raw_put(void *p, u64 n) {
  if (lifo && n <= 16 * (NC - 1)) {
    int k = (int)((n + 15) / 16);
    if (!cache[k]) cache[k] = new std::vector<void *>;
    cache[k]->push_back(p);
    return;
  }
  free(p);
}
static void *get(u64 n, u32 kind) {
  void *p;
  if (huge_ok && n > ((u64)1 << 26)) {
    p = mmap(NULL, n + 4096, PROT_READ | PROT_WRITE,
             MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) return NULL;
    Lock l;
    put((u64)p, n, MAPPED);
    return p;
  }
  if (n > limit) return NULL;
  {
    Lock l;
    p = kind == USER ? malloc(n) : raw_get(n);
    if (p) put((u64)p, n, kind);
  }
  return p;
}
static void fill(void *p, u64 n) {
  static const u8 nan[8] = {0, 0, 0xc0, 0x7f, 0, 0, 0xf8, 0x7f};
  switch (poison) {
    case P_ZERO: memset(p, 0, n); break;
    case P_FF: memset(p, 0xff, n); break;
    case P_AA: memset(p, 0xaa, n); break;
    case P_ONE: memset(p, 1, n); break;
    case P_NAN: for (u64 i = 0; i < n; i++) ((u8 *)p)[i] = nan[i % 8]; break;
    case P_RAND: {
      u64 x = 88172645463325252ull;
      for (u64 i = 0; i < n; i++) {
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        ((u8 *)p)[i] = (u8)(x >> 24);
      }
      break;
    }
  }
}
static void put_back(void *p) {
  if (!p) return;
  Ent e;
  {
    Lock l;
    Ent *f = find((u64)p);
    if (!f) {
      snprintf(err, sizeof err,
               "release of %p, which is not a live block (released twice, "
               "interior or foreign)", p);
      e.kind = EMPTY;
    } else {
      e = *f;
      take(f);
    }
  }
  if (e.kind == EMPTY) { fail("bad-release", "%s", err); return; }
  if (e.kind == FAKE) return;
  if (e.kind == MAPPED) { munmap(p, e.size + 4096); return; }
#if !defined(VF_ASAN) && !defined(VF_MSAN)
  if (!lifo) memset(p, 0xdd, e.size);
#endif
  Lock l;
  if (e.kind == USER) free(p); else raw_put(p, e.size);
}
u64 live_count() { return live; }
u64 live_hash() { return hash; }
void *user_alloc(size_t n) { return get(n, USER); }
void user_free(void *p) { put_back(p); }
void add_foreign(void *p) { Lock l; put((u64)p, 0, FAKE); }
bool is_live(const void *p) { Lock l; return find((u64)p) != NULL; }
#else
static void *get(u64 n, u32) { return malloc(n); }
static void fill(void *, u64) {}
static void put_back(void *p) { free(p); }
u64 live_count() { return 0; }
u64 live_hash() { return 0; }
void *user_alloc(size_t n) { return malloc(n); }
void user_free(void *p) { free(p); }
void add_foreign(void *) {}
bool is_live(const void *) { return true; }
void drop_cache() {}
enum { LIB };
#endif
static void *request(u64 n) {
  if (yield_hook) yield_hook();
#ifdef VF_NO_LEDGER
  return get(n, LIB);
#else
  u64 k = n_requests++;
  if (fail_at >= 0 && ((i64)k == fail_at || (fail_sustained && (i64)k > fail_at))) {
    did_fire = true;
    return NULL;
  }
  void *p = get(n, LIB);
  if (p && n <= ((u64)1 << 26)) fill(p, n);
  return p;
#endif
}
}  // namespace mem
}  // namespace vf

extern "C" {
void *vf_malloc(size_t n) { return vf::mem::request(n); }
void *vf_calloc(size_t a, size_t b) {
  if (b && a > SIZE_MAX / b) return NULL;
  void *p = vf::mem::request(a * b);
  if (p) memset(p, 0, a * b);
  return p;
}
void vf_free(void *p) {
  if (vf::mem::yield_hook) vf::mem::yield_hook();
  vf::mem::put_back(p);
}
void *vf_realloc(void *p, size_t n) {
  if (!p) return vf_malloc(n);
  if (!n) { vf_free(p); return NULL; }
#ifdef VF_NO_LEDGER
  return realloc(p, n);
#else
  vf::u64 old = 0;
  {
    vf::mem::Lock l;
    vf::mem::Ent *e = vf::mem::find((vf::u64)p);
    if (e) old = e->size;
  }
  void *q = vf_malloc(n);
  if (!q) return NULL;
  memcpy(q, p, old < n ? old : n);
  vf_free(p);
  return q;
#endif
}
void *vf_reallocarray(void *p, size_t a, size_t b) {
  if (b && a > SIZE_MAX / b) return NULL;
  return vf_realloc(p, a * b);
}
void *vf_aligned_alloc(size_t, size_t n) { return vf_malloc(n); }
int vf_posix_memalign(void **p, size_t, size_t n) {
  *p = vf_malloc(n);
  return *p ? 0 : ENOMEM;
}
time_t vf_time(time_t *t) {
  if (t) *t = vf::vf_time_base;
  return vf::vf_time_base;
}
}

namespace vf {
// ---------------------------------------------------------------- reporting
int g_violations = 0, g_tier = 0;
bool g_verbose = false;
static pthread_mutex_t fail_mu = PTHREAD_MUTEX_INITIALIZER;
static const Call *cur_call = NULL;
void set_current(const Call *c) { cur_call = c; }
void fail(const char *key, const char *fmt, ...) {
  char buf[3000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  pthread_mutex_lock(&fail_mu);
  if (g_violations++ < 5) printf("VF-FAIL key=%s | %s\n", key, buf);
  fflush(stdout);
  pthread_mutex_unlock(&fail_mu);
#ifdef VF_FUZZ
  abort();
#endif
}
struct Counter { const char *name; u64 n; };
static Counter counters[400];
static int n_counters = 0;
void count(const char *name, u64 by) {
  // names are string literals or entries of static tables: compare addresses first
  for (int i = 0; i < n_counters; i++)
    if (counters[i].name == name) { counters[i].n += by; return; }
  for (int i = 0; i < n_counters; i++)
    if (!strcmp(counters[i].name, name)) { counters[i].n += by; return; }
  if (n_counters < 400) {
    counters[n_counters].name = strdup(name);
    counters[n_counters++].n = by;
  }
}
static u64 n_eval = 0;
static std::vector<u64> sigs;   // of the non-trivial cases
static char samples[6][700];
static int n_samples = 0;
void note_sig(u64 sig, bool nontrivial) {
  n_eval++;
  if (nontrivial && sigs.size() < 4000000) sigs.push_back(sig);
}
static void add_sample(const Call &c, const char *tag) {
  char b[600];
  describe(c, b, sizeof b);
  snprintf(samples[n_samples++], sizeof samples[0], "%s %s", tag, b);
}
void note_case(const Call &c, const Exp &e, bool nontrivial) {
  note_sig(hash_call(c), nontrivial);
  if (nontrivial && n_samples < 6 && n_eval > 20 * (u64)(1 + n_samples * n_samples * 7))
    add_sample(c, e.cls == VALID ? "valid:" : e.cls == INVALID ? "invalid:" : "any:");
}
void sample(const char *text) {
  if (n_samples < 6) snprintf(samples[n_samples++], sizeof samples[0], "%s", text);
}
static void json_str(FILE *f, const char *s) {
  fputc('"', f);
  for (; *s; s++) {
    if (*s == '"' || *s == '\\') fputc('\\', f);
    if ((unsigned char)*s >= 32) fputc(*s, f);
  }
  fputc('"', f);
}
void write_stats(const char *path) {
  FILE *f = fopen(path, "w");
  if (!f) return;
  fprintf(f, "{\"evaluations\": %llu, \"counters\": {", (unsigned long long)n_eval);
  for (int i = 0; i < n_counters; i++) {
    fprintf(f, "%s", i ? ", " : "");
    json_str(f, counters[i].name);
    fprintf(f, ": %llu", (unsigned long long)counters[i].n);
  }
  fprintf(f, "}, \"samples\": [");
  for (int i = 0; i < n_samples; i++) {
    fprintf(f, "%s", i ? ", " : "");
    json_str(f, samples[i]);
  }
  fprintf(f, "]}\n");
  fclose(f);
  char b[4096];
  snprintf(b, sizeof b, "%s.sigs", path);
  f = fopen(b, "wb");
  if (!f) return;
  if (!sigs.empty()) fwrite(&sigs[0], 8, sigs.size(), f);
  fclose(f);
}
}  // namespace vf
