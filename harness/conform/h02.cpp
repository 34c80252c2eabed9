// Histories of the sample containers against a model of ownership.
//   h02 run SEED FROM TO     random histories
//   h02 probe NAME           one particular history
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <map>
#include <new>
#include <set>
#include <utility>
#include <vector>
#include "auto_test/sample.h"
#include "auto_test/test_code/conv_test.h"
#include "auto_test/test_code/matmul_test.h"
using namespace aitisa_api;

// ------------------------------------------- every array and object, by address
struct Block { size_t n; bool array; };
template <class T> struct Raw {   // an allocator that stays out of the ledger
  typedef T value_type;
  Raw() {}
  template <class U> Raw(const Raw<U> &) {}
  T *allocate(size_t n) { return (T *)malloc(n * sizeof(T)); }
  void deallocate(T *p, size_t) { free(p); }
  template <class U> bool operator==(const Raw<U> &) const { return true; }
  template <class U> bool operator!=(const Raw<U> &) const { return false; }
};
typedef std::map<void *, Block, std::less<void *>, Raw<std::pair<void *const, Block> > > Ledger;
static Ledger *ledger;
static bool watching;
static const char *wrong;
static void *take(size_t n, bool array) {
  void *p = malloc(n ? n : 1);
  if (watching && ledger) { Block b = {n, array}; (*ledger)[p] = b; }
  return p;
}
static void give(void *p, bool array) {
  if (!p) return;
  if (ledger) {
    Ledger::iterator i = ledger->find(p);
    if (i != ledger->end()) {
      if (i->second.array != array) wrong = "released by the wrong form of delete";
      ledger->erase(i);
    }
  }
  free(p);
}
void *operator new(size_t n) { return take(n, false); }
void *operator new[](size_t n) { return take(n, true); }
void operator delete(void *p) noexcept { give(p, false); }
void operator delete[](void *p) noexcept { give(p, true); }
void operator delete(void *p, size_t) noexcept { give(p, false); }
void operator delete[](void *p, size_t) noexcept { give(p, true); }

static unsigned long long state;
static unsigned long long rnd() { state += 0x9E3779B97F4A7C15ull; unsigned long long z = state; z = (z ^ z >> 30) * 0xBF58476D1CE4E5B9ull; z = (z ^ z >> 27) * 0x94D049BB133111EBull; return z ^ z >> 31; }
static int below(int n) { return (int)(rnd() % (unsigned)n); }
static int arrays() { int n = 0; for (Ledger::iterator i = ledger->begin(); i != ledger->end(); ++i) n += i->second.array; return n; }
static bool held(void *p) { return ledger->count(p) != 0; }

// ------------------------------------------------------------------- a model
struct Group { std::vector<std::pair<void *, std::vector<unsigned char> > > bufs; int owners; int dtype, device; };
template <class T> struct Ops;
static void fill(void *p, size_t n) { for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)rnd(); }
static void *fresh(size_t n) { watching = true; void *p = new char[n]; watching = false; fill(p, n); return p; }
static int64_t *fresh_dims(int n) { watching = true; int64_t *p = new int64_t[n]; watching = false; for (int i = 0; i < n; i++) p[i] = below(9); return p; }
template <> struct Ops<Unary_Input> {
  static const bool assigns = true;
  static Unary_Input *make(int how) {
    int nd = 1 + below(4);
    unsigned len = 1 + below(64);
    Unary_Input *x;
    if (how == 0) { watching = true; x = new Unary_Input(); watching = false; }
    else if (how == 1) { int64_t *d = fresh_dims(nd); void *p = fresh(len); watching = true; x = new Unary_Input(nd, d, below(10), below(2), p, len); watching = false; }
    else {
      std::vector<int64_t> d(nd);
      for (int i = 0; i < nd; i++) d[i] = below(9);
      void *p = how == 2 ? fresh(len) : NULL;
      watching = true; x = new Unary_Input(nd, d, below(10), below(2), p, p ? len : 0); watching = false;
      for (int i = 0; i < nd; i++) if (x->dims()[i] != d[i]) wrong = "extents not kept";
      if (how == 3) { void *q = fresh(len); x->set_data(q, len); if (x->data() != q || x->len() != len) wrong = "data not kept"; }
    }
    return x;
  }
  static void bufs(Unary_Input &x, Group &g) { add(g, x.dims(), 8 * x.ndim()); add(g, x.data(), x.len()); g.dtype = x.dtype(); g.device = x.device(); }
  static void add(Group &g, void *p, size_t n) { if (p) g.bufs.push_back(std::make_pair(p, std::vector<unsigned char>((unsigned char *)p, (unsigned char *)p + n))); }
  static bool same(Unary_Input &x, const Group &g) {
    Group h;
    bufs(x, h);
    return h.bufs == g.bufs && h.dtype == g.dtype && h.device == g.device && x.count() && *x.count() == g.owners;
  }
};
template <> struct Ops<Binary_Input> {
  static const bool assigns = true;
  static Binary_Input *make(int how) {
    int n1 = 1 + below(4), n2 = 1 + below(4);
    unsigned l1 = 1 + below(64), l2 = 1 + below(64);
    Binary_Input *x;
    if (how == 0) { watching = true; x = new Binary_Input(); watching = false; }
    else if (how == 1) {
      int64_t *d1 = fresh_dims(n1), *d2 = fresh_dims(n2);
      void *p = fresh(l1), *q = fresh(l2);
      watching = true; x = new Binary_Input(n1, d1, below(10), below(2), p, l1, n2, d2, below(10), below(2), q, l2); watching = false;
    } else {
      std::vector<int64_t> d1(n1), d2(n2);
      for (int i = 0; i < n1; i++) d1[i] = below(9);
      for (int i = 0; i < n2; i++) d2[i] = below(9);
      void *p = how == 2 ? fresh(l1) : NULL, *q = how == 2 ? fresh(l2) : NULL;
      watching = true; x = new Binary_Input(n1, d1, below(10), below(2), p, p ? l1 : 0, n2, d2, below(10), below(2), q, q ? l2 : 0); watching = false;
      for (int i = 0; i < n1; i++) if (x->dims1()[i] != d1[i]) wrong = "extents not kept";
      for (int i = 0; i < n2; i++) if (x->dims2()[i] != d2[i]) wrong = "extents not kept";
      if (how == 3) { p = fresh(l1); q = fresh(l2); x->set_data1(p, l1); x->set_data2(q, l2); if (x->data1() != p || x->data2() != q || x->len1() != l1 || x->len2() != l2) wrong = "data not kept"; }
    }
    return x;
  }
  static void bufs(Binary_Input &x, Group &g) {
    Ops<Unary_Input>::add(g, x.dims1(), 8 * x.ndim1()); Ops<Unary_Input>::add(g, x.dims2(), 8 * x.ndim2());
    Ops<Unary_Input>::add(g, x.data1(), x.len1()); Ops<Unary_Input>::add(g, x.data2(), x.len2());
    g.dtype = x.dtype1() * 16 + x.dtype2(); g.device = x.device1() * 2 + x.device2();
  }
  static bool same(Binary_Input &x, const Group &g) {
    Group h;
    bufs(x, h);
    return h.bufs == g.bufs && h.dtype == g.dtype && h.device == g.device && x.count() && *x.count() == g.owners;
  }
};
template <> struct Ops<Result> {
  static const bool assigns = false;     // has no assignment
  static Result *make(int how) {
    watching = true; Result *x = new Result(); watching = false;
    if (how) {
      int nd = 1 + below(4);
      unsigned len = 1 + below(64);
      int64_t d[4];
      unsigned char b[64];
      for (int i = 0; i < nd; i++) d[i] = below(9);
      fill(b, len);
      watching = true; x->set_result(nd, d, below(10), below(2), b, len); watching = false;
      if (x->ndim() != nd || x->len() != len || memcmp(x->dims(), d, 8 * nd) || memcmp(x->data(), b, len) || (void *)x->dims() == (void *)d || x->data() == b) wrong = "the result does not keep a copy";
    }
    return x;
  }
  static void bufs(Result &x, Group &g) { Ops<Unary_Input>::add(g, x.dims(), 8 * x.ndim()); Ops<Unary_Input>::add(g, x.data(), x.len()); g.dtype = x.dtype(); g.device = x.device(); }
  static bool same(Result &x, const Group &g) {
    Group h;
    bufs(x, h);
    return h.bufs == g.bufs && h.dtype == g.dtype && h.device == g.device && x.count() && *x.count() == g.owners;
  }
};
template <class T> static void assign(T &a, T &b) { a = b; }
template <> void assign<Result>(Result &, Result &) {}
static unsigned long long sig;
static long observed, steps_done, released;
template <class T> static bool history(const char *name) {
  struct Slot { T *x; int group; };       // group -1: moved from
  std::vector<Slot> slots;
  std::map<int, Group> groups;
  int next = 0, steps = 3 + below(30);
  std::vector<std::vector<void *> > gone;
  for (int k = 0; k < steps; k++) {
    int act = below(12);
    int n = (int)slots.size();
    std::vector<void *> dead;
    sig = sig * 1099511628211ull + act;
    if (n == 0 || (act < 3 && n < 10)) {
      int how = below(4);
      Slot s = {Ops<T>::make(how), next};
      Group g;
      g.owners = 1;
      Ops<T>::bufs(*s.x, g);
      groups[next++] = g;
      slots.push_back(s);
    } else {
      int i = below(n), j = below(n);
      Slot &a = slots[i];
      if (act < 6) {                       // copy
        if (a.group < 0 || n >= 10) continue;
        watching = true; T *c = new T(*a.x); watching = false;
        groups[a.group].owners++;
        Slot s = {c, a.group};
        slots.push_back(s);
      } else if (act < 7) {                // move
        if (a.group < 0 || n >= 10) continue;
        watching = true; T *c = new T(std::move(*a.x)); watching = false;
        Slot s = {c, a.group};
        a.group = -1;
        slots.push_back(s);
      } else if (act < 9 && Ops<T>::assigns) {  // assignment of another owner's content
        Slot &b = slots[j];
        if (i == j || a.group < 0 || b.group < 0) continue;
        if (a.group == b.group) {          // owners of the same content
          assign(*a.x, *b.x);
        } else {
          Group &g = groups[a.group];
          if (--g.owners == 0) { for (size_t q = 0; q < g.bufs.size(); q++) dead.push_back(g.bufs[q].first); groups.erase(a.group); }
          assign(*a.x, *b.x);
          a.group = b.group;
          groups[b.group].owners++;
        }
      } else {                             // destroy
        if (a.group >= 0) {
          Group &g = groups[a.group];
          if (--g.owners == 0) { for (size_t q = 0; q < g.bufs.size(); q++) dead.push_back(g.bufs[q].first); groups.erase(a.group); }
        }
        delete a.x;
        slots.erase(slots.begin() + i);
      }
    }
    steps_done++;
    for (size_t q = 0; q < dead.size(); q++) { released++; if (held(dead[q])) { printf("VF-FAIL %s: a buffer without owner was not released\n", name); return false; } }
    for (size_t q = 0; q < slots.size(); q++)
      if (slots[q].group >= 0) {
        const Group &g = groups[slots[q].group];
        for (size_t r = 0; r < g.bufs.size(); r++) if (!held(g.bufs[r].first)) { printf("VF-FAIL %s: a buffer was released although it has an owner\n", name); return false; }
        if (!Ops<T>::same(*slots[q].x, g)) { printf("VF-FAIL %s: a container lost its content\n", name); return false; }
        observed++;
      }
    if (wrong) { printf("VF-FAIL %s: %s\n", name, wrong); return false; }
    if (getenv("VF_VERBOSE")) printf("%s step %d act %d slots %zu\n", name, k, act, slots.size());
  }
  for (size_t q = 0; q < slots.size(); q++) delete slots[q].x;
  int n = arrays();
  if (wrong) { printf("VF-FAIL %s: %s\n", name, wrong); return false; }
  if (n) { printf("VF-FAIL %s: %d buffers were not released in the end\n", name, n); return false; }
  ledger->clear();
  return true;
}
// a sample holds an input and a result
template <class In> static bool sample_history(const char *name) {
  In *in = Ops<In>::make(1);
  Group g;
  g.owners = 1;
  Ops<In>::bufs(*in, g);
  watching = true;
  std::vector<Sample<In> *, Raw<Sample<In> *> > v;
  v.push_back(below(2) ? new Sample<In>(*in) : new Sample<In>());
  if (v[0]->input().count() != in->count()) v[0]->set_input(*in);
  g.owners++;
  int64_t d[2] = {3, below(9)};
  unsigned char b[32];
  fill(b, sizeof b);
  v[0]->set_result(2, d, 4, 0, b, sizeof b);
  memset(d, 0, sizeof d);
  unsigned char keep[32];
  memcpy(keep, b, sizeof b);
  memset(b, 0, sizeof b);
  bool ok = true, input_gone = false;
  for (int k = 0; k < 12 && ok && !v.empty(); k++) {
    size_t i = (size_t)below((int)v.size());
    int act = below(5);
    sig = sig * 1099511628211ull + act;
    if (act < 2 && v.size() < 6) { v.push_back(act ? new Sample<In>(*v[i]) : new Sample<In>(std::move(*v[i]))); g.owners++; }
    else if (act == 2 && !input_gone) { delete in; input_gone = true; g.owners--; }
    else if (act == 3 && v.size() > 1) { delete v[i]; v.erase(v.begin() + (long)i); g.owners--; }
    steps_done++;
    for (size_t q = 0; q < v.size(); q++) {
      observed++;
      if (!Ops<In>::same(v[q]->input(), g)) ok = false;
      Result &r = v[q]->result();
      if (r.ndim() != 2 || r.dims()[0] != 3 || r.len() != 32 || memcmp(r.data(), keep, 32)) ok = false;
    }
  }
  for (size_t q = 0; q < v.size(); q++) delete v[q];
  if (!input_gone) delete in;
  watching = false;
  if (!ok) { printf("VF-FAIL %s: a sample lost its content\n", name); return false; }
  if (wrong) { printf("VF-FAIL %s: %s\n", name, wrong); return false; }
  if (arrays()) { printf("VF-FAIL %s: %d buffers were not released in the end\n", name, arrays()); return false; }
  ledger->clear();
  return true;
}
static int objects() { int n = 0; for (Ledger::iterator i = ledger->begin(); i != ledger->end(); ++i) n += !i->second.array; return n; }
template <class T> static int self_assign() {
  T *x = Ops<T>::make(1);
  Group g;
  g.owners = 1;
  Ops<T>::bufs(*x, g);
  x->operator=(*x);
  for (size_t i = 0; i < g.bufs.size(); i++) if (!held(g.bufs[i].first)) { printf("VF-FAIL self-assignment released the content\n"); return 1; }
  delete x;
  return 0;
}
template <class T> static int moved_from() {
  T *x = Ops<T>::make(1), *z = Ops<T>::make(1);
  T *y = new T(std::move(*x));
  *x = *z;                       // a moved-from container may be assigned to
  delete x; delete y; delete z;
  if (arrays()) { printf("VF-FAIL buffers left\n"); return 1; }
  return 0;
}
template <class T> static int counter_after_assign() {
  T *x = Ops<T>::make(1), *y = Ops<T>::make(1);
  *x = *y;
  delete x; delete y;
  if (objects()) { printf("VF-FAIL %d counters were not released after an assignment\n", objects()); return 1; }
  return 0;
}
static int probe(const char *p) {
  if (!strcmp(p, "unary-self-assignment")) return self_assign<Unary_Input>();
  if (!strcmp(p, "binary-self-assignment")) return self_assign<Binary_Input>();
  if (!strcmp(p, "unary-assign-moved-from")) return moved_from<Unary_Input>();
  if (!strcmp(p, "binary-assign-moved-from")) return moved_from<Binary_Input>();
  if (!strcmp(p, "unary-assign-counter")) return counter_after_assign<Unary_Input>();
  if (!strcmp(p, "binary-assign-counter")) return counter_after_assign<Binary_Input>();
  if (!strcmp(p, "result-counter")) {
    delete Ops<Result>::make(1);
    if (objects()) { printf("VF-FAIL the counter of a result was not released\n"); return 1; }
    return 0;
  }
  if (!strcmp(p, "result-set-twice")) {
    Result *r = Ops<Result>::make(1);
    int64_t d[1] = {2};
    char b[2] = {1, 2};
    r->set_result(1, d, 0, 0, b, 2);
    delete r;
    if (arrays()) { printf("VF-FAIL %d buffers of an earlier result were not released\n", arrays()); return 1; }
    return 0;
  }
  if (!strcmp(p, "matmul-sample")) {   // the library adopts the buffers of the sample's input
    for (int i = 0; i < 1; i++) { Sample<Binary_Input> s = get_sample_matmul(0); }
    return 0;
  }
#ifdef VF_CONV
  if (!strcmp(p, "conv-input-copy")) {
    int *a[3];
    for (int i = 0; i < 3; i++) { a[i] = new int[2]; a[i][0] = a[i][1] = 1; }
    Conv_Input *x = new Conv_Input(4, fresh_dims(4), 8, 0, fresh(8), 8, 4, fresh_dims(4), 8, 0, fresh(8), 8, a[0], a[1], a[2], 1);
    Conv_Input *y = new Conv_Input(*x);
    delete x;
    int s = y->stride()[0] + y->dilation()[1];
    delete y;
    return s == 2 ? 0 : 1;
  }
  if (!strcmp(p, "conv-input-assignment")) {
    std::vector<int64_t> d(4, 1);
    std::vector<int> o(2, 1);
    Conv_Input x(4, d, 8, 0, NULL, 0, 4, d, 8, 0, NULL, 0, o, o, o, 3), y;
    Conv_Input &r = (y = x);
    if (&r != &y || y.groups() != 3) { printf("VF-FAIL assignment did not take over everything\n"); return 1; }
    return 0;
  }
#endif
  return 9;
}
int main(int argc, char **argv) {
  setvbuf(stdout, NULL, _IONBF, 0);
  ledger = new Ledger;
  if (argc == 3 && !strcmp(argv[1], "probe")) { watching = true; state = 7; return probe(argv[2]); }
  if (argc != 5) return 9;
  unsigned long long seed = strtoull(argv[2], 0, 10);
  std::set<unsigned long long> sigs;
  long to = atol(argv[4]);
  for (long k = atol(argv[3]); k < to; k++) {
    state = seed * 1000003ull + (unsigned long long)k * 0x2545F4914F6CDD1Dull;
    int which = below(5);
    sig = 14695981039346656037ull + which;
    printf("%s", getenv("VF_VERBOSE") ? "case\n" : "");
    bool ok = which == 0 ? history<Unary_Input>("Unary_Input") : which == 1 ? history<Binary_Input>("Binary_Input")
            : which == 2 ? history<Result>("Result") : which == 3 ? sample_history<Unary_Input>("Sample<Unary_Input>") : sample_history<Binary_Input>("Sample<Binary_Input>");
    sigs.insert(sig);
    if (!ok) { printf("VF-CASE %ld\n", k); return 3; }
  }
  printf("VF-DONE steps=%ld observed=%ld released=%ld distinct=%zu\n", steps_done, observed, released, sigs.size());
  return 0;
}
