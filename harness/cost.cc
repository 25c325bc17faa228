// What operations cost: executed basic blocks (the compiler calls the counter below at each),
// elements' worth of allocated bytes, and element operations.  usage: cost <kind> <nslots>
// kinds: vec (counting elements), int, val, str, ss
#include "vf.h"
#include "nanovector.h"
#include "nanovalarray.h"
#include "nanostring.h"
#include "nanosstream.h"
#if defined(__clang__)
#define QUIET __attribute__((no_sanitize("coverage")))
#else
#define QUIET __attribute__((no_sanitize_coverage))
#endif
static long blocks = 0;
static bool counting = false;
extern "C" QUIET void __sanitizer_cov_trace_pc() { if (counting) blocks++; }
using namespace vf;
struct Ct {   // an element whose every construction, copy and assignment runs a block
  long v;
  Ct() : v(0) {}
  Ct(long x) : v(x) {}
  Ct(const Ct &o) : v(o.v) {}
  Ct &operator=(const Ct &o) { v = o.v; return *this; }
  ~Ct() { v = -1; }
};
static volatile long sink;
enum { N = 4 };
typedef nanostl::string S;
// how each kind does what the script asks; work before start() is not counted
static long held0;
static void start() { counting = true; heap_on = true; }
static void stop() { counting = false; heap_on = false; }
template <class V> struct Seq {
  enum { unit = sizeof(typename V::value_type) };
  typedef typename V::value_type T;
  static long size(V &v) { return v.size(); }
  static void app(V &v, long k) { start(); v.resize(v.size() + k); stop(); }
  static void cut(V &v, long k) { start(); v.resize(k); stop(); }
  static void clear(V &v) { start(); v.clear(); stop(); }
  static void erase(V &v, long i) { start(); v.erase(v.begin() + i); stop(); }
  static void copy(V &a, V &b, long i) { start(); if (i) a.assign(b.begin(), b.end()); else a = b; stop(); }
  static void self(V &) { bad_op("self"); }
  static void swap(V &a, V &b) { start(); a.swap(b); stop(); }
  static void cmp(V &, V &) { bad_op("cmp"); }
  static void obs(V &v, long k) {
    const V &c = v; long n = 0;
    start();
    for (long i = 0; i < k; i++) { n += v.size() + c.size() + c.empty() + c.capacity() + (v.end() - v.begin()) + (c.end() - c.begin()) + (v.data() != 0); if (v.size()) { v[i % v.size()] = T(7); n += (long)&c[v.size() - 1]; } }
    stop(); sink = n;
  }
};
static long as(const Ct &c) { return c.v; }
static long as(long c) { return c; }
template <class T> struct Vec : Seq<nanostl::vector<T> > {
  typedef nanostl::vector<T> V;
  static void push(V &v, long k) { start(); for (long i = 0; i < k; i++) v.push_back(T(i)); stop(); }
  static void pop(V &v, long k) { start(); for (long i = 0; i < k; i++) v.pop_back(); stop(); }
};
struct Val : Seq<nanostl::valarray<long> > {
  typedef nanostl::valarray<long> V;
  static void push(V &v, long k) { start(); for (long i = 0; i < k; i++) { v.resize(v.size() + 1); v[v.size() - 1] = i; } stop(); }
  static void pop(V &v, long k) { start(); for (long i = 0; i < k; i++) v.resize(v.size() - 1); stop(); }
};
struct Str {
  typedef S V;
  enum { unit = 1 };
  static long size(V &v) { return v.size(); }
  static void push(V &v, long k) { const S x("x"); start(); for (long i = 0; i < k; i++) v += x; stop(); }
  static void app(V &v, long k) { char *q = (char *)malloc(k + 1); memset(q, 'y', k); q[k] = 0; { start(); const S x(q); v += x; stop(); } free(q); }
  static void pop(V &v, long k) { start(); for (long i = 0; i < k; i++) v.erase(&v[v.size() - 1]); stop(); }
  static void cut(V &, long) { bad_op("cut"); }
  static void clear(V &v) { start(); v.clear(); stop(); }
  static void erase(V &v, long i) { start(); v.erase(&v[i]); stop(); }
  static void copy(V &a, V &b, long) { start(); a = b; stop(); }
  static void self(V &v) { start(); v += v; stop(); }
  static void swap(V &, V &) { bad_op("swap"); }
  static void cmp(V &a, V &b) { start(); long n = a.compare(b); n += a == b; n += a != b; n += a < b; n += a > b; n += a == b.c_str(); n += a.compare(b.c_str()); stop(); sink = n; }
  static void obs(V &v, long k) {
    const V &c = v; long n = 0;
    start();
    for (long i = 0; i < k; i++) { n += v.size() + c.length() + c.empty() + (long)c.c_str(); if (v.size()) { v[v.size() - 1] = 'z'; n += c[0] + c.at(0) + v.at(v.size() - 1); } }
    stop(); sink = n;
  }
};
struct Ss {
  typedef nanostl::stringstream V;
  enum { unit = 1 };
  static long size(V &v) { return v.str().size(); }
  static void push(V &v, long k) { const S x("x"); start(); for (long i = 0; i < k; i++) v << x; stop(); }
  static void app(V &v, long k) { char *q = (char *)malloc(k + 1); memset(q, 'y', k); q[k] = 0; start(); v << q; stop(); free(q); }
  static void pop(V &v, long k) { Str::pop(v.str(), k); }
  static void cut(V &, long) { bad_op("cut"); }
  static void clear(V &v) { start(); v.clear(); stop(); }
  static void erase(V &v, long i) { Str::erase(v.str(), i); }
  static void copy(V &a, V &b, long) { start(); a.str() = b.str(); stop(); }
  static void self(V &v) { start(); v << v.str(); stop(); }
  static void swap(V &, V &) { bad_op("swap"); }
  static void cmp(V &a, V &b) { Str::cmp(a.str(), b.str()); }
  static void obs(V &v, long k) { start(); for (long i = 0; i < k; i++) sink = v.str().size(); stop(); }
};
template <class V> static V *dup(void *p, V &o) { start(); V *r = new (p) V(o); stop(); return r; }
static nanostl::stringstream *dup(void *p, nanostl::stringstream &o) { nanostl::stringstream *r; start(); r = new (p) nanostl::stringstream(); r->str() = o.str(); stop(); return r; }
template <class K> struct Run {
  typedef typename K::V V;
  V *slot[N]; int n;
  Run(int nn) : n(nn) { for (int i = 0; i < N; i++) slot[i] = 0; }
  void drop(int i) { if (slot[i]) { start(); slot[i]->~V(); stop(); free(slot[i]); slot[i] = 0; } }
  void one(const char *op) {
    if (is(op, "reset")) { for (int i = 0; i < N; i++) drop(i); if (heap_live) el_bad++; tab_reset(); return; }
    int s = num() - 1;
    if (is(op, "new")) { void *p = malloc(sizeof(V)); start(); slot[s] = new (p) V(); stop(); return; }
    if (is(op, "cons")) { int t = num() - 1; slot[s] = dup(malloc(sizeof(V)), *slot[t]); return; }
    if (is(op, "del")) { drop(s); return; }
    V &v = *slot[s];
    if (is(op, "copy")) { int t = num() - 1; int how = num(); K::copy(v, *slot[t], how); }
    else if (is(op, "swap")) { int t = num() - 1; K::swap(v, *slot[t]); }
    else if (is(op, "cmp")) { int t = num() - 1; K::cmp(v, *slot[t]); }
    else if (is(op, "push")) K::push(v, num());
    else if (is(op, "app")) K::app(v, num());
    else if (is(op, "pop")) K::pop(v, num());
    else if (is(op, "cut")) K::cut(v, num());
    else if (is(op, "erase")) K::erase(v, num() - 1);
    else if (is(op, "clear")) K::clear(v);
    else if (is(op, "self")) K::self(v);
    else if (is(op, "obs")) K::obs(v, num());
    else bad_op(op);
  }
  int all() {
    while (next_line()) {
      const char *op = word();
      blocks = 0; long a0 = heap_asked;
      one(op);
      long w = blocks + (heap_asked - a0) / K::unit;
      out.s("{\"res\":[").i(w > 1000000000 ? 1000000000 : w).s(",").i(heap_held / K::unit).s("],\"st\":{\"n\":[");
      for (int i = 0; i < n; i++) { if (i) out.s(","); out.i(slot[i] ? K::size(*slot[i]) : -1); }
      out.s("],\"bad\":").i(el_bad + heap_bad).s("}}"); out.flush();
    }
    return 0;
  }
};
int main(int, char **argv) {
  int n = atoi(argv[2]);
  if (is(argv[1], "vec")) return Run<Vec<Ct> >(n).all();
  if (is(argv[1], "int")) return Run<Vec<int> >(n).all();
  if (is(argv[1], "val")) return Run<Val>(n).all();
  if (is(argv[1], "str")) return Run<Str>(n).all();
  if (is(argv[1], "ss")) return Run<Ss>(n).all();
  return 1;
}
