// min, max, max_element, fill, distance, swap over an array with guard elements around it.
// usage: algo <kind> <n>
#ifdef PSTL
#define NANOSTL_PSTL
#include "nanoexecution.h"
#endif
#include "nanoalgorithm.h"
#include "nanoiterator.h"
#include "nanoutility.h"
#include "nanovector.h"
#include "vf.h"
using namespace vf;
// ordered by v / 10 and by operator< only
struct Pk {
  int v;
  Pk(int x = 0) : v(x) { el_add(this); }
  Pk(const Pk &o) : v(o.v) { el_use(&o); el_add(this); }
  Pk &operator=(const Pk &o) { el_use(this); el_use(&o); v = o.v; return *this; }
  ~Pk() { el_del(this); v = -7777; }
};
static bool operator<(const Pk &a, const Pk &b) { el_use(&a); el_use(&b); return a.v / 10 < b.v / 10; }
static int val(const Pk &p) { el_use(&p); return p.v; }
// forward iterator: only *, ++ and ==, !=
template <class T> struct Fwd {
  T *p;
  explicit Fwd(T *q) : p(q) {}
  T &operator*() const { return *p; }
  T *operator->() const { return p; }
  Fwd &operator++() { ++p; return *this; }
  Fwd operator++(int) { Fwd r(*this); ++p; return r; }
  bool operator==(const Fwd &o) const { return p == o.p; }
  bool operator!=(const Fwd &o) const { return p != o.p; }
};
// a random access iterator over the integers: no memory behind it
struct Count { typedef long long difference_type; typedef long long value_type; typedef const long long *pointer; typedef long long reference; typedef nanostl::random_access_iterator_tag iterator_category;
  long long n; long long operator-(const Count &o) const { return n - o.n; } };
struct Wide { char c[24]; };
template <class P> static long long apart(long long d, bool back) { P b = (P)(size_t)0x10000, e = b + d; return back ? nanostl::distance(e, b) : nanostl::distance(b, e); }
template <class T> struct Run {
  int n; long base; nanostl::vector<T> *v; T *a;      // a[-1] and a[n] are guards
  void fresh() { delete v; v = new nanostl::vector<T>(); for (int i = 0; i < n + 2; i++) v->push_back(T(0)); a = &(*v)[0] + 1; base = el_live; }
  int pos(const T *p) { return (int)(p - a) + 1; }
  long count(long k) { return k; }
  void one(const char *op) {
    if (is(op, "reset")) { fresh(); out.s("[]"); }
    else if (is(op, "min") || is(op, "max")) { int i = num() - 1, j = num() - 1; const T &r = is(op, "min") ? nanostl::min(a[i], a[j]) : nanostl::max(a[i], a[j]); out.s("[").i(pos(&r)).s("]"); }
    else if (is(op, "maxel")) { int i = num() - 1, j = num() - 1, how = num(), r;
      if (how == 0) r = pos(nanostl::max_element(a + i, a + j));
      else if (how == 1) r = (int)(nanostl::max_element(v->begin() + 1 + i, v->begin() + 1 + j) - v->begin());
      else if (how == 2) r = pos(nanostl::max_element(Fwd<T>(a + i), Fwd<T>(a + j)).p);
      else r = pos(nanostl::max_element((const T *)a + i, (const T *)a + j));
      out.s("[").i(r).s("]"); }
    else if (is(op, "fill") || is(op, "fillown")) { bool own = is(op, "fillown"); int i = num() - 1, j = num() - 1, k = num(); T *tmp = own ? 0 : new T(k); const T &x = own ? a[k - 1] : *tmp; int how = num();
      if (how == 0) nanostl::fill(a + i, a + j, x);
      else if (how == 1) nanostl::fill(v->begin() + 1 + i, v->begin() + 1 + j, x);
#ifdef PSTL
      else if (how == 4) nanostl::fill(nanostl::execution::par, a + i, a + j, x);
#endif
      else nanostl::fill(Fwd<T>(a + i), Fwd<T>(a + j), x);
      delete tmp; out.s("[]"); }
    else if (is(op, "dist")) { int i = num() - 1, j = num() - 1, how = num();
      long long r = how == 0 ? nanostl::distance(a + i, a + j) : how == 1 ? nanostl::distance(v->begin() + 1 + i, v->begin() + 1 + j) : nanostl::distance((const T *)a + i, (const T *)a + j);
      out.s("[").i(r).s("]"); }
    else if (is(op, "far")) { long long i = num(), j = num(), d = num(), how = num(), z = i << 30 | j, r;   // i * 2^30 + j elements apart; never dereferenced
      if (how == 0) r = apart<const char *>(z, d); else if (how == 1) r = apart<int *>(z, d); else if (how == 2) r = apart<Wide *>(z, d);
      else { Count b = {-7}, e = {z - 7}; r = d ? nanostl::distance(e, b) : nanostl::distance(b, e); }
      if (d) r = -r;
      out.s("[").i(r < 0 ? -1 : r >> 30).s(",").i(r < 0 ? -1 : r & ((1 << 30) - 1)).s("]"); }
    else if (is(op, "swap")) { int i = num() - 1, j = num() - 1; nanostl::swap(a[i], a[j]); out.s("[]"); }
    else if (is(op, "write")) { int i = num() - 1; a[i] = T(num()); out.s("[]"); }
    else bad_op(op);
  }
  void go() {
    v = 0; fresh();
    while (next_line()) {
      const char *op = word();
      out.s("{\"res\":");
      one(op);
      out.s(",\"st\":{\"v\":[");
      for (int i = 0; i < n; i++) { if (i) out.s(","); out.i(val(a[i])); }
      out.s("],\"guard\":[").i(val(a[-1])).s(",").i(val(a[n])).s("],\"live\":").i(el_live - base).s(",\"bad\":").i(el_bad).s("}}").flush();
    }
    delete v;
  }
};
int main(int, char **av) {
  int n = atoi(av[2]);
  if (is(av[1], "pk")) { Run<Pk> r; r.n = n; r.go(); }
  else if (is(av[1], "int")) { Run<int> r; r.n = n; r.go(); }
  else if (is(av[1], "schar")) { Run<signed char> r; r.n = n; r.go(); }
  else { Run<double> r; r.n = n; r.go(); }
  return 0;
}
