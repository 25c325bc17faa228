// Executes scripts of vector / valarray operations.  -DVALARRAY selects valarray.
#include "vf.h"
#ifdef VALARRAY
#include "nanovalarray.h"
#define CONT nanostl::valarray
#else
#include "nanovector.h"
#define CONT nanostl::vector
#endif
using namespace vf;

template <class T> struct Mk { static T of(long x) { return T(x); } };

template <class V>
long disagreements(V &v) {
  const V &cv = v;
  long bad = 0;
  size_t n = v.size();
  if (cv.size() != n || v.capacity() < n) bad++;
  size_t k = 0;
  for (typename V::iterator it = v.begin(); it != v.end(); ++it, ++k)
    if (k >= n || val(*it) != val(v[k]) || &*it != &v[k]) { bad++; break; }
  if (k != n) bad++;
  typename V::const_iterator b = cv.begin(), e = cv.end();
  if ((size_t)(e - b) != n) bad++;
  for (size_t i = 0; i < n; i++) {
    if (val(cv[i]) != val(v[i])) bad++;
#ifndef VALARRAY
    if (val(v.at(i)) != val(v[i]) || val(cv.at(i)) != val(v[i])) bad++;
#endif
    if (val(v.data()[i]) != val(v[i])) bad++;
  }
  return bad;
}

template <class T>
struct Run {
  typedef CONT<T> V;
  enum { N = 4 };
  V *s[N];
  int n;
  Run(int nn) : n(nn) { for (int i = 0; i < N; i++) s[i] = 0; }
  void destroy_all() { for (int i = 0; i < N; i++) { drop(i); } }
  void drop(int i) { if (s[i]) { s[i]->~V(); free(s[i]); s[i] = 0; } }
  void *mem() { void *p = malloc(sizeof(V)); memset(p, 0x5A, sizeof(V)); return p; }
  void state() {
    bool any = false;
    out.s("\"st\":{\"v\":[");
    for (int i = 0; i < n; i++) {
      if (i) out.s(",");
      if (!s[i]) { out.s("{\"a\":0,\"c\":[],\"n\":0,\"e\":0,\"vw\":0}"); continue; }
      any = true;
      V &v = *s[i];
      out.s("{\"a\":1,\"c\":[");
      for (size_t k = 0; k < v.size() && k < 400000; k++) { if (k) out.s(","); out.i(val(v[k])); }
      out.s("],\"n\":").i(v.size()).s(",\"e\":").i(v.empty() ? 1 : 0).s(",\"vw\":").i(disagreements(v)).s("}");
    }
    long lk = any ? 0 : el_live + heap_live;
    out.s("],\"bad\":").i(el_bad + heap_bad).s(",\"lk\":").i(lk).s("}");
    if (!any && lk == 0) tab_reset();
  }
  void loop() {
    while (next_line()) {
      const char *op = word();
      out.s("{\"res\":[");
      heap_on = true;
      if (is(op, "reset")) destroy_all();
      else if (is(op, "new")) { int a = num() - 1; s[a] = new (mem()) V(); }
      else if (is(op, "newcopy")) { int a = num() - 1, b = num() - 1; s[a] = new (mem()) V(*s[b]); }
#ifdef VALARRAY
      else if (is(op, "sin")) {
        int a = num() - 1; size_t k = s[a]->size();
        nanostl::valarray<float> in(k); for (size_t i = 0; i < k; i++) in[i] = 0.37f * val((*s[a])[i]) - 1.5f;
        nanostl::valarray<float> keep(in);
        nanostl::valarray<float> r = sin(in);
        long mism = 0, ch = in.size() != k;
        for (size_t i = 0; i < r.size() && i < k; i++) { float w = nanostl::sin(keep[i]); if (memcmp(&w, &r[i], sizeof w)) mism++; }
        for (size_t i = 0; i < k; i++) if (in[i] != keep[i]) ch++;
        out.i(r.size()).s(",").i(mism).s(",").i(ch);
      }
      else if (is(op, "newsized")) { int a = num() - 1; unsigned long long k = unum(); s[a] = new (mem()) V(k); }
#else
      else if (is(op, "push")) { int a = num() - 1; T x = Mk<T>::of(num()); s[a]->push_back(x); }
      else if (is(op, "pushown")) { int a = num() - 1; int i = num(); s[a]->push_back((*s[a])[i]); }
      else if (is(op, "pop")) { int a = num() - 1; s[a]->pop_back(); }
#endif
      else if (is(op, "newtake")) { int a = num() - 1, b = num() - 1; s[a] = new (mem()) V(static_cast<V &&>(*s[b])); drop(b); }
      else if (is(op, "takeassign")) { int a = num() - 1, b = num() - 1; V *r = &(*s[a] = static_cast<V &&>(*s[b])); if (r != s[a]) el_bad++; drop(b); }
      else if (is(op, "del")) { int a = num() - 1; drop(a); }
      else if (is(op, "copyassign")) { int a = num() - 1, b = num() - 1; V *r = &(*s[a] = *s[b]); if (r != s[a]) el_bad++; }
      else if (is(op, "resize")) { int a = num() - 1; s[a]->resize(num()); }
      else if (is(op, "erase")) { int a = num() - 1; int i = num(); typename V::iterator it = s[a]->erase(s[a]->begin() + i); out.i(it - s[a]->begin()); }
      else if (is(op, "clear")) { int a = num() - 1; s[a]->clear(); }
      else if (is(op, "swap")) { int a = num() - 1, b = num() - 1; s[a]->swap(*s[b]); }
      else if (is(op, "write")) {
        int a = num() - 1; int i = num(); long x = num(); int how = num(); T y = Mk<T>::of(x);
        if (how == 0) (*s[a])[i] = y;
#ifndef VALARRAY
        else if (how == 1) s[a]->at(i) = y;
#endif
        else if (how == 2) *(s[a]->begin() + i) = y;
        else s[a]->data()[i] = y;
      }
      else if (is(op, "assign")) {
        int a = num() - 1; int k = num();
        T *q = (T *)malloc(sizeof(T) * (k + 1));
        for (int i = 0; i < k; i++) new (q + i) T(Mk<T>::of(num()));
        s[a]->assign(q, q + k);
        for (int i = 0; i < k; i++) q[i].~T();
        free(q);
      }
      else if (is(op, "assignfrom")) { int a = num() - 1, b = num() - 1; int i = num(), j = num(); s[a]->assign(s[b]->begin() + i, s[b]->begin() + j); }
      else if (is(op, "at")) {
        int a = num() - 1; int i = num(); const V &cv = *s[a];
#ifdef VALARRAY
        out.i(val(cv[i]));
#else
        out.i(val(cv.at(i)));
#endif
      }
      else bad_op(op);
      heap_on = false;
      out.s("],");
      state();
      out.s("}");
      out.flush();
    }
    destroy_all();
  }
};

int main(int argc, char **argv) {
  int n = atoi(argv[2]);
  if (is(argv[1], "int")) { Run<int> r(n); r.loop(); }
  else if (is(argv[1], "char")) { Run<signed char> r(n); r.loop(); }
  else if (is(argv[1], "double")) { Run<double> r(n); r.loop(); }
  else if (is(argv[1], "el")) { Run<El> r(n); r.loop(); }
  else return 77;
  return 0;
}
