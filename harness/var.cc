// Executes scripts of variant operations.  usage: var <kind> <nslots>
// kinds: ob/obt (16 instrumented alternatives), mix (scalars, string, over-aligned, large, instrumented),
// three (3 alternatives)
#include "ob.h"
#include <setjmp.h>
namespace nanostl { inline void terminate() noexcept { abort(); } }
#include "nanoutility.h"
#include "nanotype_traits.h"
#include "nanofunctional.h"
#include "nanoexception.h"
#include "nanoinitializer_list.h"
#include "nanostring.h"
#include "nanovariant.h"
using namespace vf;
STRING_VALUES
// a refused access is an assertion failure
static jmp_buf refused; static bool expect_refusal;
extern "C" void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) noexcept {
  if (expect_refusal) longjmp(refused, 1);
  fprintf(stderr, "assert %s %s:%u %s\n", e, f, l, fn); abort();
}
enum { N = 6, REFUSED = -97 };
struct alignas(64) Al { int v; char pad[3]; Al(int x = 0) : v(x) {} };
struct Big { int v; int fill[40]; Big(int x = 0) : v(x) { for (int i = 0; i < 40; i++) fill[i] = x + i; } };
#define REL(T, op) inline bool operator op(const T &a, const T &b) { return a.v op b.v; }
#define RELS(T) REL(T, ==) REL(T, <) REL(T, !=) REL(T, >) REL(T, <=) REL(T, >=)
RELS(Al) RELS(Big)
namespace vf {
template <> struct V<Al> { static Al mk(int x) { return Al(x); } static int of(const Al &a) { if ((size_t)&a % 64) el_bad++; return a.v; } };
template <> struct V<Big> { static Big mk(int x) { return Big(x); } static int of(const Big &a) { for (int i = 0; i < 40; i++) if (a.fill[i] != a.v + i) return -44444; return a.v; } };
template <> struct V<const char *> { static const char *mk(int x) { static char pool[128]; return pool + x; } static int of(const char *const &p) { return (int)(p - mk(0)); } };
template <> struct V<nonstd::monostate> { static nonstd::monostate mk(int) { return nonstd::monostate(); } static int of(const nonstd::monostate &) { return 0; } };
template <class T> struct Cnt { enum { c = 0 }; };
template <int A, bool M> struct Cnt<Ob<A, M> > { enum { c = 1 }; };
}
template <class Va, int K, class... Ts> struct Alts;
template <class T> struct Tag { typedef T type; };
template <class Va, int K> struct Alts<Va, K> {
  template <class F> static bool with(int, F &) { return false; }
  static void probe(const Va &, int &, int &, int &) {}
};
template <class Va, int K, class T, class... Ts> struct Alts<Va, K, T, Ts...> {
  typedef Alts<Va, K + 1, Ts...> Next;
  template <class F> static bool with(int k, F &f) { if (k == K + 1) { f.template go<K, T>(); return true; } return Next::with(k, f); }
  // how many ways say yes to this alternative: 0 or all of them
  static void probe(const Va &c, int &yes, int &which, int &val) {
    Va &v = const_cast<Va &>(c);
    const T *p[4] = {nonstd::get_if<K>(&c), nonstd::get_if<T>(&c), nonstd::get_if<K>(&v), nonstd::get_if<T>(&v)};
    bool h = nonstd::holds_alternative<T>(c);
    if (p[0] != p[1] || p[0] != p[2] || p[0] != p[3] || h != (p[0] != 0)) el_bad++;
    if (Va::template index_of<T>() != (nanostl::size_t)K) el_bad++;
    if (!nanostl::is_same<typename nonstd::variant_alternative<(nanostl::size_t)K, Va>::type, T>::value || !nanostl::is_same<nonstd::variant_alternative_t<(nanostl::size_t)K, Va>, T>::value) el_bad++;
    if (p[0]) { yes++; which = K + 1; val = V<T>::of(*p[0]);
      if ((const char *)p[0] < (const char *)&c || (const char *)(p[0] + 1) > (const char *)(&c + 1) || (size_t)p[0] % alignof(T)) el_bad++; }
    Next::probe(c, yes, which, val);
  }
};
template <class Va, class... Ts> struct Run {
  typedef Alts<Va, 0, Ts...> A;
  int n; Va *slot[N];
  Va &o(int i) { return *slot[i]; }
  void *mem() { void *p = aligned_alloc(64, (sizeof(Va) + 63) / 64 * 64); memset(p, 0x5A, sizeof(Va)); return p; }
  void drop(int i) { if (slot[i]) { slot[i]->~Va(); free(slot[i]); slot[i] = 0; } }
  void state() {
    out.s("\"st\":{\"v\":[");
    for (int i = 0; i < n; i++) {
      if (i) out.s(",");
      if (!slot[i]) { out.s("[0,0,0,0,0]"); continue; }
      const Va &c = o(i);
      int yes = 0, which = 0, val = 0;
      A::probe(c, yes, which, val);
      if (nonstd::variant_size<Va>::value != (nanostl::size_t)sizeof...(Ts)) el_bad++;
      long idx = c.index() == nonstd::variant_npos ? 0 : (long)c.index() + 1;
      if (idx != which) el_bad++;
      out.s("[1,").i(idx).s(",").i(val).s(",").i(c.valueless_by_exception()).s(",").i(yes).s("]");
    }
    out.s("],\"live\":").i(el_live).s(",\"bad\":").i(el_bad + heap_bad).s("}");
  }
  struct NewVal { Run &r; int s, x, how, th;
    template <int K, class T> void go() {
      void *p = r.mem();
      try {
        if (how == 0) { const T t(V<T>::mk(x)); thr_in = th; r.slot[s] = new (p) Va(t); }
        else if (how == 1) { T t(V<T>::mk(x)); r.slot[s] = new (p) Va(nanostl::move(t)); }
        else if (how == 2) { const T t(V<T>::mk(x)); thr_in = th; r.slot[s] = new (p) Va(nonstd::in_place_type<T>, t); }
        else { const T t(V<T>::mk(x)); thr_in = th; r.slot[s] = new (p) Va(nonstd::in_place_index<(nanostl::size_t)K>, t); }
      } catch (Boom) { free(p); throw; } } };
  struct SetVal { Run &r; int s, x, how, th;
    template <int K, class T> void go() {
      if (how == 0) { const T t(V<T>::mk(x)); thr_in = th; if (&(r.o(s) = t) != r.slot[s]) el_bad++; }
      else { T t(V<T>::mk(x)); if (&(r.o(s) = nanostl::move(t)) != r.slot[s]) el_bad++; } } };
  struct Emplace { Run &r; int s, x, how, th;
    template <int K, class T> void go() {
      const T t(V<T>::mk(x)); thr_in = th;
      T &e = how ? r.o(s).template emplace<(nanostl::size_t)K>(t) : r.o(s).template emplace<T>(t);
      out.i(V<T>::of(e)); } };
  struct Write { Run &r; int s, x;
    template <int K, class T> void go() { nonstd::get<K>(r.o(s)) = V<T>::mk(x); } };
  struct Get { Run &r; int s;
    template <int K, class T> int way(int w) {
      Va &v = r.o(s); const Va &c = v;
      expect_refusal = true;
      if (setjmp(refused)) { expect_refusal = false; return REFUSED; }
      const T *p = 0;
      switch (w) {
        case 0: p = &nonstd::get<K>(v); break;
        case 1: p = &nonstd::get<K>(c); break;
        case 2: p = &nonstd::get<T>(v); break;
        case 3: p = &nonstd::get<T>(c); break;
        case 4: { T &&x = nonstd::get<K>(nanostl::move(v)); p = &x; break; }
        case 5: { const T &&x = nonstd::get<K>(nanostl::move(c)); p = &x; break; }
        case 6: { T &&x = nonstd::get<T>(nanostl::move(v)); p = &x; break; }
        case 7: { const T &&x = nonstd::get<T>(nanostl::move(c)); p = &x; break; }
        case 8: p = &v.template get<T>(); break;
        case 9: p = &c.template get<T>(); break;
        case 10: p = &v.template get<K>(); break;
        default: p = &c.template get<K>(); break;
      }
      expect_refusal = false;
      return V<T>::of(*p);
    }
    template <int K, class T> void go() {
      int a = way<K, T>(0);
      for (int w = 1; w < 12; w++) if (way<K, T>(w) != a) el_bad++;
      out.i(a); } };
  template <class T> struct IdxOf { enum { k = Va::template index_of<T>() }; };
  struct V1 { template <class T> long operator()(const T &t) const { return ((long)Va::template index_of<T>() + 1) * 1000 + V<T>::of(t); } };
  struct V2 { template <class T, class U> long operator()(const T &t, const U &u) const { return (((long)Va::template index_of<T>() + 1) * 1000 + V<T>::of(t)) * 1000000 + ((long)Va::template index_of<U>() + 1) * 1000 + V<U>::of(u); } };
  static void pr(long w) { long i = (w + 500) / 1000; out.i(i).s(",").i(w - i * 1000); }
  void one(const char *op) {
    if (is(op, "reset")) { for (int i = 0; i < N; i++) drop(i); if (heap_live || el_live) el_bad++; tab_reset(); return; }
    int th = 0, s, t;
    bool hth = is(op, "newval") || is(op, "newcopy") || is(op, "setval") || is(op, "setcopy") || is(op, "emplace");
    if (hth) th = num();
    s = num() - 1;
    if (is(op, "new")) { void *p = mem(); slot[s] = new (p) Va(); }
    else if (is(op, "newval") || is(op, "setval") || is(op, "emplace")) { int k = num(), x = num(), how = num();
      if (op[0] == 'n') { NewVal f = {*this, s, x, how, th}; A::with(k, f); }
      else if (op[0] == 's') { SetVal f = {*this, s, x, how, th}; A::with(k, f); }
      else { Emplace f = {*this, s, x, how, th}; A::with(k, f); } }
    else if (is(op, "newcopy")) { t = num() - 1; void *p = mem(); thr_in = th; try { slot[s] = new (p) Va((const Va &)o(t)); } catch (Boom) { free(p); throw; } }
    else if (is(op, "newmove")) { t = num() - 1; void *p = mem(); slot[s] = new (p) Va(nanostl::move(o(t))); }
    else if (is(op, "del")) drop(s);
    else if (is(op, "setcopy")) { t = num() - 1; thr_in = th; if (&(o(s) = (const Va &)o(t)) != slot[s]) el_bad++; }
    else if (is(op, "setmove")) { t = num() - 1; if (&(o(s) = nanostl::move(o(t))) != slot[s]) el_bad++; }
    else if (is(op, "swap")) { t = num() - 1; int how = num(); if (how) swap(o(s), o(t)); else o(s).swap(o(t)); }
    else if (is(op, "write")) { int k = num(), x = num(); Write f = {*this, s, x}; A::with(k, f); }
    else if (is(op, "get")) { int k = num(); Get f = {*this, s}; A::with(k, f); }
    else if (is(op, "visit1")) { pr(nonstd::visit(V1(), o(s))); }
    else if (is(op, "visit2")) { t = num() - 1; long w = nonstd::visit(V2(), o(s), o(t)); long hi = (w + 500000) / 1000000; pr(hi); out.s(","); pr(w - hi * 1000000); }
    else if (is(op, "cmp")) { t = num() - 1; const Va &a = o(s), &b = o(t); SIX(a, b); }
    else bad_op(op);
  }
  void loop() {
    for (int i = 0; i < N; i++) slot[i] = 0;
    while (next_line()) {
      const char *op = word();
      out.s("{\"res\":[");
      heap_on = true;
      try { one(op); } catch (Boom) { out.i(THROWN); }
      heap_on = false; thr_in = 0;
      out.s("],"); state(); out.s("}"); out.flush();
    }
  }
};
template <class... Ts> static int go(char **argv) { static Run<nanostl::variant<Ts...>, Ts...> r; r.n = atoi(argv[2]); r.loop(); return 0; }
#define OB16(M) Ob<0, M>, Ob<1, M>, Ob<2, M>, Ob<3, M>, Ob<4, M>, Ob<5, M>, Ob<6, M>, Ob<7, M>, Ob<8, M>, Ob<9, M>, Ob<10, M>, Ob<11, M>, Ob<12, M>, Ob<13, M>, Ob<14, M>, Ob<15, M>
int main(int, char **argv) {
#if KIND == 0
  return go<OB16(true)>(argv);
#elif KIND == 1
  return go<OB16(false)>(argv);
#elif KIND == 2
  return go<int, nanostl::string, Big, Ob<0, false>, double, Al, unsigned char, float, Ob<1, true>, long, const char *>(argv);
#elif KIND == 4
  return go<nonstd::monostate, Ob<1, true>, int>(argv);
#else
  return go<Ob<0, true>, int, nanostl::string>(argv);
#endif
}
