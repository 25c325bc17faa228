// Executes scripts of operations on expected.  usage: exp <kind> <nslots>
#include <exception>
#include <system_error>
#include <type_traits>
#include "ob.h"
#include <setjmp.h>
// what the header expects to find declared
namespace nonstd { namespace expected_lite { template <class E> class unexpected_type; template <class T, class E> class expected; } }
namespace nanostl {
using std::exception_ptr; using std::rethrow_exception; using std::error_code; using std::system_error; using std::current_exception;
using std::make_exception_ptr; using std::is_base_of; using nonstd::expected_lite::unexpected_type; using nonstd::expected_lite::expected;
}
#include "nanoutility.h"
#include "nanofunctional.h"
#include "nanostring.h"
#include "nanoexpected.h"
using namespace vf;
STRING_VALUES
static jmp_buf refused; static bool expect_refusal;
extern "C" void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) noexcept {
  if (expect_refusal) longjmp(refused, 1);
  fprintf(stderr, "assert %s %s:%u %s\n", e, f, l, fn); abort();
}
enum { N = 6, REFUSED = -97 };
template <class T> struct Sel {  // the operations that need a value
  template <class E> static int content(nanostl::expected<T, E> &e) {
    const nanostl::expected<T, E> &c = e;
    if (&*c != &*e || &*c != c.operator->() || &*c != e.operator->() || &c.value() != &*c || &e.value() != &*c) el_bad++;
    const char *p = (const char *)&*c;
    if (p < (const char *)&e || p + sizeof(T) > (const char *)(&e + 1) || (size_t)p % alignof(T)) el_bad++;
    return V<T>::of(*c);
  }
  template <class X> static X *make(void *p, int x, int how, int th) {
    if (how == 1) { T t(V<T>::mk(x)); return new (p) X(nanostl::move(t)); }
    const T t(V<T>::mk(x)); thr_in = th;
    return how == 0 ? new (p) X(t) : new (p) X(nonstd::in_place<T>, t);
  }
  template <class X> static X &set(X &a, int x, int how, int th) {
    if (how == 1) { T t(V<T>::mk(x)); return a = nanostl::move(t); }
    const T t(V<T>::mk(x)); thr_in = th; return a = t;
  }
  // emplace only accepts arguments that cannot throw
  template <class X> static T &emp(X &a, T &t, std::true_type) { return a.emplace(nanostl::move(t)); }
  template <class X> static T &emp(X &a, T &t, std::false_type) { a = X(nonstd::in_place<T>, nanostl::move(t)); return *a; }
  template <class X> static int emplace(X &a, int x) { T t(V<T>::mk(x)); T &r = emp(a, t, std::is_nothrow_move_constructible<T>()); if (&r != &*a) el_bad++; return V<T>::of(r); }
  template <class X> static void write(X &a, int x) { a.value() = V<T>::mk(x); }
  template <class X> static int value(X &a, int how) {
    const X &c = a;
    return how == 0 ? V<T>::of(a.value()) : how == 1 ? V<T>::of(c.value()) : how == 2 ? V<T>::of(static_cast<T &&>(nanostl::move(a).value())) : V<T>::of(static_cast<const T &&>(nanostl::move(c).value()));
  }
  template <class X> static int deref(X &a, int how) {
    const X &c = a; const T *p;
    expect_refusal = true;
    if (setjmp(refused)) { expect_refusal = false; return REFUSED; }
    if (how == 0) p = &*a; else if (how == 1) p = &*c; else if (how == 2) p = a.operator->(); else p = c.operator->();
    expect_refusal = false;
    return V<T>::of(*p);
  }
  template <class X> static int valueor(X &a, int x, int how) {
    const X &c = a;
    if (how) { T t = nanostl::move(a).value_or(V<T>::mk(x)); return V<T>::of(t); }
    const T d(V<T>::mk(x)); T t = c.value_or(d); return V<T>::of(t);
  }
  template <class X> static void cmpval(const X &a, int x) { const T t(V<T>::mk(x)); out.i(a == t).s(",").i(a != t).s(",").i(t == a).s(",").i(t != a); }
  template <class U, class G, class X> static X *conv(void *p, int k, int x, int how) {
    typedef nanostl::expected<U, G> Y; Y y = k ? Y((U)x) : Y(nonstd::unexpect, (G)x); const Y &cy = y;
    return how ? new (p) X(nanostl::move(y)) : new (p) X(cy);
  }
};
template <> struct Sel<void> {
  template <class X> static int content(X &e) { e.value(); return 0; }
  template <class X> static X *make(void *p, int, int how, int) { return how == 2 ? new (p) X(nonstd::in_place<void>) : new (p) X(); }
  template <class X> static X &set(X &a, int, int how, int) { if (how) return a = X(); const X n; return a = n; }
  template <class X> static int emplace(X &a, int) { a.emplace(); return 0; }
  template <class X> static void write(X &, int) { bad_op("write"); }
  template <class X> static int value(X &a, int) { a.value(); return 0; }
  template <class X> static int deref(X &, int) { bad_op("deref"); return 0; }
  template <class X> static int valueor(X &, int, int) { bad_op("valueor"); return 0; }
  template <class X> static void cmpval(const X &, int) { bad_op("cmpval"); }
  template <class U, class G, class X> static X *conv(void *, int, int, int) { bad_op("newconv"); return 0; }
};
template <class T, class E, class U, class G> struct Run {
  typedef nanostl::expected<T, E> X;
  typedef nonstd::unexpected_type<E> Un;
  typedef Sel<T> S;
  int n; X *slot[N];
  X &o(int i) { return *slot[i]; }
  void *mem() { void *p = malloc(sizeof(X)); memset(p, 0x5A, sizeof(X)); return p; }
  void drop(int i) { if (slot[i]) { slot[i]->~X(); free(slot[i]); slot[i] = 0; } }
  static int err(X &e, int how) {
    const X &c = e; const E *p;
    expect_refusal = true;
    if (setjmp(refused)) { expect_refusal = false; return REFUSED; }
    if (how == 0) p = &e.error(); else if (how == 1) p = &c.error();
    else if (how == 2) { E &&r = nanostl::move(e).error(); p = &r; } else { const E &&r = nanostl::move(c).error(); p = &r; }
    expect_refusal = false;
    return V<E>::of(*p);
  }
  void state() {
    out.s("\"st\":{\"v\":[");
    for (int i = 0; i < n; i++) {
      if (i) out.s(",");
      if (!slot[i]) { out.s("[0,0,0,0]"); continue; }
      bool h = o(i).has_value();
      out.s("[1,").i(h).s(",").i(o(i) ? 1 : 0).s(",").i(h ? S::content(o(i)) : err(o(i), 1)).s("]");
    }
    out.s("],\"live\":").i(el_live).s(",\"bad\":").i(el_bad + heap_bad).s("}");
  }
  X *makeerr(void *p, int x, int how, int th) {
    if (how == 1) { Un u(V<E>::mk(x)); return new (p) X(nanostl::move(u)); }
    if (how == 0) { const Un u(V<E>::mk(x)); thr_in = th; return new (p) X(u); }
    const E e(V<E>::mk(x)); thr_in = th; return new (p) X(nonstd::unexpect, e);
  }
  void one(const char *op) {
    if (is(op, "reset")) { for (int i = 0; i < N; i++) drop(i); if (heap_live || el_live) el_bad++; tab_reset(); return; }
    int th = 0, s, t;
    if (is(op, "newval") || is(op, "newcopy") || is(op, "setval") || is(op, "setcopy")) th = num();
    s = num() - 1;
    if (is(op, "new")) slot[s] = new (mem()) X();
    else if (is(op, "newval")) { int k = num(), x = num(), how = num(); void *p = mem();
      try { slot[s] = k ? S::template make<X>(p, x, how, th) : makeerr(p, x, how, th); } catch (Boom) { free(p); throw; } }
    else if (is(op, "newcopy")) { t = num() - 1; void *p = mem(); thr_in = th; try { slot[s] = new (p) X((const X &)o(t)); } catch (Boom) { free(p); throw; } }
    else if (is(op, "newmove")) { t = num() - 1; slot[s] = new (mem()) X(nanostl::move(o(t))); }
    else if (is(op, "newconv")) { int k = num(), x = num(), how = num(); slot[s] = S::template conv<U, G, X>(mem(), k, x, how); }
    else if (is(op, "del")) drop(s);
    else if (is(op, "setval")) { int k = num(), x = num(), how = num();
      if (k) { if (&S::set(o(s), x, how, th) != slot[s]) el_bad++; }
      else if (how == 1) { Un u(V<E>::mk(x)); o(s) = nanostl::move(u); }
      else { const Un u(V<E>::mk(x)); thr_in = th; o(s) = u; } }
    else if (is(op, "setcopy")) { t = num() - 1; thr_in = th; if (&(o(s) = (const X &)o(t)) != slot[s]) el_bad++; }
    else if (is(op, "setmove")) { t = num() - 1; if (&(o(s) = nanostl::move(o(t))) != slot[s]) el_bad++; }
    else if (is(op, "emplace")) { int x = num(); out.i(S::emplace(o(s), x)); }
    else if (is(op, "swap")) { t = num() - 1; int how = num(); swp(s, t, how); }
    else if (is(op, "write")) { int k = num(), x = num(); if (k) S::write(o(s), x); else o(s).error() = V<E>::mk(x); }
    else if (is(op, "value")) { int how = num(); try { int v = S::value(o(s), how); out.i(v); } catch (nonstd::bad_expected_access<E> &e) { out.i(THROWN).s(",").i(V<E>::of(e.error())); } }
    else if (is(op, "deref")) { int how = num(); out.i(S::deref(o(s), how)); }
    else if (is(op, "error")) { int how = num(); out.i(err(o(s), how)); }
    else if (is(op, "unexp")) { const X &c = o(s); Un u = c.get_unexpected(); const Un &cu = u; if (V<E>::of(u.value()) != V<E>::of(cu.value())) el_bad++; out.i(V<E>::of(u.value())); }
    else if (is(op, "valueor")) { int x = num(), how = num(); out.i(S::valueor(o(s), x, how)); }
    else if (is(op, "cmp")) { t = num() - 1; const X &a = o(s), &b = o(t); out.i(a == b).s(",").i(ne(a, b)); }
    else if (is(op, "cmpval")) { int x = num(); S::cmpval(o(s), x); }
    else if (is(op, "cmperr")) { int x = num(); const X &a = o(s); const Un u(V<E>::mk(x)); ce(a, u); }
    else bad_op(op);
  }
  // != and the comparison with an unexpected value
  static bool ne(const X &a, const X &b) { return a != b; }
  static void ce(const X &a, const Un &u) { out.i(a == u).s(",").i(a != u).s(",").i(u == a).s(",").i(u != a); }
  void swp(int s, int t, int how) { if (how) nonstd::swap(o(s), o(t)); else o(s).swap(o(t)); }
  void loop() {
    for (int i = 0; i < N; i++) slot[i] = 0;
    while (next_line()) {
      const char *op = word();
      out.s("{\"res\":[");
      heap_on = true;
      try { one(op); } catch (Boom) { out.i(THROWN); }
      heap_on = false; thr_in = 0;
      out.s("],"); state(); out.s("}"); out.flush();
    }
  }
};
template <class T, class E, class U, class G> static int go(char **argv) { static Run<T, E, U, G> r; r.n = atoi(argv[2]); r.loop(); return 0; }
int main(int, char **argv) {
#if KIND == 0
  if (is(argv[1], "ob")) return go<Ob<0, true>, Ob<1, true>, int, short>(argv);
  if (is(argv[1], "obt")) return go<Ob<0, false>, Ob<1, false>, int, short>(argv);
  if (is(argv[1], "int")) return go<int, short, short, int>(argv);
  if (is(argv[1], "same")) return go<Ob<0, true>, Ob<0, true>, int, short>(argv);
#else
  if (is(argv[1], "void")) return go<void, Ob<1, true>, int, short>(argv);
  if (is(argv[1], "voidt")) return go<void, Ob<1, false>, int, short>(argv);
#endif
  return 77;
}
