// Executes scripts of optional operations.  usage: opt <kind> <nslots>
#include "ob.h"
#include "nanoutility.h"
#include "nanostring.h"
#include "nanooptional.h"
using namespace vf;
using nonstd::nullopt;
STRING_VALUES
enum { N = 6 };
template <class T, class U> struct Emp { static T &go(nonstd::optional<T> &o, int x, int y) { return o.emplace(x + y); } };
template <int A, bool M, class U> struct Emp<Ob<A, M>, U> { static Ob<A, M> &go(nonstd::optional<Ob<A, M> > &o, int x, int y) { return o.emplace(x, y); } };
template <class U> struct Emp<nanostl::string, U> { static nanostl::string &go(nonstd::optional<nanostl::string> &o, int x, int y) { return o.emplace(V<nanostl::string>::mk(x + y).c_str()); } };
template <class U> struct CV { static U mk(int x) { return (U)x; } };
template <> struct CV<const char *> { static const char *mk(int x) { static char b[8][24]; static int k; k = (k + 1) % 8; snprintf(b[k], 24, "%+06d", x); return b[k]; } };

template <class O, class T> static void cmpval(const O &a, const T &t) { SIX(a, t); out.s(","); SIX(t, a); }
template <class O> static void cmpval(const O &, const nanostl::string &) { bad_op("cmpval"); }  // nanostl::string has no <= and >=
template <class T, class U> struct Run {
  typedef nanostl::optional<T> O;
  typedef nonstd::optional<U> OU;
  int n; O *slot[N];
  O &o(int i) { return *slot[i]; }
  void *mem() { void *p = malloc(sizeof(O)); memset(p, 0x5A, sizeof(O)); return p; }
  void drop(int i) { if (slot[i]) { slot[i]->~O(); free(slot[i]); slot[i] = 0; } }
  void state() {
    out.s("\"st\":{\"v\":[");
    for (int i = 0; i < n; i++) {
      if (i) out.s(",");
      if (!slot[i]) { out.s("[0,0,0,0]"); continue; }
      const O &c = o(i);
      bool h = c.has_value();
      out.s("[1,").i(h).s(",").i(c ? 1 : 0).s(",").i(h ? V<T>::of(*c) : 0).s("]");
      if (h) { const char *p = (const char *)&*c; if (p < (const char *)slot[i] || p + sizeof(T) > (const char *)(slot[i] + 1) || &*o(i) != &*c || o(i).operator->() != &*c || c.operator->() != &*c || (size_t)p % alignof(T)) el_bad++; }
    }
    out.s("],\"live\":").i(el_live).s(",\"bad\":").i(el_bad + heap_bad).s("}");
  }
  void one(const char *op) {
    if (is(op, "reset")) { for (int i = 0; i < N; i++) drop(i); if (heap_live || el_live) el_bad++; tab_reset(); }
    else if (is(op, "new")) { int s = num() - 1; num(); int how = num(); void *p = mem(); slot[s] = how ? new (p) O(nullopt) : new (p) O(); }
    else if (is(op, "newval")) { int th = num(), s = num() - 1, x = num(), how = num(); void *p = mem();
      try {
        if (how == 0) { const T t(V<T>::mk(x)); thr_in = th; slot[s] = new (p) O(t); }
        else if (how == 1) { T t(V<T>::mk(x)); slot[s] = new (p) O(nanostl::move(t)); }
        else if (how == 2) { U u = CV<U>::mk(x); thr_in = th; slot[s] = new (p) O(nonstd::in_place<T>, u); }
        else if (how == 3) { U u = CV<U>::mk(x); thr_in = th; slot[s] = new (p) O(u); }
        else { T t(V<T>::mk(x)); slot[s] = new (p) O(nonstd::make_optional(nanostl::move(t))); }
      } catch (Boom) { thr_in = 0; free(p); throw; } }
    else if (is(op, "newcopy")) { int th = num(), s = num() - 1, t = num() - 1; void *p = mem(); thr_in = th; try { slot[s] = new (p) O((const O &)o(t)); } catch (Boom) { free(p); throw; } }
    else if (is(op, "newmove")) { int s = num() - 1, t = num() - 1; void *p = mem(); slot[s] = new (p) O(nanostl::move(o(t))); }
    else if (is(op, "newconv")) { int th = num(), s = num() - 1, k = num(), x = num(), how = num(); void *p = mem(); OU u; if (k) u = OU(CV<U>::mk(x)); const OU &cu = u; thr_in = th;
      try { slot[s] = how ? new (p) O(nanostl::move(u)) : new (p) O(cu); } catch (Boom) { free(p); throw; } }
    else if (is(op, "null")) { int s = num() - 1; if (&(o(s) = nullopt) != slot[s]) el_bad++; }
    else if (is(op, "clear")) { int s = num() - 1; o(s).reset(); }
    else if (is(op, "setval")) { int th = num(), s = num() - 1, x = num(), how = num();
      if (how == 0) { const T t(V<T>::mk(x)); thr_in = th; if (&(o(s) = t) != slot[s]) el_bad++; }
      else if (how == 1) { T t(V<T>::mk(x)); o(s) = nanostl::move(t); }
      else { U u = CV<U>::mk(x); thr_in = th; o(s) = u; } }
    else if (is(op, "setcopy")) { int th = num(), s = num() - 1, t = num() - 1; thr_in = th; if (&(o(s) = (const O &)o(t)) != slot[s]) el_bad++; }
    else if (is(op, "setmove")) { int s = num() - 1, t = num() - 1; if (&(o(s) = nanostl::move(o(t))) != slot[s]) el_bad++; }
    else if (is(op, "setconv")) { int th = num(), s = num() - 1, k = num(), x = num(), how = num(); OU u; if (k) u = OU(CV<U>::mk(x)); const OU &cu = u; thr_in = th; if (how) o(s) = nanostl::move(u); else o(s) = cu; }
    else if (is(op, "emplace")) { int th = num(), s = num() - 1, x = num(), y = num(); thr_in = th; T &r = Emp<T, U>::go(o(s), x, y); out.i(V<T>::of(r)); }
    else if (is(op, "swap")) { int s = num() - 1, t = num() - 1, how = num(); if (how) swap(o(s), o(t)); else o(s).swap(o(t)); }
    else if (is(op, "write")) { int s = num() - 1, x = num(), how = num(); if (how) *o(s) = V<T>::mk(x); else o(s).value() = V<T>::mk(x); }
    else if (is(op, "del")) { int s = num() - 1; drop(s); }
    else if (is(op, "value")) { int s = num() - 1, how = num(); const O &c = o(s);
      try { int v = how == 0 ? V<T>::of(o(s).value()) : how == 1 ? V<T>::of(c.value()) : how == 2 ? V<T>::of(static_cast<T &&>(nanostl::move(o(s)).value())) : V<T>::of(static_cast<const T &&>(nanostl::move(c).value())); out.i(v); }
      catch (nonstd::bad_optional_access &) { out.i(THROWN); } }
    else if (is(op, "deref")) { int s = num() - 1, how = num(); const O &c = o(s);
      out.i(how == 0 ? V<T>::of(*o(s)) : how == 1 ? V<T>::of(*c) : how == 2 ? V<T>::of(static_cast<T &&>(*nanostl::move(o(s)))) : V<T>::of(static_cast<const T &&>(*nanostl::move(c)))); }
    else if (is(op, "valueor")) { int s = num() - 1, x = num(), how = num(); const O &c = o(s); if (how) { T t = nanostl::move(o(s)).value_or(V<T>::mk(x)); out.i(V<T>::of(t)); } else { const T a(V<T>::mk(x)); T t = c.value_or(a); out.i(V<T>::of(t)); } }
    else if (is(op, "cmp")) { int s = num() - 1, t = num() - 1; const O &a = o(s), &b = o(t); SIX(a, b); }
    else if (is(op, "cmpnull")) { int s = num() - 1; const O &a = o(s); SIX(a, nullopt); out.s(","); SIX(nullopt, a); }
    else if (is(op, "cmpval")) { int s = num() - 1, x = num(); const O &a = o(s); const T t(V<T>::mk(x)); cmpval(a, t); }
    else bad_op(op);
  }
  void loop() {
    for (int i = 0; i < N; i++) slot[i] = 0;
    while (next_line()) {
      const char *op = word();
      out.s("{\"res\":[");
      heap_on = true;
      try { one(op); } catch (Boom) { out.i(THROWN); }
      heap_on = false; thr_in = 0;
      out.s("],"); state(); out.s("}"); out.flush();
    }
  }
};
template <class T, class U> static int go(char **argv) { Run<T, U> r; r.n = atoi(argv[2]); r.loop(); return 0; }
int main(int, char **argv) {
  if (is(argv[1], "ob")) return go<Ob<0, true>, int>(argv);
  if (is(argv[1], "obt")) return go<Ob<0, false>, int>(argv);
  if (is(argv[1], "int")) return go<int, short>(argv);
  if (is(argv[1], "double")) return go<double, int>(argv);
  if (is(argv[1], "str")) return go<nanostl::string, const char *>(argv);
  return 77;
}
