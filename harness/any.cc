// Executes scripts of operations on any.  usage: any <nslots>
#include <typeinfo>
#define NANOSTL_TYPEINFO_H  // typeid only works with the type_info of the compiler
namespace nanostl { using std::type_info; using std::bad_cast; }
#include "ob.h"
#include "nanoutility.h"
#include "nanotype_traits.h"
#include "nanoinitializer_list.h"
#include "nanostring.h"
#include "nanoany.h"
using namespace vf;
STRING_VALUES
typedef nanostl::any An;
enum { N = 6, BADCAST = -97 };
struct Big { int v; int fill[40]; Big(int x = 0) : v(x) { for (int i = 0; i < 40; i++) fill[i] = x + i; } };
enum Color : int { red };
// a type of this file only; any2.cc has a different one of the same name (type number 12 here)
namespace { struct Twin { int v; short more[3]; }; }
struct Foreign {};
void *foreign_new(void *p, int x, int how);
void foreign_set(An &a, int x, int how);
void foreign_emplace(An &a, int x);
void foreign_write(An &a, int x, int how);
int foreign_cast(An &a, int w);
bool foreign_is(const An &a);
const void *foreign_ptr(An &a, bool constant);
int foreign_of(const void *p);
namespace vf {
template <> struct V<Big> { static Big mk(int x) { return Big(x); } static int of(const Big &a) { for (int i = 0; i < 40; i++) if (a.fill[i] != a.v + i) return -44444; return a.v; } };
template <> struct V<const char *> { static const char *mk(int x) { static char pool[128]; return pool + x; } static int of(const char *const &p) { return (int)(p - mk(0)); } };
template <> struct V<Twin> { static Twin mk(int x) { Twin t = {x, {(short)x, (short)-x, 3}}; return t; } static int of(const Twin &t) { return t.more[0] == (short)t.v && t.more[1] == (short)-t.v && t.more[2] == 3 ? t.v : -44444; } };
template <> struct V<Foreign> { static int of(const Foreign &f) { return foreign_of(&f); } };
template <> struct V<Color> { static Color mk(int x) { return (Color)x; } static int of(Color c) { return (int)c; } };
}
template <class T> bool is_type(const An &a) { return a.type() == typeid(T); }
template <class T> const T *get(const An &a) { return nonstd::any_cast<T>(&a); }
template <class T> T *get(An &a) { return nonstd::any_cast<T>(&a); }
template <> bool is_type<Foreign>(const An &a) { return foreign_is(a); }
template <> const Foreign *get<Foreign>(const An &a) { return (const Foreign *)foreign_ptr(const_cast<An &>(a), true); }
template <> Foreign *get<Foreign>(An &a) { return (Foreign *)foreign_ptr(a, false); }
template <int K, class... Ts> struct Alts;
template <int K> struct Alts<K> {
  template <class F> static bool with(int, F &) { return false; }
  static void probe(An &, int &, int &, int &) {}
};
template <int K, class T, class... Ts> struct Alts<K, T, Ts...> {
  typedef Alts<K + 1, Ts...> Next;
  template <class F> static bool with(int k, F &f) { if (k == K) { f.template go<T>(); return true; } return Next::with(k, f); }
  static void probe(An &a, int &ty, int &yes, int &val) {
    const An &c = a;
    if (is_type<T>(c)) ty = ty ? -1 : K;
    const T *p = get<T>(c); T *q = get<T>(a);
    if (p != q) el_bad++;
    if (p) { yes++; val = V<T>::of(*p); if ((size_t)p % alignof(T)) el_bad++; }
    Next::probe(a, ty, yes, val);
  }
};
typedef Alts<1, int, Ob<0, true>, Ob<1, false>, nanostl::string, double, const char *, Big, unsigned, Color, char, Twin, Foreign> A;
static int n; static An *slot[N];
static An &o(int i) { return *slot[i]; }
static void *mem() { void *p = malloc(sizeof(An)); memset(p, 0x5A, sizeof(An)); return p; }
static void drop(int i) { if (slot[i]) { slot[i]->~An(); free(slot[i]); slot[i] = 0; } }
static void state() {
  out.s("\"st\":{\"v\":[");
  for (int i = 0; i < n; i++) {
    if (i) out.s(",");
    if (!slot[i]) { out.s("[0,0,0,0,0]"); continue; }
    int ty = 0, yes = 0, val = 0;
    A::probe(o(i), ty, yes, val);
    if (!ty && !(o(i).type() == typeid(void))) ty = -2;
    out.s("[1,").i(o(i).has_value()).s(",").i(ty).s(",").i(yes).s(",").i(val).s("]");
  }
  out.s("],\"live\":").i(el_live).s(",\"bad\":").i(el_bad + heap_bad).s("}");
}
struct NewVal { int s, x, how, th;
  template <class T> void go() {
    void *p = mem();
    try {
      if (how == 1) { T t(V<T>::mk(x)); slot[s] = new (p) An(nanostl::move(t)); }
      else { const T t(V<T>::mk(x)); thr_in = th;
        if (how == 0) slot[s] = new (p) An(t);
        else if (how == 2) slot[s] = new (p) An(nonstd::in_place_type<T>, t);
        else slot[s] = new (p) An(nonstd::make_any<T>(t)); }
    } catch (Boom) { free(p); throw; } } };
struct SetVal { int s, x, how, th;
  template <class T> void go() {
    if (how == 0) { const T t(V<T>::mk(x)); thr_in = th; if (&(o(s) = t) != slot[s]) el_bad++; }
    else { T t(V<T>::mk(x)); if (&(o(s) = nanostl::move(t)) != slot[s]) el_bad++; } } };
struct Emplace { int s, x, th;
  template <class T> void go() { const T t(V<T>::mk(x)); thr_in = th; o(s).template emplace<T>(t); } };
struct Write { int s, x, how;
  template <class T> void go() { if (how) nonstd::any_cast<T &>(o(s)) = V<T>::mk(x); else *nonstd::any_cast<T>(&o(s)) = V<T>::mk(x); } };
struct Cast { int s;
  template <class T> int way(int w) {
    An &a = o(s); const An &c = a;
    try {
      switch (w) {
        case 0: { T t = nonstd::any_cast<T>(a); return V<T>::of(t); }
        case 1: { T t = nonstd::any_cast<T>(c); return V<T>::of(t); }
        case 2: return V<T>::of(nonstd::any_cast<T &>(a));
        case 3: return V<T>::of(nonstd::any_cast<const T &>(a));
        case 4: return V<T>::of(nonstd::any_cast<const T &>(c));
        case 5: { const T t = nonstd::any_cast<const T>(c); return V<T>::of(t); }
        // a cast of an rvalue may move the value out: done on a copy
        default: { An b(c); T t = nonstd::any_cast<T>(nanostl::move(b)); return V<T>::of(t); }
      }
    } catch (nonstd::bad_any_cast &) { return BADCAST; }
  }
  template <class T> void go() { int a = way<T>(0); for (int w = 1; w < 7; w++) if (way<T>(w) != a) el_bad++; out.i(a); } };
template <> void NewVal::go<Foreign>() { void *p = mem(); slot[s] = (An *)foreign_new(p, x, how); }
template <> void SetVal::go<Foreign>() { foreign_set(o(s), x, how); }
template <> void Emplace::go<Foreign>() { foreign_emplace(o(s), x); }
template <> void Write::go<Foreign>() { foreign_write(o(s), x, how); }
template <> int Cast::way<Foreign>(int w) { try { return foreign_cast(o(s), w); } catch (nonstd::bad_any_cast &) { return BADCAST; } }
static void one(const char *op) {
  if (is(op, "reset")) { for (int i = 0; i < N; i++) drop(i); if (heap_live || el_live) el_bad++; tab_reset(); return; }
  int th = 0, s, t;
  if (is(op, "newval") || is(op, "newcopy") || is(op, "setval") || is(op, "setcopy") || is(op, "emplace")) th = num();
  s = num() - 1;
  if (is(op, "new")) { void *p = mem(); slot[s] = new (p) An(); }
  else if (is(op, "newval")) { int k = num(), x = num(), how = num(); NewVal f = {s, x, how, th}; A::with(k, f); }
  else if (is(op, "setval")) { int k = num(), x = num(), how = num(); SetVal f = {s, x, how, th}; A::with(k, f); }
  else if (is(op, "emplace")) { int k = num(), x = num(); Emplace f = {s, x, th}; A::with(k, f); }
  else if (is(op, "newcopy")) { t = num() - 1; void *p = mem(); thr_in = th; try { slot[s] = new (p) An((const An &)o(t)); } catch (Boom) { free(p); throw; } }
  else if (is(op, "newmove")) { t = num() - 1; void *p = mem(); slot[s] = new (p) An(nanostl::move(o(t))); }
  else if (is(op, "del")) drop(s);
  else if (is(op, "clear")) o(s).reset();
  else if (is(op, "setcopy")) { t = num() - 1; thr_in = th; if (&(o(s) = (const An &)o(t)) != slot[s]) el_bad++; }
  else if (is(op, "setmove")) { t = num() - 1; if (&(o(s) = nanostl::move(o(t))) != slot[s]) el_bad++; }
  else if (is(op, "swap")) { t = num() - 1; int how = num(); if (how) swap(o(s), o(t)); else o(s).swap(o(t)); }
  else if (is(op, "write")) { int k = num(), x = num(), how = num(); Write f = {s, x, how}; A::with(k, f); }
  else if (is(op, "cast")) { int k = num(); Cast f = {s}; A::with(k, f); }
  else bad_op(op);
}
int main(int, char **argv) {
  n = atoi(argv[1]);
  while (next_line()) {
    const char *op = word();
    out.s("{\"res\":[");
    heap_on = true;
    try { one(op); } catch (Boom) { out.i(THROWN); }
    heap_on = false; thr_in = 0;
    out.s("],"); state(); out.s("}"); out.flush();
  }
}
