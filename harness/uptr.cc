// Executes scripts of unique_ptr operations.  usage: uptr <kind> <nslots> <nderived>
#include "vf.h"
#include "nanoutility.h"
#include "nanomemory.h"
using namespace vf;

// deletion log of the current operation
static int dlog[256][2]; static int dn = 0;
static void logdel(int o, int d) { if (dn < 256) { dlog[dn][0] = o; dlog[dn][1] = d; dn++; } }
static const void *watch = 0;               // unique_ptr being reset, to see what it holds meanwhile
static const void *(*watch_get)(const void *) = 0;
static long seen_stale = 0;
static void saw(const void *p) { if (watch && watch_get(watch) == p) seen_stale++; }

// objects register themselves; objects of the default deleter log their own destruction
static bool self_log = true;
static long live = 0;
struct Base {
  El tag; int id;
  Base(int i) : tag(i), id(i) { live++; }
  virtual ~Base() { if (self_log) { saw(this); logdel(id, 0); } live--; }
  int val() const { el_use(&tag); return id; }
 private:
  Base(const Base &); Base &operator=(const Base &);
};
struct Derived : Base { El extra; Derived(int i) : Base(i), extra(i) {} };

// stateful deleters
struct Del { int d; Del() : d(0) {} explicit Del(int x) : d(x) {}
  void operator()(Base *p) const { saw(p); logdel(p->id, d); self_log = false; delete p; self_log = true; } };
// arrays: a block of 1..3 elements, all with the same id
struct ArrEl {
  El tag; int id; static int nextid; static int pending;
  ArrEl() : tag(nextid), id(nextid) { }
  ~ArrEl() { if (self_log) { saw(this); blk(id); } }
  static void blk(int id);   // default_delete<T[]>: a deletion is the destruction of all elements of one block
};
int ArrEl::nextid = 0; int ArrEl::pending = 0;
static int arrlen(int id) { return 1 + id % 3; }
void ArrEl::blk(int id) { if (pending == 0) { logdel(id, 0); } if (++pending == arrlen(id)) { pending = 0; live--; } }
struct ArrDel { int d; ArrDel() : d(0) {} explicit ArrDel(int x) : d(x) {}
  void operator()(ArrEl *p) const { saw(p); logdel(p->id, d); self_log = false; delete[] p; self_log = true; live--; } };
// comparison only: pointers into a fixed arena, ordered by number
static int arena[64];
struct NoDel { int d; NoDel() : d(0) {} explicit NoDel(int x) : d(x) {} void operator()(int *p) const { saw(p); logdel((int)(p - arena), d); live--; } };

static Base *mk(Base *, int o, bool) { return (o % 2 == 0) ? new Derived(o) : new Base(o); }
static Derived *mk(Derived *, int o, bool) { return new Derived(o); }
static ArrEl *mk(ArrEl *, int o, bool) { ArrEl::nextid = o; live++; return new ArrEl[arrlen(o)]; }
static int *mk(int *, int o, bool) { live++; return arena + o; }
static int idof(const Base *p) { return p->val(); }
static int idof(const ArrEl *p) { el_use(&p->tag); return p->id; }
static int idof(const int *p) { return (int)(p - arena); }
static void kill(Base *p) { self_log = false; delete p; self_log = true; }
static void kill(ArrEl *p) { self_log = false; delete[] p; self_log = true; live--; }
static void kill(int *) { live--; }

template <class U> struct Acc { // element access differs between single and array form
  static int look(U &u) { return &*u == u.get() && u.operator->() == u.get() ? idof(&*u) : -9; }
};
template <class D> struct Acc<nanostl::unique_ptr<ArrEl[], D> > {
  static int look(nanostl::unique_ptr<ArrEl[], D> &u) { int id = idof(&u[0]); for (int i = 0; i < arrlen(id); i++) if (&u[i] != u.get() + i || idof(&u[i]) != id) return -9; return id; }
};
template <class D> struct Acc<nanostl::unique_ptr<int[], D> > {
  static int look(nanostl::unique_ptr<int[], D> &u) { return &u[0] == u.get() && &u[1] == u.get() + 1 ? idof(&u[0]) : -9; }
};
static int did(const Del &d) { return d.d; }
static int did(const ArrDel &d) { return d.d; }
static int did(const NoDel &d) { return d.d; }
template <class T> static int did(const nanostl::default_delete<T> &) { return 0; }

template <class U, class E> static const void *getter(const void *u) { return ((const U *)u)->get(); }
template <class U, class E, class D> struct MakeD { static void at(void *m, E *p, int d) { new (m) U(p, D(d)); } static void lv(void *m, E *p, int d) { D x(d); new (m) U(p, x); } };
template <class U, class E, class T> struct MakeD<U, E, nanostl::default_delete<T> > { static void at(void *m, E *p, int) { new (m) U(p); } static void lv(void *m, E *p, int) { new (m) U(p); } };
static void six(bool a, bool b, bool c, bool d, bool e, bool f) { out.i(a).s(",").i(b).s(",").i(c).s(",").i(d).s(",").i(e).s(",").i(f); }

enum { N = 5 };
static void *slot[N];      // storage, null when not constructed
static void *raw[64];      // loose and owned raw pointers by object number

template <class U, class E, class U2, class E2>
struct Run {
  int n, nd;
  bool der(int i) { return i >= n - nd; }
  U &u(int i) { return *(U *)slot[i]; }
  U2 &v(int i) { return *(U2 *)slot[i]; }
  void *mem() { void *p = malloc(sizeof(U) + sizeof(U2)); memset(p, 0x5A, sizeof(U) + sizeof(U2)); return p; }
  void drop(int i) { if (!slot[i]) return; void *p = slot[i]; if (der(i)) ((U2 *)p)->~U2(); else ((U *)p)->~U(); slot[i] = 0; free(p); }
  // raw pointer to object o as seen by base variables
  E *get(int o, bool d) { if (!raw[o]) { if (d) raw[o] = (E *)mk((E2 *)0, o, true); else raw[o] = mk((E *)0, o, false); } return (E *)raw[o]; }
  void watch_on(int i) { watch = slot[i]; watch_get = der(i) ? getter<U2, E2> : getter<U, E>; }
  void forget() { for (int i = 0; i < dn; i++) raw[dlog[i][0]] = 0; }
  void relations(int a, int b);
  void relnull(int a);
  void state() {
    out.s("\"st\":{\"v\":[");
    for (int i = 0; i < n; i++) {
      if (i) out.s(",");
      if (!slot[i]) { out.s("[0,0,0,0]"); continue; }
      int o = 0, b, d;
      if (der(i)) { const U2 &c = v(i); if (c.get()) o = Acc<U2>::look(v(i)); b = c ? 1 : 0; d = did(c.get_deleter()); if (did(v(i).get_deleter()) != d) b = -1; }
      else { const U &c = u(i); if (c.get()) o = Acc<U>::look(u(i)); b = c ? 1 : 0; d = did(c.get_deleter()); if (did(u(i).get_deleter()) != d) b = -1; }
      out.s("[1,").i(o).s(",").i(b).s(",").i(d).s("]");
    }
    out.s("],\"live\":").i(live).s(",\"bad\":").i(el_bad + heap_bad + seen_stale).s("}");
  }
  void loop() {
    while (next_line()) {
      const char *op = word();
      dn = 0; ArrEl::pending = 0;
      int relfirst = -1; bool rel = false;
      out.s("{\"res\":[");
      heap_on = true;
      if (is(op, "reset")) {
        for (int i = 0; i < N; i++) drop(i);
        for (int o = 0; o < 64; o++) { bool dead = false; for (int i = 0; i < dn; i++) if (dlog[i][0] == o) dead = true; 
          if (raw[o] && !dead) kill((E *)raw[o]); raw[o] = 0; }
        dn = 0; ArrEl::pending = 0; live = 0;
        if (heap_live || el_live) el_bad++;
        tab_reset();
      }
      else if (is(op, "new")) { int a = num() - 1, how = num(); void *m = mem();
        if (der(a)) { if (how) new (m) U2(nullptr); else new (m) U2(); } else { if (how) new (m) U(nullptr); else new (m) U(); } slot[a] = m; }
      else if (is(op, "own")) { int a = num() - 1, o = num(), d = num(); void *m = mem();
        if (der(a)) MakeD<U2, E2, typename U2::deleter_type>::at(m, (E2 *)get(o, true), d);
        else if (o % 2) MakeD<U, E, typename U::deleter_type>::at(m, get(o, false), d);
        else MakeD<U, E, typename U::deleter_type>::lv(m, get(o, false), d);
        slot[a] = m; }
      else if (is(op, "movenew")) { int a = num() - 1, b = num() - 1; void *m = mem();
        if (der(a)) new (m) U2(nanostl::move(v(b))); else if (der(b)) new (m) U(nanostl::move(v(b))); else new (m) U(nanostl::move(u(b)));
        slot[a] = m; }
      else if (is(op, "moveassign")) { int a = num() - 1, b = num() - 1; watch_on(a); const void *q;
        if (der(a)) q = &(v(a) = nanostl::move(v(b))); else if (der(b)) q = &(u(a) = nanostl::move(v(b))); else q = &(u(a) = nanostl::move(u(b)));
        if (q != slot[a]) el_bad++; watch = 0; }
      else if (is(op, "null")) { int a = num() - 1; watch_on(a); if (der(a)) v(a) = nullptr; else u(a) = nullptr; watch = 0; }
      else if (is(op, "resetnull")) { int a = num() - 1, how = num(); watch_on(a); if (der(a)) { if (how) v(a).reset(nullptr); else v(a).reset(); } else { if (how) u(a).reset(nullptr); else u(a).reset(); } watch = 0; }
      else if (is(op, "resetto")) { int a = num() - 1, o = num(); watch_on(a); if (der(a)) v(a).reset((E2 *)get(o, true)); else u(a).reset(get(o, false)); watch = 0; }
      else if (is(op, "release")) { int a = num() - 1; E *p = der(a) ? (E *)v(a).release() : u(a).release(); rel = true; relfirst = p ? idof(p) : 0; }
      else if (is(op, "swap")) { int a = num() - 1, b = num() - 1, how = num();
        if (der(a)) { if (how) swap(v(a), v(b)); else v(a).swap(v(b)); } else { if (how) swap(u(a), u(b)); else u(a).swap(u(b)); } }
      else if (is(op, "del")) { int a = num() - 1; drop(a); }
      else if (is(op, "delloose")) { int o = num(); kill((E *)raw[o]); raw[o] = 0; dn = 0; }
      else if (is(op, "cmp")) { int a = num() - 1, b = num() - 1; relations(a, b); }
      else if (is(op, "cmpnull")) { int a = num() - 1; relnull(a); }
      else bad_op(op);
      if (ArrEl::pending) el_bad++;
      heap_on = false;
      if (rel) out.s("[").i(relfirst).s("]");
      else for (int i = 0; i < dn; i++) { if (i) out.s(","); out.s("[").i(dlog[i][0]).s(",").i(dlog[i][1]).s("]"); }
      forget();
      out.s("],");
      state();
      out.s("}");
      out.flush();
    }
  }
};
template <class U, class E, class U2, class E2> void Run<U, E, U2, E2>::relations(int a, int b) {
#define R6(x, y) six(x == y, x != y, x < y, x > y, x <= y, x >= y)
  const U *ua = (const U *)slot[a]; const U *ub = (const U *)slot[b]; const U2 *va = (const U2 *)slot[a]; const U2 *vb = (const U2 *)slot[b];
  if (!der(a) && !der(b)) R6(*ua, *ub); else if (der(a) && der(b)) R6(*va, *vb); else if (der(a)) R6(*va, *ub); else R6(*ua, *vb);
}
template <class U, class E, class U2, class E2> void Run<U, E, U2, E2>::relnull(int a) {
  const U *ua = (const U *)slot[a]; const U2 *va = (const U2 *)slot[a];
  if (der(a)) { R6(*va, nullptr); out.s(","); R6(nullptr, *va); } else { R6(*ua, nullptr); out.s(","); R6(nullptr, *ua); }
}

int main(int argc, char **argv) {
  using nanostl::unique_ptr;
#define GO(U, E, U2, E2) { Run<U, E, U2, E2> r; r.n = atoi(argv[2]); r.nd = atoi(argv[3]); r.loop(); }
  if (is(argv[1], "default")) GO(unique_ptr<Base>, Base, unique_ptr<Derived>, Derived)
  else if (is(argv[1], "stateful")) { typedef unique_ptr<Base, Del> U; typedef unique_ptr<Derived, Del> U2; GO(U, Base, U2, Derived) }
  else if (is(argv[1], "array")) { typedef unique_ptr<ArrEl[], ArrDel> U; GO(U, ArrEl, U, ArrEl) }
  else if (is(argv[1], "defarr")) { typedef unique_ptr<ArrEl[]> U; GO(U, ArrEl, U, ArrEl) }
  else if (is(argv[1], "arena")) { typedef unique_ptr<int, NoDel> U; GO(U, int, U, int) }
  else if (is(argv[1], "arenaarr")) { typedef unique_ptr<int[], NoDel> U; GO(U, int, U, int) }
  else return 77;
  return 0;
}
