// Elements for optional, variant, any and expected: every object registers its address, copies and
// conversions can be told to throw, moves mark their source.
#ifndef OB_H
#define OB_H
#include "vf.h"
namespace vf {
struct Boom {};
static long thr_in = 0;
inline void thr() { if (thr_in > 0 && --thr_in == 0) throw Boom(); }
enum { MOVED = -1 };
template <int Tag, bool NM> struct Ob {
  int v;
  Ob() : v(0) { el_add(this, Tag); }
  Ob(int x) : v(x) { thr(); el_add(this, Tag); }
  Ob(int x, int y) : v(x + y) { thr(); el_add(this, Tag); }
  Ob(const Ob &o) : v(o.v) { el_use(&o, Tag); thr(); el_add(this, Tag); }
  Ob(Ob &&o) noexcept(NM) : v(o.v) { el_use(&o, Tag); o.v = MOVED; el_add(this, Tag); }
  Ob &operator=(const Ob &o) { el_use(this, Tag); el_use(&o, Tag); thr(); v = o.v; return *this; }
  Ob &operator=(Ob &&o) noexcept(NM) { el_use(this, Tag); el_use(&o, Tag); int x = o.v; o.v = MOVED; v = x; return *this; }
  ~Ob() { el_del(this, Tag); v = -77777; }
};
#define OBREL(op) template <int T, bool NM> inline bool operator op(const Ob<T, NM> &a, const Ob<T, NM> &b) { el_use(&a, T); el_use(&b, T); return a.v op b.v; }
OBREL(==) OBREL(!=) OBREL(<) OBREL(>) OBREL(<=) OBREL(>=)
#undef OBREL
template <class T> struct V { static T mk(int x) { return T(x); } static int of(const T &t) { return (int)t; } };
template <int A, bool NM> struct V<Ob<A, NM> > { static Ob<A, NM> mk(int x) { return Ob<A, NM>(x); } static int of(const Ob<A, NM> &t) { el_use(&t, A); return t.v; } };
inline void six(bool a, bool b, bool c, bool d, bool e, bool f) { out.i(a).s(",").i(b).s(",").i(c).s(",").i(d).s(",").i(e).s(",").i(f); }
#define SIX(x, y) vf::six((x) == (y), (x) != (y), (x) < (y), (x) > (y), (x) <= (y), (x) >= (y))
enum { THROWN = -99, NOTHING = -98 };
}  // namespace vf
// values of nanostl::string, when the harness includes it
#define STRING_VALUES namespace vf { template <> struct V<nanostl::string> { \
  static nanostl::string mk(int x) { char b[24]; snprintf(b, 24, "%+06d", x); return nanostl::string(b); } \
  static int of(const nanostl::string &s) { if (s.size() != 6) return -55555; return atoi(s.c_str()); } }; }
#endif
