// Executes scripts of pair and tuple operations.  usage: tup <kind> <nslots>
#include "ob.h"
#include "nanoutility.h"
#include "nanostring.h"
#include "nanotuple.h"
using namespace vf;
STRING_VALUES
enum { N = 6 };
template <int A> struct Emp {};  // no data
template <int A> inline bool operator==(const Emp<A> &, const Emp<A> &) { return true; }
template <int A> inline bool operator<(const Emp<A> &, const Emp<A> &) { return false; }
namespace vf { template <int A> struct V<Emp<A> > { static Emp<A> mk(int) { return Emp<A>(); } static int of(const Emp<A> &) { return 0; } }; }
// a weak order that is coarser than equality
template <int A> struct Wk { int v; Wk() : v(0) {} Wk(int x) : v(x) {} };
template <int A> inline bool operator==(const Wk<A> &a, const Wk<A> &b) { return a.v == b.v; }
template <int A> inline bool operator<(const Wk<A> &a, const Wk<A> &b) { return a.v / 3 < b.v / 3; }
namespace vf { template <int A> struct V<Wk<A> > { static Wk<A> mk(int x) { return Wk<A>(x); } static int of(const Wk<A> &w) { return w.v; } }; }
// the component type a converting construction starts from
template <class T> struct Src { typedef int type; static int mk(int x) { return x; } };
template <int A> struct Src<Emp<A> > { typedef Emp<A> type; static Emp<A> mk(int) { return Emp<A>(); } };
template <> struct Src<nanostl::string> { typedef const char *type; static const char *mk(int x) { static char b[64][24]; static int k; k = (k + 1) % 64; snprintf(b[k], 24, "%+06d", x); return b[k]; } };
template <> struct Src<double> { typedef float type; static float mk(int x) { return (float)x; } };
// the component type of the other operand of mixed comparisons
template <class T> struct Oth { typedef T type; };
template <> struct Oth<int> { typedef long type; };
template <> struct Oth<double> { typedef int type; };
template <> struct Oth<short> { typedef double type; };
struct Thr { Thr() {} Thr(const Thr &) {} Thr(Thr &&) noexcept(false) {} };
struct OnlyMove { OnlyMove() {} OnlyMove(OnlyMove &&) noexcept(false) {} private: OnlyMove(const OnlyMove &); };
struct Nice { Nice() {} Nice(const Nice &) {} Nice(Nice &&) noexcept {} };
struct Loc { int v; };
template <class X> static void catg(X &, const Loc *at) { }
struct Cat {  // overload resolution tells the value category and constness
  static void go(Loc &r, const Loc *at) { out.i(&r == at).s(",1,0"); }
  static void go(const Loc &r, const Loc *at) { out.i(&r == at).s(",1,1"); }
  static void go(Loc &&r, const Loc *at) { out.i(&r == at).s(",0,0"); }
  static void go(const Loc &&r, const Loc *at) { out.i(&r == at).s(",0,1"); }
};
template <class T> struct CatT {
  static void go(T &r, const T *at) { out.i(&r == at).s(",1,0"); }
  static void go(const T &r, const T *at) { out.i(&r == at).s(",1,1"); }
  static void go(T &&r, const T *at) { out.i(&r == at).s(",0,0"); }
  static void go(const T &&r, const T *at) { out.i(&r == at).s(",0,1"); }
};
static bool common(const char *op) {
  if (is(op, "fwd")) { int k = num(), how = num(); Loc l; const Loc c = {0};
    if (!how) switch (k) {
      case 0: Cat::go(nanostl::forward<Loc>(l), &l); break;
      case 1: Cat::go(nanostl::forward<Loc &>(l), &l); break;
      case 2: Cat::go(nanostl::forward<Loc &&>(l), &l); break;
      case 3: Cat::go(nanostl::forward<const Loc>(c), &c); break;
      default: Cat::go(nanostl::forward<const Loc &>(c), &c);
    } else switch (k) {
      case 0: Cat::go(nanostl::forward<Loc>(static_cast<Loc &&>(l)), &l); break;
      case 2: Cat::go(nanostl::forward<Loc &&>(static_cast<Loc &&>(l)), &l); break;
      default: Cat::go(nanostl::forward<const Loc>(static_cast<const Loc &&>(c)), &c);
    }
    return true; }
  if (is(op, "mov")) { int k = num(), how = num(); Loc l; const Loc c = {0};
    if (k == 0) { if (how) Cat::go(nanostl::move(static_cast<Loc &&>(l)), &l); else Cat::go(nanostl::move(l), &l); }
    else { if (how) Cat::go(nanostl::move(static_cast<const Loc &&>(c)), &c); else Cat::go(nanostl::move(c), &c); }
    return true; }
  if (is(op, "movnx")) { int k = num(); Nice n; Thr t; OnlyMove o;
    if (k == 0) CatT<Nice>::go(nanostl::move_if_noexcept(n), &n); else if (k == 1) CatT<Thr>::go(nanostl::move_if_noexcept(t), &t); else CatT<OnlyMove>::go(nanostl::move_if_noexcept(o), &o);
    return true; }
  return false;
}
static int Q[16];
static void quote() { int n = num(); for (int i = 0; i < n; i++) Q[i] = num(); }
static void comma(bool c) { if (c) out.s(","); }
// ---- tuples -----------------------------------------------------------------------
template <size_t I, size_t K> struct At {
  template <class F> static void go(int i, F &f) { if ((int)I == i) f.template at<I>(); else At<I + 1, K>::go(i, f); }
  template <class F> static void all(F &f) { f.template at<I>(); At<I + 1, K>::all(f); }
};
template <size_t K> struct At<K, K> { template <class F> static void go(int, F &) { bad_op("index"); } template <class F> static void all(F &) {} };
template <class O> struct Show { const O &o; template <size_t I> void at() { using tao::get; comma(I); typedef typename nanostl::decay<decltype(get<I>(o))>::type T; out.i(V<T>::of(get<I>(o))); } };
template <class O> struct GetF { O &o; int how;
  template <size_t I> void at() { using tao::get; const O &c = o; typedef typename tao::tuple_element<I, O>::type T;
    switch (how) {
      case 0: { T &r = get<I>(o); out.i(V<T>::of(r)); break; }
      case 1: { const T &r = get<I>(c); out.i(V<T>::of(r)); if (&r != &get<I>(o)) el_bad++; break; }
      case 2: { T &&r = get<I>(nanostl::move(o)); out.i(V<T>::of(r)); if (&r != &get<I>(o)) el_bad++; break; }
      case 3: { const T &&r = get<I>(nanostl::move(c)); out.i(V<T>::of(r)); if (&r != &get<I>(o)) el_bad++; break; }
      case 4: { T &r = get<T>(o); out.i(V<T>::of(r)); if (&r != &get<I>(o)) el_bad++; break; }
      case 5: { const T &r = get<T>(c); out.i(V<T>::of(r)); if (&r != &get<I>(o)) el_bad++; break; }
      case 6: { T &&r = get<T>(nanostl::move(o)); out.i(V<T>::of(r)); if (&r != &get<I>(o)) el_bad++; break; }
      default: { const T &&r = get<T>(nanostl::move(c)); out.i(V<T>::of(r)); if (&r != &get<I>(o)) el_bad++; }
    } } };
template <class O> struct TakeF { O &o; template <size_t I> void at() { using tao::get; typedef typename tao::tuple_element<I, O>::type T; T x(get<I>(nanostl::move(o))); out.i(V<T>::of(x)); } };
template <class O, class R> struct WriteF { O &o; R refs; int how, x; template <size_t I> void at() { using tao::get; typedef typename tao::tuple_element<I, O>::type T; if (how == 0) get<I>(o) = V<T>::mk(x); else if (how == 1) get<T>(o) = V<T>::mk(x); else get<I>(refs) = V<T>::mk(x); } };
template <class R, class O> struct SameF { R r; O &o; bool ok; template <size_t I> void at() { using tao::get; if (&get<I>(r) != &get<I>(o)) ok = false; } };
template <class... Ts> struct TupOps;
template <class T0> struct TupOps<T0> {
  typedef tao::tuple<T0> O; typedef tao::tuple<typename Src<T0>::type> S; typedef tao::tuple<typename Oth<T0>::type> X; typedef tao::tuple<T0 &> R;
  static O *lv(void *p) { const T0 a(V<T0>::mk(Q[0])); return new (p) O(a); }
  static O *rv(void *p) { return new (p) O(V<T0>::mk(Q[0])); }
  static O *mk(void *p) { const T0 a(V<T0>::mk(Q[0])); return new (p) O(tao::make_tuple(a)); }
  static S src() { return S(Src<T0>::mk(Q[0])); }
  static X oth(const O &o) { using tao::get; return X(get<0>(o)); }
  static R refs(O &o) { using tao::get; return tao::tie(get<0>(o)); }
  template <class U> static void tie(int ig, U &&o) { T0 a = T0();
    if (ig == 1) tao::tie(tao::ignore) = nanostl::forward<U>(o); else tao::tie(a) = nanostl::forward<U>(o);
    out.i(V<T0>::of(a)); }
  static bool fwd(O &o) { using tao::get; auto f = tao::forward_as_tuple(get<0>(o)); return &get<0>(f) == &get<0>(o); }
};
template <class T0, class T1> struct TupOps<T0, T1> {
  typedef tao::tuple<T0, T1> O; typedef tao::tuple<typename Src<T0>::type, typename Src<T1>::type> S; typedef tao::tuple<typename Oth<T0>::type, typename Oth<T1>::type> X; typedef tao::tuple<T0 &, T1 &> R;
  static O *lv(void *p) { const T0 a(V<T0>::mk(Q[0])); const T1 b(V<T1>::mk(Q[1])); return new (p) O(a, b); }
  static O *rv(void *p) { return new (p) O(V<T0>::mk(Q[0]), V<T1>::mk(Q[1])); }
  static O *mk(void *p) { const T0 a(V<T0>::mk(Q[0])); return new (p) O(tao::make_tuple(a, V<T1>::mk(Q[1]))); }
  static S src() { return S(Src<T0>::mk(Q[0]), Src<T1>::mk(Q[1])); }
  static X oth(const O &o) { using tao::get; return X(get<0>(o), get<1>(o)); }
  static R refs(O &o) { using tao::get; return tao::tie(get<0>(o), get<1>(o)); }
  template <class U> static void tie(int ig, U &&o) { T0 a = T0(); T1 b = T1();
    if (ig == 1) tao::tie(tao::ignore, b) = nanostl::forward<U>(o); else if (ig == 2) tao::tie(a, tao::ignore) = nanostl::forward<U>(o); else tao::tie(a, b) = nanostl::forward<U>(o);
    out.i(V<T0>::of(a)).s(",").i(V<T1>::of(b)); }
  static bool fwd(O &o) { using tao::get; const O &c = o; auto f = tao::forward_as_tuple(get<0>(o), nanostl::move(get<1>(o))); auto g = tao::forward_as_tuple(get<0>(c), get<1>(c));
    return &get<0>(f) == &get<0>(o) && &get<1>(f) == &get<1>(o) && &get<0>(g) == &get<0>(o) && &get<1>(g) == &get<1>(o)
      && nanostl::is_same<decltype(f), tao::tuple<T0 &, T1 &&> >::value && nanostl::is_same<decltype(g), tao::tuple<const T0 &, const T1 &> >::value; }
};
template <class T0, class T1, class T2> struct TupOps<T0, T1, T2> {
  typedef tao::tuple<T0, T1, T2> O; typedef tao::tuple<typename Src<T0>::type, typename Src<T1>::type, typename Src<T2>::type> S; typedef tao::tuple<typename Oth<T0>::type, typename Oth<T1>::type, typename Oth<T2>::type> X; typedef tao::tuple<T0 &, T1 &, T2 &> R;
  static O *lv(void *p) { const T0 a(V<T0>::mk(Q[0])); const T1 b(V<T1>::mk(Q[1])); const T2 c(V<T2>::mk(Q[2])); return new (p) O(a, b, c); }
  static O *rv(void *p) { return new (p) O(V<T0>::mk(Q[0]), V<T1>::mk(Q[1]), V<T2>::mk(Q[2])); }
  static O *mk(void *p) { const T0 a(V<T0>::mk(Q[0])); T1 b(V<T1>::mk(Q[1])); return new (p) O(tao::make_tuple(a, b, V<T2>::mk(Q[2]))); }
  static S src() { return S(Src<T0>::mk(Q[0]), Src<T1>::mk(Q[1]), Src<T2>::mk(Q[2])); }
  static X oth(const O &o) { using tao::get; return X(get<0>(o), get<1>(o), get<2>(o)); }
  static R refs(O &o) { using tao::get; return tao::tie(get<0>(o), get<1>(o), get<2>(o)); }
  template <class U> static void tie(int ig, U &&o) { T0 a = T0(); T1 b = T1(); T2 c = T2();
    if (ig == 1) tao::tie(tao::ignore, b, c) = nanostl::forward<U>(o); else if (ig == 2) tao::tie(a, tao::ignore, c) = nanostl::forward<U>(o); else if (ig == 3) tao::tie(a, b, tao::ignore) = nanostl::forward<U>(o); else tao::tie(a, b, c) = nanostl::forward<U>(o);
    out.i(V<T0>::of(a)).s(",").i(V<T1>::of(b)).s(",").i(V<T2>::of(c)); }
  static bool fwd(O &o) { using tao::get; auto f = tao::forward_as_tuple(get<0>(o), nanostl::move(get<1>(o)), (const T2 &)get<2>(o)); return &get<0>(f) == &get<0>(o) && &get<1>(f) == &get<1>(o) && &get<2>(f) == &get<2>(o) && nanostl::is_same<decltype(f), tao::tuple<T0 &, T1 &&, const T2 &> >::value; }
};
template <class T0, class T1, class T2, class T3> struct TupOps<T0, T1, T2, T3> {
  typedef tao::tuple<T0, T1, T2, T3> O; typedef tao::tuple<typename Src<T0>::type, typename Src<T1>::type, typename Src<T2>::type, typename Src<T3>::type> S; typedef tao::tuple<typename Oth<T0>::type, typename Oth<T1>::type, typename Oth<T2>::type, typename Oth<T3>::type> X; typedef tao::tuple<T0 &, T1 &, T2 &, T3 &> R;
  static O *lv(void *p) { const T0 a(V<T0>::mk(Q[0])); const T1 b(V<T1>::mk(Q[1])); const T2 c(V<T2>::mk(Q[2])); const T3 d(V<T3>::mk(Q[3])); return new (p) O(a, b, c, d); }
  static O *rv(void *p) { return new (p) O(V<T0>::mk(Q[0]), V<T1>::mk(Q[1]), V<T2>::mk(Q[2]), V<T3>::mk(Q[3])); }
  static O *mk(void *p) { const T0 a(V<T0>::mk(Q[0])); T1 b(V<T1>::mk(Q[1])); return new (p) O(tao::make_tuple(a, b, V<T2>::mk(Q[2]), V<T3>::mk(Q[3]))); }
  static S src() { return S(Src<T0>::mk(Q[0]), Src<T1>::mk(Q[1]), Src<T2>::mk(Q[2]), Src<T3>::mk(Q[3])); }
  static X oth(const O &o) { using tao::get; return X(get<0>(o), get<1>(o), get<2>(o), get<3>(o)); }
  static R refs(O &o) { using tao::get; return tao::tie(get<0>(o), get<1>(o), get<2>(o), get<3>(o)); }
  template <class U> static void tie(int ig, U &&o) { T0 a = T0(); T1 b = T1(); T2 c = T2(); T3 d = T3();
    if (ig == 1) tao::tie(tao::ignore, b, c, d) = nanostl::forward<U>(o); else if (ig == 2) tao::tie(a, tao::ignore, c, d) = nanostl::forward<U>(o); else if (ig == 3) tao::tie(a, b, tao::ignore, d) = nanostl::forward<U>(o); else if (ig == 4) tao::tie(a, b, c, tao::ignore) = nanostl::forward<U>(o); else tao::tie(a, b, c, d) = nanostl::forward<U>(o);
    out.i(V<T0>::of(a)).s(",").i(V<T1>::of(b)).s(",").i(V<T2>::of(c)).s(",").i(V<T3>::of(d)); }
  static bool fwd(O &o) { using tao::get; auto f = tao::forward_as_tuple(get<0>(o), get<1>(o), get<2>(o), get<3>(o)); return &get<0>(f) == &get<0>(o) && &get<1>(f) == &get<1>(o) && &get<2>(f) == &get<2>(o) && &get<3>(f) == &get<3>(o); }
};
// twelve components: all the work is by position
template <class T0, class T1, class T2, class T3, class T4, class T5, class T6, class T7, class T8, class T9, class T10, class T11> struct TupOps<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11> {
  typedef tao::tuple<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11> O; typedef tao::tuple<typename Src<T0>::type, typename Src<T1>::type, typename Src<T2>::type, typename Src<T3>::type, typename Src<T4>::type, typename Src<T5>::type, typename Src<T6>::type, typename Src<T7>::type, typename Src<T8>::type, typename Src<T9>::type, typename Src<T10>::type, typename Src<T11>::type> S; typedef tao::tuple<typename Oth<T0>::type, typename Oth<T1>::type, typename Oth<T2>::type, typename Oth<T3>::type, typename Oth<T4>::type, typename Oth<T5>::type, typename Oth<T6>::type, typename Oth<T7>::type, typename Oth<T8>::type, typename Oth<T9>::type, typename Oth<T10>::type, typename Oth<T11>::type> X; typedef tao::tuple<T0 &, T1 &, T2 &, T3 &, T4 &, T5 &, T6 &, T7 &, T8 &, T9 &, T10 &, T11 &> R;
  static O *lv(void *p) { const T0 a0(V<T0>::mk(Q[0])); const T1 a1(V<T1>::mk(Q[1])); const T2 a2(V<T2>::mk(Q[2])); const T3 a3(V<T3>::mk(Q[3])); const T4 a4(V<T4>::mk(Q[4])); const T5 a5(V<T5>::mk(Q[5])); const T6 a6(V<T6>::mk(Q[6])); const T7 a7(V<T7>::mk(Q[7])); const T8 a8(V<T8>::mk(Q[8])); const T9 a9(V<T9>::mk(Q[9])); const T10 a10(V<T10>::mk(Q[10])); const T11 a11(V<T11>::mk(Q[11])); return new (p) O(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11); }
  static O *rv(void *p) { return new (p) O(V<T0>::mk(Q[0]), V<T1>::mk(Q[1]), V<T2>::mk(Q[2]), V<T3>::mk(Q[3]), V<T4>::mk(Q[4]), V<T5>::mk(Q[5]), V<T6>::mk(Q[6]), V<T7>::mk(Q[7]), V<T8>::mk(Q[8]), V<T9>::mk(Q[9]), V<T10>::mk(Q[10]), V<T11>::mk(Q[11])); }
  static O *mk(void *p) { const T3 a3(V<T3>::mk(Q[3])); T9 a9(V<T9>::mk(Q[9])); return new (p) O(tao::make_tuple(V<T0>::mk(Q[0]), V<T1>::mk(Q[1]), V<T2>::mk(Q[2]), a3, V<T4>::mk(Q[4]), V<T5>::mk(Q[5]), V<T6>::mk(Q[6]), V<T7>::mk(Q[7]), V<T8>::mk(Q[8]), a9, V<T10>::mk(Q[10]), V<T11>::mk(Q[11]))); }
  static S src() { return S(Src<T0>::mk(Q[0]), Src<T1>::mk(Q[1]), Src<T2>::mk(Q[2]), Src<T3>::mk(Q[3]), Src<T4>::mk(Q[4]), Src<T5>::mk(Q[5]), Src<T6>::mk(Q[6]), Src<T7>::mk(Q[7]), Src<T8>::mk(Q[8]), Src<T9>::mk(Q[9]), Src<T10>::mk(Q[10]), Src<T11>::mk(Q[11])); }
  static X oth(const O &o) { using tao::get; return X(get<0>(o), get<1>(o), get<2>(o), get<3>(o), get<4>(o), get<5>(o), get<6>(o), get<7>(o), get<8>(o), get<9>(o), get<10>(o), get<11>(o)); }
  static R refs(O &o) { using tao::get; return tao::tie(get<0>(o), get<1>(o), get<2>(o), get<3>(o), get<4>(o), get<5>(o), get<6>(o), get<7>(o), get<8>(o), get<9>(o), get<10>(o), get<11>(o)); }
  template <class U> static void tie(int ig, U &&o) { T0 a0 = T0(); T1 a1 = T1(); T2 a2 = T2(); T3 a3 = T3(); T4 a4 = T4(); T5 a5 = T5(); T6 a6 = T6(); T7 a7 = T7(); T8 a8 = T8(); T9 a9 = T9(); T10 a10 = T10(); T11 a11 = T11();
    switch (ig) {
      case 1: tao::tie(tao::ignore, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11) = nanostl::forward<U>(o); break;
      case 2: tao::tie(a0, tao::ignore, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11) = nanostl::forward<U>(o); break;
      case 3: tao::tie(a0, a1, tao::ignore, a3, a4, a5, a6, a7, a8, a9, a10, a11) = nanostl::forward<U>(o); break;
      case 4: tao::tie(a0, a1, a2, tao::ignore, a4, a5, a6, a7, a8, a9, a10, a11) = nanostl::forward<U>(o); break;
      case 5: tao::tie(a0, a1, a2, a3, tao::ignore, a5, a6, a7, a8, a9, a10, a11) = nanostl::forward<U>(o); break;
      case 6: tao::tie(a0, a1, a2, a3, a4, tao::ignore, a6, a7, a8, a9, a10, a11) = nanostl::forward<U>(o); break;
      case 7: tao::tie(a0, a1, a2, a3, a4, a5, tao::ignore, a7, a8, a9, a10, a11) = nanostl::forward<U>(o); break;
      case 8: tao::tie(a0, a1, a2, a3, a4, a5, a6, tao::ignore, a8, a9, a10, a11) = nanostl::forward<U>(o); break;
      case 9: tao::tie(a0, a1, a2, a3, a4, a5, a6, a7, tao::ignore, a9, a10, a11) = nanostl::forward<U>(o); break;
      case 10: tao::tie(a0, a1, a2, a3, a4, a5, a6, a7, a8, tao::ignore, a10, a11) = nanostl::forward<U>(o); break;
      case 11: tao::tie(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, tao::ignore, a11) = nanostl::forward<U>(o); break;
      case 12: tao::tie(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, tao::ignore) = nanostl::forward<U>(o); break;
      default: tao::tie(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11) = nanostl::forward<U>(o);
    }
    out.i(V<T0>::of(a0)).s(",").i(V<T1>::of(a1)).s(",").i(V<T2>::of(a2)).s(",").i(V<T3>::of(a3)).s(",").i(V<T4>::of(a4)).s(",").i(V<T5>::of(a5)).s(",").i(V<T6>::of(a6)).s(",").i(V<T7>::of(a7)).s(",").i(V<T8>::of(a8)).s(",").i(V<T9>::of(a9)).s(",").i(V<T10>::of(a10)).s(",").i(V<T11>::of(a11)); }
  static bool fwd(O &o) { using tao::get; auto f = tao::forward_as_tuple(get<0>(o), get<1>(o), get<2>(o), get<3>(o), get<4>(o), get<5>(o), get<6>(o), get<7>(o), get<8>(o), get<9>(o), get<10>(o), get<11>(o)); return &get<0>(f) == &get<0>(o) && &get<1>(f) == &get<1>(o) && &get<2>(f) == &get<2>(o) && &get<3>(f) == &get<3>(o) && &get<4>(f) == &get<4>(o) && &get<5>(f) == &get<5>(o) && &get<6>(f) == &get<6>(o) && &get<7>(f) == &get<7>(o) && &get<8>(f) == &get<8>(o) && &get<9>(f) == &get<9>(o) && &get<10>(f) == &get<10>(o) && &get<11>(f) == &get<11>(o); }
};
template <class... Ts> struct TupleKind {
  typedef TupOps<Ts...> P; typedef typename P::O O; typedef typename P::S S; typedef typename P::R R; enum { K = sizeof...(Ts) };
  static void show(const O &o) { Show<O> f = {o}; At<0, K>::all(f); }
  static O *make(void *p, int how) {
    if (how == 0) return P::lv(p); if (how == 1) return P::rv(p); if (how == 2) return P::mk(p);
    S s(P::src()); const S &c = s; if (how == 3) return new (p) O(c); return new (p) O(nanostl::move(s)); }
  static void assign(O &o, int how) { S s(P::src()); const S &c = s; O *r = how ? &(o = nanostl::move(s)) : &(o = c); if (r != &o) el_bad++; }
  static void swp(O &a, O &b, int how) { if (how) a.swap(b); else swap(a, b); }
  static void write(O &o, int i, int x, int how) { WriteF<O, R> f = {o, P::refs(o), how, x}; At<0, K>::go(i, f); }
  static void get(O &o, int i, int how) { GetF<O> f = {o, how}; At<0, K>::go(i, f); }
  static void take(O &o, int i) { TakeF<O> f = {o}; At<0, K>::go(i, f); }
  static void tie(O &o, int i, int how) { if (how) { O c(o); P::tie(i, nanostl::move(c)); } else P::tie(i, (const O &)o); }
  static void cat(O &a, O &b, int how) {
    const tao::tuple<> u; const O &ca = a;
    if (how) { O x(a), y(b), z(a); auto r = tao::tuple_cat(nanostl::move(x), tao::tuple<>(), nanostl::move(y), nanostl::move(z)); Show<decltype(r)> f = {r}; At<0, 3 * K>::all(f); if (tao::tuple_size<decltype(r)>::value != 3 * K) el_bad++; }
    else { auto r = tao::tuple_cat(u, ca, b, u, a); Show<decltype(r)> f = {r}; At<0, 3 * K>::all(f); } }
  static void cmp(const O &a, const O &b, int how) { if (how) { const typename P::X x(P::oth(b)); SIX(a, x); } else SIX(a, b); }
  static void refs(O &o) { SameF<R, O> f = {P::refs(o), o, true}; At<0, K>::all(f); out.i(f.ok).s(",").i(P::fwd(o)).s(",");
    out.i(tao::tuple_size<O>::value == K && tao::tuple_size<const O>::value == K && tao::tuple<>() == tao::tuple<>() && !(tao::tuple<>() < tao::tuple<>())); }
};
// ---- pairs ------------------------------------------------------------------------
template <class A, class B> struct PairKind {
  typedef nanostl::pair<A, B> O; enum { K = 2 };
  static void show(const O &o) { out.i(V<A>::of(o.first)).s(",").i(V<B>::of(o.second)); }
  static O *make(void *p, int how) { const A a(V<A>::mk(Q[0])); const B b(V<B>::mk(Q[1]));
    if (how == 0) return new (p) O(a, b); if (how == 1) return new (p) O(V<A>::mk(Q[0]), V<B>::mk(Q[1])); return new (p) O(nanostl::make_pair(a, V<B>::mk(Q[1]))); }
  static void assign(O &, int) { bad_op("setvals"); }
  static void swp(O &a, O &b, int) { nanostl::swap(a, b); }
  static void write(O &o, int i, int x, int) { if (i) o.second = V<B>::mk(x); else o.first = V<A>::mk(x); }
  static void get(O &o, int i, int how) { const O &c = o; if (i) out.i(V<B>::of(how ? c.second : o.second)); else out.i(V<A>::of(how ? c.first : o.first)); }
  static void take(O &o, int i) { if (i) { B x(nanostl::move(o.second)); out.i(V<B>::of(x)); } else { A x(nanostl::move(o.first)); out.i(V<A>::of(x)); } }
  static void tie(O &, int, int) { bad_op("tie"); }
  static void cat(O &, O &, int) { bad_op("cat"); }
  static void cmp(const O &a, const O &b, int) { out.i(a == b).s(",").i(a < b).s(",").i(b < a); }
  static void refs(O &) { out.s("1,1,1"); }
};
template <class P> struct Run {
  typedef typename P::O O;
  int n; O *slot[N];
  O &o(int i) { return *slot[i]; }
  void *mem() { void *p = malloc(sizeof(O)); memset(p, 0x5A, sizeof(O)); return p; }
  void drop(int i) { if (slot[i]) { slot[i]->~O(); free(slot[i]); slot[i] = 0; } }
  void state() {
    out.s("\"st\":{\"v\":[");
    for (int i = 0; i < n; i++) { comma(i); out.s("["); if (slot[i]) P::show(o(i)); out.s("]"); }
    out.s("],\"live\":").i(el_live).s(",\"bad\":").i(el_bad + heap_bad).s("}");
  }
  void one(const char *op) {
    if (common(op)) return;
    if (is(op, "reset")) { for (int i = 0; i < N; i++) drop(i); if (heap_live || el_live) el_bad++; tab_reset(); }
    else if (is(op, "new")) { int s = num() - 1; void *p = mem(); slot[s] = new (p) O(); }
    else if (is(op, "newvals")) { int s = num() - 1, how = num(); quote(); slot[s] = P::make(mem(), how); }
    else if (is(op, "newcopy")) { int s = num() - 1, t = num() - 1; slot[s] = new (mem()) O((const O &)o(t)); }
    else if (is(op, "newmove")) { int s = num() - 1, t = num() - 1; slot[s] = new (mem()) O(nanostl::move(o(t))); }
    else if (is(op, "setcopy")) { int s = num() - 1, t = num() - 1; if (&(o(s) = (const O &)o(t)) != slot[s]) el_bad++; }
    else if (is(op, "setmove")) { int s = num() - 1, t = num() - 1; if (&(o(s) = nanostl::move(o(t))) != slot[s]) el_bad++; }
    else if (is(op, "setvals")) { int s = num() - 1, how = num(); quote(); P::assign(o(s), how); }
    else if (is(op, "swap")) { int s = num() - 1, t = num() - 1, how = num(); P::swp(o(s), o(t), how); }
    else if (is(op, "write")) { int s = num() - 1, i = num() - 1, x = num(), how = num(); P::write(o(s), i, x, how); }
    else if (is(op, "del")) { int s = num() - 1; drop(s); }
    else if (is(op, "get")) { int s = num() - 1, i = num() - 1, how = num(); P::get(o(s), i, how); }
    else if (is(op, "take")) { int s = num() - 1, i = num() - 1; P::take(o(s), i); }
    else if (is(op, "tie")) { int s = num() - 1, i = num(), how = num(); P::tie(o(s), i, how); }
    else if (is(op, "cat")) { int s = num() - 1, t = num() - 1, how = num(); P::cat(o(s), o(t), how); }
    else if (is(op, "cmp")) { int s = num() - 1, t = num() - 1, how = num(); P::cmp(o(s), o(t), how); }
    else if (is(op, "refs")) { int s = num() - 1; P::refs(o(s)); }
    else bad_op(op);
  }
  void loop() {
    for (int i = 0; i < N; i++) slot[i] = 0;
    while (next_line()) {
      const char *op = word();
      out.s("{\"res\":["); heap_on = true; one(op); heap_on = false; out.s("],"); state(); out.s("}"); out.flush();
    }
  }
};
template <class P> static int go(char **argv) { Run<P> r; r.n = atoi(argv[2]); r.loop(); return 0; }
typedef nanostl::string Str;
int main(int, char **argv) {
  if (is(argv[1], "pint")) return go<PairKind<int, short> >(argv);
  if (is(argv[1], "pob")) return go<PairKind<Ob<0, true>, Ob<1, false> > >(argv);
  if (is(argv[1], "pmix")) return go<PairKind<Str, double> >(argv);
  if (is(argv[1], "t1")) return go<TupleKind<Ob<0, true> > >(argv);
  if (is(argv[1], "t2")) return go<TupleKind<Ob<0, true>, Ob<1, false> > >(argv);
  if (is(argv[1], "tint")) return go<TupleKind<int, double> >(argv);
  if (is(argv[1], "t3")) return go<TupleKind<Ob<0, true>, Ob<1, false>, Ob<2, true> > >(argv);
  if (is(argv[1], "tmix")) return go<TupleKind<short, Ob<0, true>, Str, double> >(argv);
  if (is(argv[1], "t12")) return go<TupleKind<Ob<0, true>, int, Ob<1, false>, short, long, Ob<2, true>, Emp<0>, Ob<3, false>, double, Ob<4, true>, unsigned, Ob<5, false> > >(argv);
  if (is(argv[1], "temp")) return go<TupleKind<Emp<0>, int, Emp<1>, Ob<0, true> > >(argv);
  if (is(argv[1], "pwk")) return go<PairKind<Wk<0>, Wk<1> > >(argv);
  if (is(argv[1], "twk")) return go<TupleKind<Wk<0>, Wk<1>, int> >(argv);
  return 77;
}
