// Prints what nanostl's type traits yield for a type, next to what the type is (by reflection that does
// not use nanostl).  The rows themselves are generated: one template instantiation per type term.
#include <cstddef>
#include <cstdio>
#include <string>
#include "nanotype_traits.h"
struct Empty {};
struct Data { int x; };
struct Der : Data { int y; };
struct Fin final {};
union Uni { int a; float b; };
struct Abs { int x; virtual void f() = 0; };
struct Poly { int x; Poly() noexcept {} Poly(const Poly &) = default; Poly &operator=(const Poly &) = default; virtual ~Poly() {} };
struct MovO { int x; MovO() {} MovO(MovO &&) noexcept {} MovO &operator=(MovO &&) noexcept { return *this; } };
struct FromI { int x; FromI(int) noexcept {} };
struct Exp { int x; explicit Exp(int) {} };
struct ToI { operator int() const { return 0; } };
struct Thr { Thr() {} Thr(const Thr &) {} Thr(Thr &&) {} Thr &operator=(const Thr &) { return *this; } Thr &operator=(Thr &&) { return *this; } };
struct NoD { ~NoD() = delete; };
struct CMem { const int c; };
struct Inc;
struct Host;            // whose members the member pointers point to
enum E { e0, e1 };
enum class EC { a, b };
typedef signed char schar; typedef unsigned char uchar; typedef wchar_t wchar; typedef char16_t c16; typedef char32_t c32;
typedef unsigned short ushort_; typedef unsigned int uint_; typedef unsigned long ulong_; typedef long long ll; typedef unsigned long long ull; typedef long double ldouble;
// constructors
template <class T> using C_ = const T;
template <class T> using V_ = volatile T;
template <class T> using P_ = T *;
template <class T> using L_ = T &;
template <class T> using R_ = T &&;
template <class T> using A0_ = T[];
template <class T> using A2_ = T[2];
template <class T> using A3_ = T[3];
template <class T> using F_ = T();
template <class T> using FI_ = T(int);
template <class T> using FC_ = T() const;
template <class T> using M_ = T Host::*;
// reflection
template <class T> struct D;
#define BASE(T, N) template <> struct D<T> { static std::string s() { return "\"" N "\""; } };
BASE(void, "void") BASE(bool, "bool") BASE(char, "char") BASE(schar, "schar") BASE(uchar, "uchar") BASE(wchar, "wchar") BASE(c16, "c16") BASE(c32, "c32")
BASE(short, "short") BASE(ushort_, "ushort") BASE(int, "int") BASE(uint_, "uint") BASE(long, "long") BASE(ulong_, "ulong") BASE(ll, "ll") BASE(ull, "ull")
BASE(float, "float") BASE(double, "double") BASE(ldouble, "ldouble") BASE(E, "E") BASE(EC, "EC") BASE(Empty, "Empty") BASE(Data, "Data") BASE(Der, "Der")
BASE(Fin, "Fin") BASE(Uni, "Uni") BASE(Abs, "Abs") BASE(Poly, "Poly") BASE(MovO, "MovO") BASE(FromI, "FromI") BASE(Exp, "Exp") BASE(ToI, "ToI") BASE(Thr, "Thr")
BASE(NoD, "NoD") BASE(CMem, "CMem") BASE(Inc, "Inc")
#define CON(T, ...) template <class T> struct D<__VA_ARGS__> 
#define IS(TOK, REST) { static std::string s() { return "\"" TOK "\"," + D<REST>::s(); } };
CON(T, const T) IS("c", T)
CON(T, volatile T) IS("v", T)
CON(T, const volatile T) IS("c\",\"v", T)
CON(T, T *) IS("p", T)
CON(T, T &) IS("l", T)
CON(T, T &&) IS("r", T)
#define ARR(TOK, N) CON(T, T N) IS(TOK, T) CON(T, const T N) IS(TOK, const T) CON(T, volatile T N) IS(TOK, volatile T) CON(T, const volatile T N) IS(TOK, const volatile T)
ARR("a0", []) ARR("a2", [2]) ARR("a3", [3])
CON(T, T()) IS("f", T)
CON(T, T(int)) IS("fi", T)
CON(T, T() const) IS("fc", T)
CON(T, T Host::*) IS("mo", T)
template <class T> std::string str() { return "[" + D<T>::s() + "]"; }
struct Row {
  std::string s;
  void b(const char *n, bool v) { s += (s.empty() ? "\"" : ",\"") + std::string(n) + (v ? "\":true" : "\":false"); }
  void t(const char *n, const std::string &v) { s += (s.empty() ? "\"" : ",\"") + std::string(n) + "\":" + v; }
  void out(const std::string &st) { printf("{\"res\":{%s},\"st\":%s}\n", s.c_str(), st.c_str()); }
};
#define B1(N) r.b(#N, nanostl::N<T>::value && bool(nanostl::N<T>::value));
#define T1(N) r.t(#N, str<typename nanostl::N<T>::type>());
// B1 reads the value twice, once through a conversion of the trait object where it is an integral_constant
template <class T> void row() {
  Row r;
  B1(is_void) B1(is_integral) B1(is_floating_point) B1(is_arithmetic) B1(is_array) B1(is_pointer) B1(is_lvalue_reference) B1(is_rvalue_reference)
  B1(is_reference) B1(is_const) B1(is_function) B1(is_member_pointer) B1(is_member_function_pointer) B1(is_enum) B1(is_union) B1(is_class) B1(is_scalar)
  B1(is_object) B1(is_signed) B1(is_unsigned) B1(is_abstract) B1(is_final) B1(is_empty) B1(is_destructible) B1(is_default_constructible)
  B1(is_copy_constructible) B1(is_move_constructible) B1(is_copy_assignable) B1(is_move_assignable) B1(is_nothrow_default_constructible)
  B1(is_nothrow_copy_constructible) B1(is_nothrow_move_constructible) B1(is_nothrow_copy_assignable) B1(is_nothrow_move_assignable)
  B1(is_trivially_default_constructible) B1(is_trivially_copy_constructible) B1(is_trivially_move_constructible)
  T1(remove_const) T1(remove_volatile) T1(remove_cv) T1(remove_reference) T1(remove_extent) T1(remove_all_extents) T1(add_const) T1(add_pointer)
  T1(add_lvalue_reference) T1(add_rvalue_reference) T1(decay)
  r.out(str<T>());
}
template <class F, class T, class = void> struct CT { static std::string s() { return "[\"none\"]"; } };
template <class... T> struct Void { typedef void type; };
template <class F, class T> struct CT<F, T, typename Void<typename nanostl::common_type<F, T>::type>::type> {
  static std::string s() { return str<typename nanostl::common_type<F, T>::type>(); }
};
template <class F, class T, bool spec> struct CTs : CT<F, T> {};
template <class F, class T> struct CTs<F, T, false> { static std::string s() { return "[\"any\"]"; } };
template <bool b, class T, class = void> struct Enabled { static const bool value = false; };
template <bool b, class T> struct Enabled<b, T, typename Void<typename nanostl::enable_if<b, T>::type>::type> {
  static const bool value = __is_same(typename nanostl::enable_if<b, T>::type, T);
};
template <class F, class T, bool spec> void pairrow() {
  Row r;
  // enable_if and integral_constant take part in carrying each answer
  const bool same = nanostl::is_same<F, T>::value;
  r.b("same", same && Enabled<nanostl::is_same<F, T>::value, F>::value && nanostl::is_same<F, T>());
  r.b("conv", nanostl::is_convertible<F, T>::value);
  r.b("ctor", nanostl::is_constructible<T, F>::value);
  r.b("asg", nanostl::is_assignable<T, F>::value);
  r.b("ctorn", nanostl::is_nothrow_constructible<T, F>::value);
  r.b("asgn", nanostl::is_nothrow_assignable<T, F>::value);
  std::string x = str<typename nanostl::conditional<true, F, T>::type>(), y = str<typename nanostl::conditional<false, F, T>::type>();
  r.t("cond", Enabled<false, F>::value ? std::string("0") : "[" + x + "," + y + "]");
  r.t("common", CTs<F, T, spec>::s());
  r.out("[" + str<F>() + "," + str<T>() + "]");
}
template <size_t n, size_t k> void store() {
  typedef typename nanostl::aligned_storage<n, k>::type T;
  printf("{\"res\":[%zu,%zu],\"st\":0}\n", sizeof(T), alignof(T));
}
template <size_t n> void store0() {
  typedef typename nanostl::aligned_storage<n>::type T;
  printf("{\"res\":[%zu,%zu],\"st\":0}\n", sizeof(T), alignof(T));
}
struct Entry { void (*f)(); };
extern Entry rows[];
extern const int nrows;
int main() {
  char op[16];
  int i;
  while (scanf("%15s", op) == 1) {
    if (op[0] == 'r' && op[1] == 'e') { puts("{\"res\":0,\"st\":0}"); continue; }
    if (scanf("%d", &i) != 1 || i < 0 || i >= nrows) return 77;
    rows[i].f();
  }
  return 0;
}
