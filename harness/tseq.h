// Prints what generated type expressions over tao::seq denote: the type, the values, the size.
#include <cstdio>
#include "tao/seq/at_index.hpp"
#include "tao/seq/exclusive_scan.hpp"
#include "tao/seq/inclusive_scan.hpp"
#include "tao/seq/integer_sequence.hpp"
#include "tao/seq/is_all.hpp"
#include "tao/seq/make_integer_sequence.hpp"
#include "tao/seq/map.hpp"
#include "tao/seq/minus.hpp"
#include "tao/seq/partial_sum.hpp"
#include "tao/seq/plus.hpp"
#include "tao/seq/select.hpp"
#include "tao/seq/sum.hpp"
#include "tao/seq/zip.hpp"
typedef signed char schar;
typedef unsigned int uint_;
typedef unsigned long sz;
typedef long long ll;
typedef unsigned long long ull;
template <class T> struct Name;
#define NAME(T, S) template <> struct Name<T> { static const char *get() { return S; } };
NAME(bool, "bool") NAME(schar, "schar") NAME(short, "short") NAME(int, "int") NAME(uint_, "uint") NAME(long, "long") NAME(sz, "sz") NAME(ll, "ll") NAME(ull, "ull")
template <class S> struct Show;
template <class S> struct Index { static const bool value = false; };
template <nanostl::size_t... Ns> struct Index<tao::seq::index_sequence<Ns...>> { static const bool value = true; };
static bool indices;
template <class T, T... Ns> struct Show<tao::seq::integer_sequence<T, Ns...>> {
  static void go() {
    const T v[] = {Ns..., T()};
    printf("[\"%s\",[", indices && Index<tao::seq::integer_sequence<T, Ns...>>::value ? "size" : Name<T>::get());
    for (unsigned i = 0; i < sizeof...(Ns); i++) printf(i ? ",%lld" : "%lld", (long long)v[i]);
    static_assert(tao::seq::integer_sequence<T, Ns...>::size() == sizeof...(Ns), "usable as a constant");
    printf("],%d]", (int)tao::seq::integer_sequence<T, Ns...>::size());
  }
};
struct times { template <class T, T A, T B> using apply = nanostl::integral_constant<T, A * B>; };
template <class S> void seq() { Name<typename S::value_type>::get(); Show<S>::go(); }
template <class S> void idx() { indices = true; seq<S>(); indices = false; }
template <class C> void con() { printf("[\"%s\",[%lld],%lld]", Name<typename C::value_type>::get(), (long long)C::value, (long long)(typename C::value_type)C()); }
template <class T> void typ() { printf("[\"%s\",[],0]", Name<T>::get()); }
struct Entry { void (*f)(); };
extern Entry rows[];
extern const int nrows;
int main() {
  char op[16];
  int i;
  while (scanf("%15s", op) == 1) {
    if (op[0] == 'r' && op[1] == 'e') { puts("{\"res\":0,\"st\":0}"); continue; }
    if (scanf("%d", &i) != 1 || i < 0 || i >= nrows) return 77;
    printf("{\"st\":0,\"res\":");
    rows[i].f();
    puts("}");
  }
  return 0;
}
