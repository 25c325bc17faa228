// Prints the numerator and denominator of generated instances of nanostl::ratio, as constants and through
// references (which need the static members to be defined).
#include <cstdio>
#include "nanoratio.h"
static void num(const long long &v) {
  unsigned long long m = v < 0 ? 0 - (unsigned long long)v : v;
  printf("[%d,[%llu,%llu,%llu,%llu]]", v < 0 ? -1 : v > 0, m >> 48, m >> 32 & 65535, m >> 16 & 65535, m & 65535);
}
static void byref(const nanostl::intmax_t &v) { num(v); }
template <class R> void row() {
  static_assert(R::den > 0, "usable as a constant");
  printf("{\"st\":0,\"res\":[");
  num(R::num); putchar(',');
  num(R::den); putchar(',');
  num(R::type::num); putchar(',');
  num(R::type::den); putchar(',');
  byref(R::num); putchar(',');
  byref(R::den);
  printf("]}\n");
}
struct Entry { void (*f)(); };
extern Entry rows[];
extern const int nrows;
int main() {
  char op[16];
  int i;
  while (scanf("%15s", op) == 1) {
    if (op[0] == 'r' && op[1] == 'e') { puts("{\"res\":0,\"st\":0}"); continue; }
    if (scanf("%d", &i) != 1 || i < 0 || i >= nrows) return 77;
    rows[i].f();
  }
  return 0;
}
