// fast_float::from_chars on exactly sized buffers.  Values travel as 16-bit chunks.
#include <cstdlib>
#include <cstring>
#undef FASTFLOAT_FAST_FLOAT_H
#include "fast_float/fast_float.h"
#include "vf.h"
using namespace vf;
static unsigned long long chunks() { long n = num(); unsigned long long v = 0; while (n--) v = v << 16 | (unsigned long long)num(); return v; }
static void put(unsigned long long v, int n) { out.s("["); while (n--) { out.i(v >> (16 * n) & 65535); if (n) out.s(","); } out.s("]"); }
template <class T, class U> static void go() {
  int how = (int)num();
  long n = num();
  char *p = (char *)malloc(n ? n : 1);      // no terminator: reading past the end is an error the sanitizer sees
  for (long i = 0; i < n; i++) p[i] = (char)num();
  U u = (U)chunks();
  T v;
  memcpy(&v, &u, sizeof v);
  fast_float::from_chars_result r =
      how == 3 ? fast_float::from_chars_advanced(p, p + n, v, fast_float::parse_options(fast_float::chars_format::general, ','))
               : how == 1 ? fast_float::from_chars(p, p + n, v, fast_float::chars_format::fixed)
                          : how == 2 ? fast_float::from_chars(p, p + n, v, fast_float::chars_format::scientific)
                                     : fast_float::from_chars(p, p + n, v);
  memcpy(&u, &v, sizeof v);
  out.s("[").i(r.ptr - p).s(",").i(r.ec == nanostl::errc() ? 0 : r.ec == nanostl::errc::invalid_argument ? 1 : 2).s(",");
  put(u, sizeof v / 2);
  out.s("]");
  free(p);
}
int main() {
  while (next_line()) {
    const char *op = word();
    out.s("{\"res\":");
    if (is(op, "reset")) out.s("[]");
    else if (is(op, "ff")) go<float, unsigned>();
    else if (is(op, "fd")) go<double, unsigned long long>();
    else bad_op(op);
    out.s(",\"st\":0}").flush();
  }
  return 0;
}
