// The elementary functions of nanomath.h on bit patterns of float (16-bit chunks, most significant first).
#include "nanomath.h"
#include "vf.h"
using namespace vf;
extern "C" double elem_ref(int, double, double);
extern "C" double elem_erf(double);
extern "C" double elem_cos(double);
static float fl(unsigned u) { float f; memcpy(&f, &u, 4); return f; }
static unsigned un(float f) { unsigned u; memcpy(&u, &f, 4); return u; }
static unsigned rd() { long c = num(); unsigned v = 0; while (c--) v = v << 16 | (unsigned)num(); return v; }
static void put(unsigned v) { out.s("[").i(v >> 16).s(",").i(v & 65535).s("]"); }
static const char *const NAMES[] = {"exp", "log", "log10", "sqrt", "cbrt", "sin", "cos", "tan", "sinh", "cosh", "tanh", "erf", "erfc", "ierf", "pow"};
static float run(int f, float x, float y) {
  switch (f) {
  case 0: return nanostl::exp(x); case 1: return nanostl::log(x); case 2: return nanostl::log10(x); case 3: return nanostl::sqrt(x);
  case 4: return nanostl::cbrt(x); case 5: return nanostl::sin(x); case 6: return nanostl::cos(x); case 7: return nanostl::tan(x);
  case 8: return nanostl::sinh(x); case 9: return nanostl::cosh(x); case 10: return nanostl::tanh(x); case 11: return nanostl::erf(x);
  case 12: return nanostl::erfc(x); case 13: return nanostl::ierf(x); case 14: return nanostl::pow(x, y);
  }
  return 0;
}
static int fn_id() {
  const char *w = word();
  for (int i = 0; i < 15; i++) if (is(w, NAMES[i])) return i;
  bad_op(w);
  return 0;
}
static double mag(double d) { return d < 0 ? -d : d; }
static double ulp(double d) { d = mag(d); double u = 1.401298464324817e-45; while (u * 16777216.0 <= d) u *= 2; return u; }
// how suspicious an answer is, twice: by absolute and by relative error
static void score(int f, float x, float y, double *a, double *r) {
  float v = run(f, x, y);
  double t, w = v;
  if (f == 13) { t = x; w = elem_erf(v); }
  else t = elem_ref(f, x, y);
  double e = mag(w - t);
  if (f == 7) { double c = elem_cos(x); e *= c * c; }
  if (!(e < 1e300)) e = 1e300;
  *a = e;
  *r = t == 0 ? e : e / ulp(t);
  if (f == 14) { double q = y < 0 ? -y : y; *r = e / mag(t) / (2.75e-5 + q * 5.3e-6); *a = *r; }
}
// scan f sign exponent from step: the worst arguments of that exponent
static void scan() {
  int f = fn_id();
  unsigned base = (unsigned)num() << 31;
  base |= (unsigned)num() << 23;
  unsigned from = (unsigned)num(), step = (unsigned)num(), wa = base, wr = base;
  double ma = -1, mr = -1, a, r;
  for (unsigned k = from; k < 1u << 23; k += step) {
    score(f, fl(base | k), 0, &a, &r);
    if (a > ma) { ma = a; wa = base | k; }
    if (r > mr) { mr = r; wr = base | k; }
  }
  out.s("["); put(wa); out.s(","); put(wr); out.s("]");
}
// powscan seed count: the worst of so many random pairs, in eight groups
static void powscan() {
  unsigned long long s = (unsigned long long)num() * 2654435769ull + 88172645463325252ull;
  long n = num();
  out.s("[");
  for (int g = 0; g < 8; g++) {
    double m = -1, a, r;
    unsigned bx = 0, by = 0;
    for (long i = 0; i < n; i++) {
      s ^= s << 13; s ^= s >> 7; s ^= s << 17;
      unsigned x = 0x00800000u + (unsigned)(s >> 33) % 0x7f000000u;
      unsigned y = (0x35000000u + (unsigned)(s % 0xe800000u)) | (unsigned)(s >> 3 & 1) << 31;
      if (g & 1) x = (x & 0x7fffff) | (unsigned)(123 + (s >> 40) % 9) << 23;
      double t = elem_ref(1, fl(x), 0) * fl(y);
      if (!(mag(t) < 85.9) || y == 0x3f800000u || y == 0x40000000u) continue;
      score(14, fl(x), fl(y), &a, &r);
      if (r > m) { m = r; bx = x; by = y; }
    }
    if (g) out.s(",");
    out.s("["); put(bx); out.s(","); put(by); out.s("]");
  }
  out.s("]");
}
int main() {
  while (next_line()) {
    const char *op = word();
    out.s("{\"res\":");
    if (is(op, "reset")) out.s("[]");
    else if (is(op, "scan")) scan();
    else if (is(op, "powscan")) powscan();
    else if (is(op, "fn")) {
      int f = fn_id();
      long k = num();
      unsigned q[2] = {0, 0};
      for (long i = 0; i < k; i++) q[i] = rd();
      out.s("[");
      put(un(run(f, fl(q[0]), fl(q[1]))));
      out.s(",");
      put(un(run(f, fl(q[0] ^ 0x80000000u), fl(q[1]))));   // the answer for the opposite argument
      out.s("]");
    } else bad_op(op);
    out.s(",\"st\":0}").flush();
  }
  return 0;
}
