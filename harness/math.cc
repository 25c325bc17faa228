// Functions of nanomath.h and nanolimits.h on bit patterns (16-bit chunks, most significant first).
#include "nanomath.h"
#include "nanolimits.h"
#include "vf.h"
using namespace vf;
static unsigned long long rd() { long c = num(); unsigned long long v = 0; while (c--) v = v << 16 | (unsigned long long)num(); return v; }
static void put(unsigned long long v, int n) { out.s("["); while (n--) { out.i(v >> (16 * n) & 65535); if (n) out.s(","); } out.s("]"); }
template <class F> struct I; template <> struct I<float> { typedef unsigned T; }; template <> struct I<double> { typedef unsigned long long T; };
template <class F> static F as(unsigned long long v) { typename I<F>::T t = (typename I<F>::T)v; F f; memcpy(&f, &t, sizeof f); return f; }
template <class F> static void bits(F f) { typename I<F>::T t; memcpy(&t, &f, sizeof f); put(t, sizeof(F) / 2); }
static float sgn(float x, float y) { return nanostl::copysign(x, y); }
static double sgn(double, double) { bad_op("copysign"); return 0; }
template <class F> static void fn(const char *op) {
  long k = num();
  F a[3];
  for (long i = 0; i < k; i++) a[i] = as<F>(rd());
  if (is(op, "class")) out.s("[").i(nanostl::isnan(a[0]) ? 1 : 0).s(",").i(nanostl::isinf(a[0]) ? 1 : 0).s(",").i(nanostl::isfinite(a[0]) ? 1 : 0).s(",").i(nanostl::isnormal(a[0]) ? 1 : 0).s("]");
  else if (is(op, "floor")) bits<F>(nanostl::floor(a[0]));
  else if (is(op, "ceil")) bits<F>(nanostl::ceil(a[0]));
  else if (is(op, "fabs")) bits<F>(nanostl::fabs(a[0]));
  else if (is(op, "copysign")) bits<F>(sgn(a[0], a[1]));
  else if (is(op, "fmin")) bits<F>(nanostl::fmin(a[0], a[1]));
  else if (is(op, "fmax")) bits<F>(nanostl::fmax(a[0], a[1]));
  else if (is(op, "clamp")) bits<F>(nanostl::clamp(a[0], a[1], a[2]));
  else bad_op(op);
}
#ifdef LIMITS
#define LIM(n) out.s(",\"" #n "\":")
template <class T> static void lim() {
  typedef nanostl::numeric_limits<T> L;
  int w = sizeof(T) * 8, b = (T)2 == (T)1 ? 1 : w, c = (w + 15) / 16;
  unsigned long long mask = w == 64 ? ~0ull : (1ull << w) - 1;
  const int d = L::digits10;
  out.s("{\"sg\":").i((T)-1 < (T)0 ? 1 : 0).s(",\"bits\":").i(b).s(",\"d10\":").i(d);
  LIM(min); put((unsigned long long)L::min() & mask, c);
  LIM(max); put((unsigned long long)L::max() & mask, c);
  LIM(eps); put((unsigned long long)L::epsilon() & mask, c);
  out.s("}");
}
template <class T> static void flim() {
  typedef nanostl::numeric_limits<T> L;
  const int d = L::digits10;
  out.s("{\"d10\":").i(d);
  LIM(min); bits<T>(L::min());
  LIM(max); bits<T>(L::max());
  LIM(eps); bits<T>(L::epsilon());
  LIM(denorm); bits<T>(L::denorm_min());
  LIM(inf); bits<T>(L::infinity());
  LIM(qnan); bits<T>(L::quiet_NaN());
  LIM(snan); bits<T>(L::signaling_NaN());
  out.s("}");
}
static void limits() {
  const char *t = word();
  if (is(t, "bool")) lim<bool>();
  else if (is(t, "char")) lim<char>();
  else if (is(t, "uchar")) lim<unsigned char>();
  else if (is(t, "short")) lim<short>();
  else if (is(t, "ushort")) lim<unsigned short>();
  else if (is(t, "int")) lim<int>();
  else if (is(t, "uint")) lim<unsigned>();
  else if (is(t, "llong")) lim<long long>();
  else if (is(t, "ullong")) lim<unsigned long long>();
  else if (is(t, "float")) flim<float>();
  else if (is(t, "double")) flim<double>();
  else bad_op(t);
}
#else
static void limits() { bad_op("limits"); }
#endif
static int code(float f) { return (nanostl::isnan(f) ? 1 : 0) | (nanostl::isinf(f) ? 2 : 0) | (nanostl::isfinite(f) ? 4 : 0) | (nanostl::isnormal(f) ? 8 : 0); }
static void sweep() {
  unsigned s = (unsigned)num(), e = (unsigned)num(), base = s << 31 | e << 23, from = 0;
  int c = code(as<float>(base)), shown = 0;
  out.s("[");
  for (unsigned f = 1; f <= 1u << 23; f++) {
    int d = f < 1u << 23 ? code(as<float>(base | f)) : -1;
    if (d == c) continue;
    if (shown++ < 64) out.s(shown > 1 ? ",[" : "[").i(from).s(",").i(f - 1).s(",[").i(c & 1).s(",").i(c >> 1 & 1).s(",").i(c >> 2 & 1).s(",").i(c >> 3 & 1).s("]]");
    from = f; c = d;
  }
  out.s("]");
}
int main() {
  while (next_line()) {
    const char *op = word();
    out.s("{\"res\":");
    if (is(op, "reset")) out.s("[]");
    else if (is(op, "sweep")) sweep();
    else if (is(op, "limits")) limits();
    else { const char *t = word(); if (is(t, "float")) fn<float>(op); else if (is(t, "double")) fn<double>(op); else bad_op(t); }
    out.s(",\"st\":0}").flush();
  }
  return 0;
}
