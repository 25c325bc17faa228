// hash<T> and less<T>.  Batches: values as 16-bit chunks, most significant first.
#include "nanofunctional.h"
#include "vf.h"
using namespace vf;
static unsigned long long rd() { long c = num(); unsigned long long v = 0; while (c--) v = v << 16 | (unsigned long long)num(); return v; }
static void put(unsigned long long v) { out.s("["); for (int i = 3; i >= 0; i--) { out.i(v >> (16 * i) & 65535); if (i) out.s(","); } out.s("]"); }
template <class T> struct From { static T get(unsigned long long v) { return (T)v; } };
template <> struct From<float> { static float get(unsigned long long v) { unsigned u = (unsigned)v; float f; memcpy(&f, &u, 4); return f; } };
template <> struct From<double> { static double get(unsigned long long v) { double f; memcpy(&f, &v, 8); return f; } };
template <> struct From<decltype(nullptr)> { static decltype(nullptr) get(unsigned long long) { return nullptr; } };
struct Rev { int v; };   // ordered backwards, and only by <
static bool operator<(const Rev &a, const Rev &b) { return a.v > b.v; }
template <> struct From<Rev> { static Rev get(unsigned long long v) { Rev r = {(int)v}; return r; } };
template <class T> static void hashes() {
  long n = num();
  const nanostl::hash<T> keep = nanostl::hash<T>();
  for (long i = 0; i < n; i++) {
    T v = From<T>::get(rd());
    if (i) out.s(",");
    put(i % 3 ? keep(v) : nanostl::hash<T>()(v));
  }
}
template <class T> static void lesses() {
  long n = num();
  const nanostl::less<T> le = nanostl::less<T>();
  for (long i = 0; i < n; i++) {
    num();
    T a = From<T>::get(rd()), b = From<T>::get(rd());
    if (i) out.s(",");
    out.i(le(a, b) ? 1 : 0);
  }
}
template <class T> static void run(bool h) { if (h) hashes<T>(); else lesses<T>(); }
int main() {
  while (next_line()) {
    const char *op = word();
    out.s("{\"res\":[");
    if (!is(op, "reset")) {
      bool h = is(op, "hash");
      if (!h && !is(op, "less")) bad_op(op);
      const char *t = word();
      if (is(t, "bool")) run<bool>(h);
      else if (is(t, "schar")) run<signed char>(h);
      else if (is(t, "uchar")) run<unsigned char>(h);
      else if (is(t, "short")) run<short>(h);
      else if (is(t, "ushort")) run<unsigned short>(h);
      else if (is(t, "int")) run<int>(h);
      else if (is(t, "uint")) run<unsigned>(h);
      else if (is(t, "long")) run<long>(h);
      else if (is(t, "ulong")) run<unsigned long>(h);
      else if (is(t, "llong")) run<long long>(h);
      else if (is(t, "ullong")) run<unsigned long long>(h);
      else if (is(t, "float")) run<float>(h);
      else if (is(t, "double")) run<double>(h);
      else if (is(t, "nullptr") && h) hashes<decltype(nullptr)>();
      else if (is(t, "rev") && !h) lesses<Rev>();
      else bad_op(t);
    }
    out.s("],\"st\":0}").flush();
  }
  return 0;
}
