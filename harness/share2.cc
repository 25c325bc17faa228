#include <cstdlib>
#include <cstring>
#include <typeinfo>
#define NANOSTL_TYPEINFO_H
namespace nanostl { using std::type_info; using std::bad_cast; }
#include "nanoutility.h"
#include "nanotype_traits.h"
#include "nanoinitializer_list.h"
#include "nanostring.h"
#include "nanoany.h"
#undef FASTFLOAT_FAST_FLOAT_H
#include "fast_float/fast_float.h"
#include "share.h"
typedef nanostl::string S;
static S text(int x) { S s; for (int i = 0; i <= x % 7; i++) s += S("ab"); return s; }
struct Any {
  typedef nanostl::any T;
  static void make(void *p, int x) { if (x % 3) new (p) T(text(x)); else if (x % 2) new (p) T(x); else new (p) T(); }
  static long get(const T &o, int how, int) { switch (how) { case 0: return o.has_value(); case 1: { const S *s = nonstd::any_cast<S>(&o); return s ? s->size() : 0; } case 2: { T c(o); return c.has_value(); } default: return o.type() == typeid(int); } }
  static long get2(const T &a, const T &b, int) { return a.type() == b.type(); }
  static void set(T &o, int how, int x) { switch (how) { case 0: o = text(x); break; case 1: o.reset(); break; case 2: o = x; break; default: { S *s = nonstd::any_cast<S>(&o); if (s) *s += S("y"); } } }
  static void copy(T &a, const T &b, int) { a = b; }
  static void swap(T &a, T &b, int how) { if (how & 1) a.swap(b); else a = static_cast<T &&>(b); }
};
int kinds2(Kind *k) { k[0] = Of<Any>::kind("any"); return 1; }
static long f_ff(int x) { char b[64]; int i = 0, n = x % 3 ? 3 + x % 40 : 60; for (; i < n; i++) b[i] = i == 2 ? '.' : '0' + (x * 7 + i * 3) % 10; float f; double d; return (fast_float::from_chars(b, b + n, f).ptr - b) + (fast_float::from_chars(b, b + n, d, fast_float::chars_format::fixed).ptr - b) + (long)d; }
static long both(const char *s, fast_float::chars_format f) { double d = 0; float g = 0; return (fast_float::from_chars(s, s + strlen(s), d, f).ptr - s) + (fast_float::from_chars(s, s + strlen(s), g, f).ptr - s) + (d > 1) + (g > 1); }
static long f_word(int x) {
  static const char *const w[] = {"nan", "-inf", "infinity", "nan(12)", "x", "1e-320", "1e400", "9007199254740993", "5e-324", "1.7976931348623159e308", "", "-", "+1", ".5", "1.e5", "-0", "1e", "00000000000000000000000000000000001.5"};
  return both(w[x % 18], x % 3 ? fast_float::chars_format::general : x % 2 ? fast_float::chars_format::fixed : fast_float::chars_format::scientific);
}
// texts that lie on or next to the middle between two neighbours, so that all digits matter
static long f_half(int x) {
  static const char *const w[] = {"9007199254740993.0000000000000000000000", "4503599627370496.50000000000000000000000000001", "16777217.000000000000000000000000", "8388608.49999999999999999999999999999999",
                           "1.00000000000000011102230246251565404236316680908203125", "1.00000005960464477539062500000000000000000000001", "2.47032822920623272088284396434110686182e-324", "7.00649232162408535461864791644958065640130970938257885878534141944895541342930300743319094181060791015625e-46",
                           "179769313486231580793728971405303415079934132710037826936173778980444968292764750946649017977587207096330286416692887910946555547851940402630657488671505820681908902000708383676273854845817711531764475730270069855571366959622842914819860834936475292719074168444365510704342711559699508093042880",
                           "340282356779733661637539395458142568447.9999999999", "1.5e30000000000", "100000000000000000000000000000000000000000000e-44"};
  return both(w[x % 12], fast_float::chars_format::general);
}
int fns2(Fn *f) { f[0] = f_ff; f[1] = f_word; f[2] = f_half; return 3; }
