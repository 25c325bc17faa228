#define NANOSTL_IMPLEMENTATION
#include "nanoutility.h"
#include "nanotype_traits.h"
#include "nanofunctional.h"
#include "nanoexception.h"
#include "nanoinitializer_list.h"
#include "nanovector.h"
#include "nanovalarray.h"
#include "nanostring.h"
#include "nanosstream.h"
#include "nanomap.h"
#include "nanooptional.h"
#include "nanovariant.h"
#include "nanomemory.h"
#include "nanotuple.h"
#include "nanoalgorithm.h"
#include "nanomath.h"
#include "nanolimits.h"
#include "nanocstring.h"
#include "share.h"
typedef nanostl::string S;
static S text(int x) { S s; for (int i = 0; i <= x % 7; i++) { char c[2] = {(char)('a' + (x + i) % 26), 0}; s += S(c); } return s; }
template <class V, class E> static V &fillup(V &v, int x) { v.resize(0); v.resize(x % 9); for (int i = 0; i < x % 9; i++) v[i] = E(i + x); return v; }
static long of(int i) { return i; }
static long of(float i) { return (long)i; }
static long of(const S &s) { return s.size() ? s[s.size() - 1] : 0; }
static int el(int x, int *) { return x; }
static float el(int x, float *) { return x; }
static S el(int x, S *) { return text(x); }
template <class V, class E> struct Seq {
  typedef V T;
  static void make(void *p, int x) { V *v = new (p) V(); v->resize(x % 5); for (int i = 0; i < x % 5; i++) (*v)[i] = el(x + i, (E *)0); }
  static long get(const V &v, int how, int x) {
    long n = v.size() + v.empty() + v.capacity();
    switch (how) {
      case 0: for (typename V::const_iterator it = v.begin(); it != v.end(); ++it) n += of(*it); break;
      case 1: if (v.size()) n += of(v[x % v.size()]); break;
      case 2: { V c(v); n += c.size(); break; }
      default: { V c; c = v; n += c.size(); }
    }
    return n;
  }
  static long get2(const V &a, const V &b, int) { V c(a); c = b; return c.size(); }
  static void set(V &v, int how, int x) {
    switch (how) {
      case 0: v.resize(v.size() + 1); v[v.size() - 1] = el(x, (E *)0); break;
      case 1: v.clear(); break;
      case 2: if (v.size()) v.erase(v.begin() + x % v.size()); break;
      default: v.resize(x % 12); if (v.size()) v.data()[0] = el(x, (E *)0);
    }
  }
  static void copy(V &a, const V &b, int how) { if (how & 1) a = b; else a.assign(b.begin(), b.end()); }
  static void swap(V &a, V &b, int) { a.swap(b); }
};
template <class E> struct Vec : Seq<nanostl::vector<E>, E> {
  typedef nanostl::vector<E> V;
  static void set(V &v, int how, int x) { if (how == 0) v.push_back(el(x, (E *)0)); else if (how == 3 && v.size()) v.pop_back(); else Seq<V, E>::set(v, how, x); }
  static long get(const V &v, int how, int x) { return how == 1 && v.size() ? of(v.at(x % v.size())) : Seq<V, E>::get(v, how, x); }
};
struct Str {
  typedef S T;
  static void make(void *p, int x) { new (p) S(text(x)); }
  static long get(const S &s, int how, int x) {
    switch (how) { case 0: return s.size() + s.length() + s.empty() + s.c_str()[0]; case 1: { S c(s); return c.size(); } case 2: return (s == "abc") + s.compare("b") + (s < "k"); default: return s[x % (s.size() + 1)] + s.at(0); }
  }
  static long get2(const S &a, const S &b, int how) { switch (how) { case 0: return (a == b) + (a != b); case 1: return (a < b) + (a > b); case 2: return a.compare(b); default: return (a + b).size(); } }
  static void set(S &s, int how, int x) { switch (how) { case 0: s += text(x); break; case 1: s.clear(); break; case 2: if (s.size()) s[x % s.size()] = 'z'; break; default: if (s.size()) s.erase(&s[x % s.size()]); } }
  static void copy(S &a, const S &b, int how) { if (how & 1) a = b; else a += b; }
  static void swap(S &a, S &b, int) { nanostl::swap(a, b); }
};
struct Ss {
  typedef nanostl::stringstream T;
  static void make(void *p, int x) { T *t = new (p) T(); *t << text(x); }
  static long get(const T &s, int, int) { return const_cast<T &>(s).str().size(); }
  static long get2(const T &a, const T &b, int) { return get(a, 0, 0) + get(b, 0, 0); }
  static void set(T &s, int how, int x) { if (how == 1) s.clear(); else if (how == 2) s << text(x) << "q"; else s << text(x); }
  static void copy(T &a, const T &b, int) { a << const_cast<T &>(b).str(); }
  static void swap(T &a, T &b, int) { a = static_cast<T &&>(b); }
};
template <class K, class M> struct Map {
  typedef nanostl::map<K, M> T;
  typedef typename T::value_type P;
  static K key(int x) { return el(x, (K *)0); }
  static void make(void *p, int x) { T *m = new (p) T(); for (int i = 0; i < x % 6; i++) m->insert(P(key((x * 7 + i * 5) % 40), el(i, (M *)0))); }
  static long get(const T &c, int how, int x) {
    switch (how) {
      case 0: { typename T::const_iterator it = c.find(key(x % 40)); return it == c.end() ? 0 : of(it->second); }
      case 1: { typename T::const_iterator it = c.upper_bound(key(x % 40)); return it == c.end() ? 0 : of(it->second); }
      case 2: { T d(c); return d.empty(); }
      default: return c.empty() + (c.find(key(x)) == c.end());
    }
  }
  static long get2(const T &a, const T &b, int) { T d(a); d = b; return d.empty(); }
  static void set(T &m, int how, int x) {
    if (how == 1) { T e; m = e; } else if (how == 2) { typename T::iterator it = m.begin(); if (it != m.end()) it->second = el(x, (M *)0); }
    else if (how == 3) { long n = 0; for (typename T::iterator it = m.begin(); it != m.end(); ++it) n++; if (n > 12) { T e; m = e; } }
    else m.insert(P(key(x % 40), el(x, (M *)0)));
  }
  static void copy(T &a, const T &b, int) { a = b; }
  static void swap(T &a, T &b, int) { nanostl::swap(a, b); }
};
struct Opt {
  typedef nonstd::optional<S> T;
  static void make(void *p, int x) { if (x % 3) new (p) T(text(x)); else new (p) T(); }
  static long get(const T &o, int how, int x) { switch (how) { case 0: return o.has_value() + (bool)o; case 1: return o ? of(*o) + o->size() : 0; case 2: { T c(o); return (bool)c; } default: return o.value_or(text(x)).size(); } }
  static long get2(const T &a, const T &b, int how) { return how & 1 ? (a == b) : (a < b); }
  static void set(T &o, int how, int x) { switch (how) { case 0: o = text(x); break; case 1: o.reset(); break; case 2: o.emplace(text(x)); break; default: if (o) *o += S("k"); } }
  static void copy(T &a, const T &b, int) { a = b; }
  static void swap(T &a, T &b, int how) { if (how & 1) a.swap(b); else a = static_cast<T &&>(b); }
};
struct Var {
  typedef nanostl::variant<int, S, float> T;
  struct V { template <class X> long operator()(const X &x) const { return of(x); } };
  static void make(void *p, int x) { if (x % 2) new (p) T(text(x)); else new (p) T(x); }
  static long get(const T &o, int how, int) { switch (how) { case 0: return o.index(); case 1: return nonstd::visit(V(), o); case 2: { T c(o); return c.index(); } default: return nonstd::get_if<S>(&o) ? nonstd::get<S>(o).size() : nonstd::holds_alternative<float>(o); } }
  static long get2(const T &a, const T &b, int how) { return how & 1 ? (a == b) : (a < b); }
  static void set(T &o, int how, int x) { switch (how) { case 0: o = text(x); break; case 1: o = x; break; case 2: o.template emplace<1>(text(x)); break; default: o = 1.5f; } }
  static void copy(T &a, const T &b, int) { a = b; }
  static void swap(T &a, T &b, int how) { if (how & 1) a.swap(b); else a = static_cast<T &&>(b); }
};
struct Upt {
  typedef nanostl::unique_ptr<S> T;
  static void make(void *p, int x) { new (p) T(x % 4 ? new S(text(x)) : 0); }
  static long get(const T &o, int how, int) { switch (how) { case 0: return o.get() != 0; case 1: return o ? of(*o) : 0; case 2: return o ? o->size() : 0; default: return o == nullptr; } }
  static long get2(const T &a, const T &b, int how) { return how & 1 ? (a == b) : (a < b); }
  static void set(T &o, int how, int x) { switch (how) { case 0: o.reset(new S(text(x))); break; case 1: delete o.release(); break; case 2: o = nullptr; break; default: if (o) *o += S("u"); } }
  static void copy(T &a, const T &b, int) { a.reset(b ? new S(*b) : 0); }
  static void swap(T &a, T &b, int how) { if (how & 1) a.swap(b); else a = static_cast<T &&>(b); }
};
struct Tup {
  typedef tao::tuple<int, S> T;
  static void make(void *p, int x) { new (p) T(x, text(x)); }
  static long get(const T &o, int how, int) { if (how & 1) { T c(o); return tao::get<0>(c); } return tao::get<0>(o) + tao::get<1>(o).size(); }
  static long get2(const T &a, const T &b, int how) { return how & 1 ? (a == b) : (a < b); }
  static void set(T &o, int how, int x) { if (how & 1) tao::get<1>(o) = text(x); else o = tao::make_tuple(x, text(x)); }
  static void copy(T &a, const T &b, int) { a = b; }
  static void swap(T &a, T &b, int) { a.swap(b); }
};
struct Pr {
  typedef nanostl::pair<int, S> T;
  static void make(void *p, int x) { new (p) T(x, text(x)); }
  static long get(const T &o, int how, int) { if (how & 1) { T c(o); return c.first; } return o.first + o.second.size(); }
  static long get2(const T &a, const T &b, int) { return a.first + of(b.second); }
  static void set(T &o, int how, int x) { if (how & 1) o.second = text(x); else o = nanostl::make_pair(x, text(x)); }
  static void copy(T &a, const T &b, int) { a = b; }
  static void swap(T &a, T &b, int) { T c(a); a = b; b = c; }
};
int kinds1(Kind *k) {
  int n = 0;
  k[n++] = Of<Vec<int> >::kind("vector<int>"); k[n++] = Of<Vec<S> >::kind("vector<string>"); k[n++] = Of<Seq<nanostl::valarray<float>, float> >::kind("valarray");
  k[n++] = Of<Str>::kind("string"); k[n++] = Of<Ss>::kind("stringstream"); k[n++] = Of<Map<int, int> >::kind("map<int,int>"); k[n++] = Of<Map<S, S> >::kind("map<string,string>");
  k[n++] = Of<Opt>::kind("optional"); k[n++] = Of<Var>::kind("variant"); k[n++] = Of<Upt>::kind("unique_ptr"); k[n++] = Of<Tup>::kind("tuple"); k[n++] = Of<Pr>::kind("pair");
  return n;
}
static long f_int(int x) { return of(nanostl::to_string(x * 7919 - 50000)) + of(nanostl::to_string((unsigned)x * 99991u)); }
static long f_64(int x) { return of(nanostl::to_string((nanostl::int64_t)x * -1234567891234ll)) + of(nanostl::to_string((nanostl::uint64_t)x * 987654321234567ull)); }
static unsigned mix(unsigned x) { x ^= x >> 16; x *= 0x7feb352du; x ^= x >> 15; x *= 0x846ca68bu; return x ^ x >> 16; }
// a number of any size: special, whole, short, or with random bits
static double num(int x, int k) {
  unsigned a = mix(x * 64 + k), b = mix(a);
  switch (k % 8) {
    case 0: return (double)(int)a;
    case 1: { double r = 1; for (unsigned i = 0; i < a % 23; i++) r *= 10; return b % 2 ? r : 1 / r; }
    case 2: { static const double w[] = {0, -0.0, 0.1, 0.5, 1, 123456, 1e21, 1e-7, 4.9406564584124654e-324, 1.7976931348623157e308, 9007199254740993.0, 5e-324, 0.3, 1.0 / 3}; return w[a % 14]; }
    case 3: { unsigned long long u = 0x7ff0000000000000ull | (a % 3 ? 0 : 1ull << 51) | (unsigned long long)(b % 2) << 63; double d; __builtin_memcpy(&d, &u, 8); return d; }
    case 4: return (a % 1000000) / 1000.0;
    case 5: return (double)((unsigned long long)(a & 0xfffff) << 32 | b);
    default: { unsigned long long u = (unsigned long long)a << 32 | b; double d; __builtin_memcpy(&d, &u, 8); return d == d ? d : 1.5; }
  }
}
static long f_flt(int x) { long n = 0; for (int k = 0; k < 24; k++) { float f = (float)num(x, k); if (k % 8 == 7) { unsigned u = mix(x + k); __builtin_memcpy(&f, &u, 4); } n += of(nanostl::to_string(f)); } return n; }
static long f_dbl(int x) { long n = 0; for (int k = 0; k < 24; k++) n += of(nanostl::to_string(num(x, k))); return n; }
static long f_sto(int x) { char b[16] = {(char)('1' + x % 9), '.', '5', '0', (char)('0' + x % 10), 'e', (char)('0' + x % 10), 0}; nanostl::size_t n; return (long)nanostl::stof(S(b), &n) + (long)nanostl::stod(S(b), &n) + n; }
static long f_long(int x) { char b[64]; int i = 0; for (; i < 40 + x % 20; i++) b[i] = i == 1 ? '.' : '0' + (x * 7 + i * 3) % 10; b[i] = 0; return (long)nanostl::stof(S(b)) + (long)nanostl::stod(S(b)); }
static long f_back(int x) { long n = 0; for (int k = 0; k < 24; k++) { S t = nanostl::to_string(num(x, k)); nanostl::size_t p; n += nanostl::stod(t, &p) > 0; n += nanostl::stof(t) > 0; n += p; } return n; }
static long m1(float a) { return (nanostl::sqrt(a) > 1) + (nanostl::exp(a) > 1) + (nanostl::log(a) > 1) + (nanostl::log10(a) > 1) + (nanostl::sin(a) > 0) + (nanostl::cos(a) > 0) + (nanostl::tan(a) > 0) + (nanostl::sinh(a) > 1) + (nanostl::cosh(a) > 2) + (nanostl::tanh(a) > 0) + (nanostl::erf(a) > 0) + (nanostl::erfc(a) > 0) + (nanostl::cbrt(a) > 0) + (nanostl::ierf(a) > 0); }
static long f_math(int x) { long n = 0; for (int k = 0; k < 16; k++) n += m1((float)num(x, k)) + m1((mix(x + k) % 2000) * 0.01f - 10); return n; }
static long f_pow(int x) { static const float ws[] = {0, 1, -1, 2, 3, -2, .5f, -3.5f, 100, 1e30f, -1e30f}; long n = 0; for (int k = 0; k < 16; k++) { float a = (float)num(x, k), b = ws[mix(x * 7 + k) % 11]; n += (nanostl::pow(a, b) > 1) + (nanostl::pow(b, a) > 1) + (nanostl::pow((mix(k + x) % 100) * .1f, b) > 1); } return n; }
static long f_class(int x) { float a = x; double d = x; return nanostl::isnan(a) + nanostl::isinf(d) + nanostl::isfinite(a) + nanostl::isnormal(d) + (long)nanostl::floor(a + .5f) + (long)nanostl::ceil(d) + (long)nanostl::fmax(a, 3.f) + (long)nanostl::fmin(d, 2.0) + (nanostl::numeric_limits<float>::infinity() > a) + (nanostl::numeric_limits<double>::quiet_NaN() == d) + (long)nanostl::numeric_limits<double>::max(); }
static long f_alg(int x) { int a[8]; nanostl::fill(a, a + 8, x); a[x % 8] = x + 1; int b[8]; nanostl::memcpy(b, a, sizeof b); nanostl::swap(a[0], b[1]); return *nanostl::max_element(a, a + 8) + nanostl::min(a[1], b[2]) + nanostl::max(a[3], b[4]); }
static long f_hash(int x) { return nanostl::hash<int>()(x) + nanostl::hash<float>()(x * .5f) + nanostl::hash<double>()(x * .25) + nanostl::hash<long long>()(x); }
static long f_va(int x) { nanostl::valarray<float> v; v.resize(4); for (int i = 0; i < 4; i++) v[i] = x * .1f; nanostl::valarray<float> w = nanostl::sin(v); return (long)w[0]; }
int fns1(Fn *f) { int n = 0; f[n++] = f_int; f[n++] = f_64; f[n++] = f_flt; f[n++] = f_dbl; f[n++] = f_sto; f[n++] = f_long; f[n++] = f_math; f[n++] = f_class; f[n++] = f_alg; f[n++] = f_hash; f[n++] = f_va; f[n++] = f_back; f[n++] = f_pow; return n; }
