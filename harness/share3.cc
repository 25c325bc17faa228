#include <exception>
#include <system_error>
#include <type_traits>
#include "__hashfunc.h"
namespace nonstd { namespace expected_lite { template <class E> class unexpected_type; template <class T, class E> class expected; } }
namespace nanostl {
using std::exception_ptr; using std::rethrow_exception; using std::error_code; using std::system_error; using std::current_exception;
using std::make_exception_ptr; using std::is_base_of; using nonstd::expected_lite::unexpected_type; using nonstd::expected_lite::expected;
}
#include "nanoutility.h"
#include "nanofunctional.h"
#include "nanostring.h"
#include "nanoexpected.h"
#include "share.h"
typedef nanostl::string S;
static S text(int x) { S s; for (int i = 0; i <= x % 7; i++) s += S("ab"); return s; }
struct Exp {
  typedef nanostl::expected<S, int> T;
  typedef nonstd::unexpected_type<int> Un;
  static void make(void *p, int x) { if (x % 3) new (p) T(text(x)); else new (p) T(Un(x)); }
  static long get(const T &o, int how, int x) { switch (how) { case 0: return o.has_value() + (bool)o; case 1: return o ? (*o).size() : o.error(); case 2: { T c(o); return (bool)c; } default: return o.value_or(text(x)).size(); } }
  static long get2(const T &a, const T &b, int) { return a == b; }
  static void set(T &o, int how, int x) { switch (how) { case 0: o = text(x); break; case 1: o = Un(x); break; case 2: o = T(text(x)); break; default: if (o) *o += S("y"); } }
  static void copy(T &a, const T &b, int) { a = b; }
  static void swap(T &a, T &b, int how) { if (how & 1) a.swap(b); else a = static_cast<T &&>(b); }
};
int kinds3(Kind *k) { k[0] = Of<Exp>::kind("expected"); return 1; }
static long f_sip(int x) { unsigned char m[32], k[16], o[8]; for (int i = 0; i < 32; i++) m[i] = x + i; for (int i = 0; i < 16; i++) k[i] = i; nanostl::siphash(m, x % 32, k, o, 8); return o[0]; }
int fns3(Fn *f) { f[0] = f_sip; return 1; }
