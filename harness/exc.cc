// Executes scripts of operations on exception objects.  usage: exc <nslots>
#include <exception>
#include <system_error>
#include <type_traits>
#include "ob.h"
#include <setjmp.h>
// what the headers expect to find declared
namespace nonstd { namespace expected_lite { template <class E> class unexpected_type; template <class T, class E> class expected; } }
namespace nanostl {
using std::exception_ptr; using std::rethrow_exception; using std::error_code; using std::system_error; using std::current_exception;
using std::make_exception_ptr; using std::is_base_of; using nonstd::expected_lite::unexpected_type; using nonstd::expected_lite::expected;
inline void terminate() noexcept { abort(); }
}
#include "nanoutility.h"
#include "nanotype_traits.h"
#include "nanofunctional.h"
#include "nanoexception.h"
#include "nanostdexcept.h"
#include "nanoinitializer_list.h"
#include "nanostring.h"
#include "nanooptional.h"
#include "nanoexpected.h"
using namespace vf;
enum { N = 6, BASE = 1, LOGIC, OPT, SUB, EXP, USER, ANYBEA, SYS };
typedef Ob<1, false> E;
typedef nonstd::bad_expected_access<E> BEA;
typedef nonstd::bad_expected_access<void> BEV;
struct User : nanostl::exception {
  char *t; int x;
  User(const char *p, int y) : t(strdup(p)), x(y) {}
  User(const User &o) : nanostl::exception(o), t(strdup(o.t)), x(o.x) {}
  User &operator=(const User &o) { nanostl::exception::operator=(o); char *n = strdup(o.t); free(t); t = n; x = o.x; return *this; }
  ~User() noexcept { free(t); }
  const char *what() const noexcept { return t; }
};
struct Sub : nanostl::logic_error { explicit Sub(const char *p) : nanostl::logic_error(p) {} explicit Sub(const nanostl::string &p) : nanostl::logic_error(p) {} };
static nanostl::exception *slot[N];
static int kind[N];
static int n;
static void text(const char *p) { for (int i = 0; p[i]; i++) { if (i) out.s(","); out.i((unsigned char)p[i]); } }
static void seen(int h, int x, const nanostl::exception &e) {
  out.i(h).s(",").i(x);
  const char *p = e.what();
  if (*p) { out.s(","); text(p); }
  if (strcmp(p, e.what())) el_bad++;
}
static int errof(int i) { return kind[i] == EXP ? static_cast<BEA *>(slot[i])->error().v : kind[i] == USER ? static_cast<User *>(slot[i])->x : 0; }
static void state() {
  out.s("\"st\":{\"v\":[");
  for (int i = 0; i < n; i++) {
    if (i) out.s(",");
    out.s("[").i(kind[i]).s(",").i(kind[i] ? errof(i) : 0).s(",[");
    if (kind[i]) text(slot[i]->what());
    out.s("]]");
  }
  out.s("],\"live\":").i(el_live).s(",\"bad\":").i(el_bad + heap_bad).s("}");
}
static void drop(int i) { if (kind[i]) { delete slot[i]; slot[i] = 0; kind[i] = 0; } }      // through the virtual destructor
struct Txt { char *p; int n; Txt() { n = num(); p = (char *)malloc(n + 1); for (int i = 0; i < n; i++) p[i] = (char)num(); p[n] = 0; } ~Txt() { memset(p, '#', n); free(p); } };
template <class F> static void catching(int how, F f) {
  if (how == 0) {
    try { f(); }
    catch (const User &e) { seen(USER, e.x, e); }
    catch (const BEA &e) { seen(EXP, e.error().v, e); }
    catch (const Sub &e) { seen(SUB, 0, e); }
    catch (const nonstd::bad_optional_access &e) { seen(OPT, 0, e); }
    catch (const nanostl::logic_error &e) { seen(LOGIC, 0, e); }
    catch (const nanostl::exception &e) { seen(BASE, 0, e); }
    catch (const std::system_error &e) { out.i(SYS).s(",").i(e.code().value()); }
    catch (...) { out.s("-1"); }
  } else if (how == 1) {
    try { f(); }
    catch (nanostl::logic_error &e) { seen(LOGIC, 0, e); }
    catch (nanostl::exception &e) { seen(BASE, 0, e); }
    catch (...) { out.s("-1"); }
  } else if (how == 2) {
    try { f(); } catch (const nanostl::exception &e) { seen(BASE, 0, e); } catch (...) { out.s("-1"); }
  } else if (how == 3) {
    try { try { f(); } catch (nanostl::exception &) { throw; } } catch (const nanostl::exception &e) { seen(BASE, 0, e); } catch (...) { out.s("-1"); }
  } else if (how == 5) {
    try { f(); } catch (const BEV &e) { seen(ANYBEA, 0, e); } catch (const nanostl::exception &e) { seen(BASE, 0, e); } catch (...) { out.s("-1"); }
  } else {
    try { f(); } catch (nanostl::exception e) { seen(BASE, 0, e); } catch (...) { out.s("-1"); }
  }
}
struct Thrower { int s; void operator()() const {
  switch (kind[s]) {
    case BASE: throw nanostl::exception(*slot[s]);
    case LOGIC: throw *static_cast<nanostl::logic_error *>(slot[s]);
    case OPT: throw *static_cast<nonstd::bad_optional_access *>(slot[s]);
    case SUB: throw *static_cast<Sub *>(slot[s]);
    case EXP: throw *static_cast<BEA *>(slot[s]);
    case USER: throw *static_cast<User *>(slot[s]);
  } } };
// value() of something without a value, through every kind of reference
template <class O> static void value_of(O &o, int w) {
  switch (w) {
    case 0: (void)o.value(); break;
    case 1: (void)static_cast<const O &>(o).value(); break;
    case 2: (void)nanostl::move(o).value(); break;
    default: (void)static_cast<const O &&>(o).value();
  }
}
struct Raiser { int k, x, w; void operator()() const {
  if (k == OPT) { if (x & 1) { nonstd::optional<int> o(5); o = nonstd::nullopt; value_of(o, w); } else { nonstd::optional<nanostl::string> o; value_of(o, w); } }
  else if (k == SYS) { nonstd::expected<int, nanostl::error_code> e(nonstd::unexpect, nanostl::error_code(x, std::generic_category())); value_of(e, w); }
  else if (w == 4) { nonstd::expected<void, E> e(nonstd::unexpect, E(x)); e.value(); }
  else if (w == 5) { const nonstd::expected<void, E> e((nonstd::unexpected_type<E>(E(x)))); e.value(); }
  else { nonstd::expected<nanostl::string, E> e(nonstd::unexpect, E(x)); value_of(e, w); if (e.error().v != x) el_bad++; }
  } };
// an expected holding a captured exception throws that exception
struct Carrier { int s, w; void operator()() const {
  nanostl::exception_ptr p;
  Thrower t; t.s = s;
  try { t(); } catch (...) { p = nanostl::current_exception(); }
  nonstd::expected<int, nanostl::exception_ptr> e(nonstd::unexpect, p);
  value_of(e, w);
  } };
static void one(const char *op) {
  if (is(op, "reset")) { for (int i = 0; i < N; i++) drop(i); if (heap_live || el_live) el_bad++; tab_reset(); return; }
  if (is(op, "raise")) { Raiser r; r.k = num(); r.x = num(); int how = num(); r.w = num(); catching(how, r); return; }
  int s = num() - 1;
  if (is(op, "new")) {
    int k = num(), x = num(), how = num(); Txt q;
    switch (k) {
      case BASE: slot[s] = new nanostl::exception(); break;
      case LOGIC: if (how == 0) slot[s] = new nanostl::logic_error(q.p); else { nanostl::string t(q.p); slot[s] = new nanostl::logic_error(t); for (unsigned i = 0; i < t.size(); i++) t[i] = '#'; } break;
      case OPT: slot[s] = new nonstd::bad_optional_access(); break;
      case SUB: if (how == 0) slot[s] = new Sub(q.p); else { nanostl::string t(q.p); slot[s] = new Sub(t); for (unsigned i = 0; i < t.size(); i++) t[i] = '#'; } break;
      case EXP: slot[s] = new BEA(E(x)); break;
      case USER: slot[s] = new User(q.p, x); break;
    }
    kind[s] = k;
  } else if (is(op, "copy")) {
    int t = num() - 1;
    switch (kind[t]) {
      case BASE: slot[s] = new nanostl::exception(*slot[t]); break;
      case LOGIC: slot[s] = new nanostl::logic_error(*static_cast<nanostl::logic_error *>(slot[t])); break;
      case OPT: slot[s] = new nonstd::bad_optional_access(*static_cast<nonstd::bad_optional_access *>(slot[t])); break;
      case SUB: slot[s] = new Sub(*static_cast<Sub *>(slot[t])); break;
      case EXP: slot[s] = new BEA(*static_cast<BEA *>(slot[t])); break;
      case USER: slot[s] = new User(*static_cast<User *>(slot[t])); break;
    }
    kind[s] = kind[t];
  } else if (is(op, "set")) {
    int t = num() - 1;
    switch (kind[t]) {
      case BASE: *slot[s] = *slot[t]; break;
      case LOGIC: *static_cast<nanostl::logic_error *>(slot[s]) = *static_cast<nanostl::logic_error *>(slot[t]); break;
      case OPT: *static_cast<nonstd::bad_optional_access *>(slot[s]) = *static_cast<nonstd::bad_optional_access *>(slot[t]); break;
      case SUB: *static_cast<Sub *>(slot[s]) = *static_cast<Sub *>(slot[t]); break;
      case EXP: *static_cast<BEA *>(slot[s]) = *static_cast<BEA *>(slot[t]); break;
      case USER: *static_cast<User *>(slot[s]) = *static_cast<User *>(slot[t]); break;
    }
  } else if (is(op, "slice")) { int t = num() - 1; slot[s] = new nanostl::exception(*slot[t]); kind[s] = BASE; }
  else if (is(op, "setbase")) { int t = num() - 1; if (&(*slot[s] = *slot[t]) != slot[s]) el_bad++; }
  else if (is(op, "poke")) static_cast<BEA *>(slot[s])->error() = E(num());
  else if (is(op, "take")) {
    BEA *b = static_cast<BEA *>(slot[s]);
    switch (num()) {
      case 0: { E e(b->error()); out.i(e.v); break; }
      case 1: { E e(static_cast<const BEA *>(b)->error()); out.i(e.v); break; }
      case 2: { E e(nanostl::move(*b).error()); out.i(e.v); break; }
      case 3: { E e(static_cast<const BEA &&>(*b).error()); out.i(e.v); break; }
    }
  }
  else if (is(op, "carry")) { Carrier c; c.s = s; int how = num(); c.w = num(); catching(how, c); }
  else if (is(op, "del")) drop(s);
  else if (is(op, "throw")) { Thrower t; t.s = s; catching(num(), t); }
  else bad_op(op);
}
int main(int, char **argv) {
  n = atoi(argv[1]);
  while (next_line()) { const char *op = word(); out.s("{\"res\":["); heap_on = true; one(op); heap_on = false; out.s("],"); state(); out.s("}"); out.flush(); }
  return 0;
}
