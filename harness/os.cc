// Executes scripts of output stream operations.  usage: os <nslots>
// The standard output is a scratch file while the script runs; answers go to the original one.
#include <unistd.h>
#include <fcntl.h>
#include "vf.h"
#define NANOSTL_IMPLEMENTATION
#include "nanoiostream.h"
using namespace vf;
nanostl::ostream &elsewhere(const char *q);                       // os2.cc
nanostl::ostream &elsewhere(nanostl::ostream &o, const char *q);
enum { N = 4 };
typedef nanostl::ostream O;
static O *slot[N];
static int n, cap;
static FILE *ans;
static long long at = 0;
struct Txt { char *p; int n; Txt() { n = num(); p = (char *)malloc(n + 1); for (int i = 0; i < n; i++) p[i] = (char)num(); p[n] = 0; } ~Txt() { free(p); } };
static void codes(const char *s, long k) { for (long i = 0; i < k; i++) { if (i) out.s(","); out.i((unsigned char)s[i]); } }
static void text(const nanostl::string &t) { codes(t.c_str(), t.size()); }
// what reached the standard output since the last call
static char *got; static long gotn;
static void collect() {
  fflush(stdout);
  off_t e = lseek(cap, 0, SEEK_END);
  gotn = e - at; got = (char *)realloc(got, gotn + 1);
  if (pread(cap, got, gotn, at) != gotn) exit(77);
  at = e;
}
static unsigned long long chunks() { long k = num(); unsigned long long v = 0; while (k--) v = v << 16 | (unsigned long long)num(); return v; }
template <class T, class U> static T as(U u) { T t; memcpy(&t, &u, sizeof t); return t; }
static O &value(O &o, int k, unsigned long long v, nanostl::string *t) {
  // the text is to_string's; small integers are the int of the same value
  switch (k) {
    case 0: *t = nanostl::to_string((int)(v != 0)); return o << (bool)v;
    case 1: *t = nanostl::to_string((int)(short)v); return o << (short)v;
    case 2: *t = nanostl::to_string((int)(unsigned short)v); return o << (unsigned short)v;
    case 3: *t = nanostl::to_string((int)v); return o << (int)v;
    case 4: *t = nanostl::to_string((unsigned)v); return o << (unsigned)v;
    case 5: *t = nanostl::to_string((nanostl::int64_t)v); return o << (long long)v;
    case 6: *t = nanostl::to_string((nanostl::uint64_t)v); return o << (unsigned long long)v;
    case 7: *t = nanostl::to_string(as<float>((unsigned)v)); return o << as<float>((unsigned)v);
    default: *t = nanostl::to_string(as<double>(v)); return o << as<double>(v);
  }
}
static void drop(int i) { if (slot[i]) { slot[i]->~O(); free(slot[i]); slot[i] = 0; } }
static void one(const char *op) {
  if (is(op, "reset")) { for (int i = 1; i < N; i++) drop(i); nanostl::cout.flush(); collect(); return; }
  int s = num() - 1;
  if (is(op, "new")) { void *p = malloc(sizeof(O)); memset(p, 0x5A, sizeof(O)); slot[s] = new (p) O(); return; }
  if (is(op, "del")) { drop(s); return; }
  O &o = s ? *slot[s] : nanostl::cout;
  if (is(op, "txt")) { int how = num(); Txt q; O *r;
    if (how == 0) r = &(o << q.p); else if (how == 1) { const nanostl::string t(q.p); r = &(o << t); } else if (how == 2) r = &(o << nanostl::string(q.p)); else r = s ? &elsewhere(o, q.p) : &elsewhere(q.p);
    if (r != &o) el_bad++; }
  else if (is(op, "txt2")) { Txt q, p; const nanostl::string b(p.p); if (&(o << q.p << b) != &o) el_bad++; }
  else if (is(op, "num")) { int k = num(); unsigned long long v = chunks(); nanostl::string t; if (&value(o, k, v, &t) != &o) el_bad++; text(t); }
  else if (is(op, "mix")) { int k = num(); Txt q; unsigned long long v = chunks(); Txt p; nanostl::string t; if (&(value(o << q.p, k, v, &t) << p.p) != &o) el_bad++; text(t); }
  else if (is(op, "flush")) { if (&o.flush() != &o) el_bad++; collect(); codes(got, gotn); }
  else bad_op(op);
}
int main(int, char **argv) {
  n = atoi(argv[1]);
  ans = fdopen(dup(1), "w");
  FILE *f = tmpfile();
  if (!f || !ans) exit(77);
  cap = fileno(f);
  fflush(stdout);
  dup2(cap, 1); cap = 1;
  while (next_line()) {
    const char *op = word();
    out.s("{\"res\":["); one(op); collect();
    out.s("],\"st\":{\"said\":["); codes(got, gotn); out.s("],\"bad\":").i(el_bad + heap_bad).s("}}");
    out.raw("\n", 1); fwrite(out.b, 1, out.n, ans); fflush(ans); out.n = 0;
  }
  return 0;
}
