// Executes scripts of stringstream operations.  usage: ss <nslots>
#include "vf.h"
#include "nanostring.h"
#include "nanosstream.h"
using namespace vf;
enum { N = 6 };
typedef nanostl::stringstream O;
static O *slot[N];
static int n;
struct Txt { char *p; int n; Txt() { n = num(); p = (char *)malloc(n + 1); for (int i = 0; i < n; i++) p[i] = (char)num(); p[n] = 0; } ~Txt() { free(p); } };
static void drop(int i) { if (slot[i]) { slot[i]->~O(); free(slot[i]); slot[i] = 0; } }
static void chars(const nanostl::string &s) { for (unsigned long i = 0; i < s.size(); i++) { if (i) out.s(","); out.i((unsigned char)s[i]); } }
static void state() {
  out.s("\"st\":{\"v\":[");
  for (int i = 0; i < n; i++) {
    if (i) out.s(",");
    if (!slot[i]) { out.s("[0,[],0,0,0]"); continue; }
    nanostl::string &r = slot[i]->str();
    out.s("[1,["); chars(r); out.s("],").i(r.size()).s(",").i(r.empty()).s(",").i(r.c_str()[r.size()]).s("]");
    if (&slot[i]->str() != &r) el_bad++;
  }
  out.s("],\"bad\":").i(el_bad + heap_bad).s("}");
}
static void one(const char *op) {
  if (is(op, "reset")) { for (int i = 0; i < N; i++) drop(i); if (heap_live) el_bad++; tab_reset(); return; }
  int s = num() - 1;
  if (is(op, "new")) { void *p = malloc(sizeof(O)); memset(p, 0x5A, sizeof(O)); slot[s] = new (p) O(); return; }
  O &o = *slot[s];
  if (is(op, "del")) drop(s);
  else if (is(op, "ins")) { int how = num(); Txt q; O *r = 0;
    if (how == 0) { const nanostl::string t(q.p, (unsigned long long)q.n); r = &(o << t); } else if (how == 1) r = &(o << nanostl::string(q.p, (unsigned long long)q.n)); else r = &(o << q.p);
    if (r != &o) el_bad++; }
  else if (is(op, "ins2")) { Txt q, p; const nanostl::string a(q.p, (unsigned long long)q.n), b(p.p, (unsigned long long)p.n); if (&(o << a << b) != &o) el_bad++; }
  else if (is(op, "insstr")) { int t = num() - 1; o << slot[t]->str(); }
  else if (is(op, "clear")) o.clear();
  else if (is(op, "move")) { int t = num() - 1; if (&(o = static_cast<O &&>(*slot[t])) != &o) el_bad++; }
  else if (is(op, "str")) { nanostl::string c(o.str()); chars(c); }
  else if (is(op, "thru")) { int i = num() - 1, how = num(); Txt q; if (how == 0) o.str() = nanostl::string(q.p, (unsigned long long)q.n); else if (how == 1) o.str() += nanostl::string(q.p, (unsigned long long)q.n); else o.str()[i] = q.p[0]; }
  else bad_op(op);
}
int main(int, char **argv) {
  n = atoi(argv[1]);
  while (next_line()) { const char *op = word(); out.s("{\"res\":["); heap_on = true; one(op); heap_on = false; out.s("],"); state(); out.s("}"); out.flush(); }
  return 0;
}
