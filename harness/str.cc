// Executes scripts of basic_string<char> operations.
#include "vf.h"
#include "nanostring.h"
using namespace vf;
typedef nanostl::string S;
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static int uc(char c) { return (unsigned char)c; }
// exact-size buffer with the characters of a "k c1 .. ck" argument, NUL terminated or not
struct Buf { char *p; int n; Buf(bool nul) { n = num(); p = (char *)malloc(n + (nul ? 1 : 0) + (n + nul == 0)); for (int i = 0; i < n; i++) p[i] = (char)num(); if (nul) p[n] = 0; } ~Buf() { free(p); } };
enum { N = 4 };
static S *s[N];
static void drop(int i) { if (s[i]) { s[i]->~S(); free(s[i]); s[i] = 0; } }
static void *mem() { void *p = malloc(sizeof(S)); memset(p, 0x5A, sizeof(S)); return p; }
static void relations(const S &a, const S &b) {
  out.i(sgn(a.compare(b))).s(",").i(a == b).s(",").i(a != b).s(",").i(a < b).s(",").i(a > b);
}
static void relations(const S &a, const char *b) {
  out.i(sgn(a.compare(b))).s(",").i(a == b).s(",").i(a != b).s(",").i(a < b).s(",").i(a > b);
}
int main(int argc, char **argv) {
  int n = atoi(argv[1]);
  while (next_line()) {
    const char *op = word();
    out.s("{\"res\":[");
    heap_on = true;
    if (is(op, "reset")) for (int i = 0; i < N; i++) drop(i);
    else if (is(op, "new")) { int a = num() - 1; s[a] = new (mem()) S(); }
    else if (is(op, "newc")) { int a = num() - 1; Buf b(true); s[a] = new (mem()) S(b.p); }
    else if (is(op, "newn")) { int a = num() - 1; unsigned long long k = unum(); Buf b(false); s[a] = new (mem()) S((const char *)b.p, k); }
    else if (is(op, "newr")) { int a = num() - 1; int i = num(), j = num(); Buf b(false); s[a] = new (mem()) S((const char *)b.p + i, (const char *)b.p + j); }
    else if (is(op, "newcopy")) { int a = num() - 1, b = num() - 1; s[a] = new (mem()) S(*s[b]); }
    else if (is(op, "newtake")) { int a = num() - 1, b = num() - 1; s[a] = new (mem()) S(static_cast<S &&>(*s[b])); drop(b); }
    else if (is(op, "takeassign")) { int a = num() - 1, b = num() - 1; S *r = &(*s[a] = static_cast<S &&>(*s[b])); if (r != s[a]) el_bad++; drop(b); }
    else if (is(op, "del")) { int a = num() - 1; drop(a); }
    else if (is(op, "copyassign")) { int a = num() - 1, b = num() - 1; S *r = &(*s[a] = *s[b]); if (r != s[a]) el_bad++; }
    else if (is(op, "assignc")) { int a = num() - 1; Buf b(true); *s[a] = b.p; }
    else if (is(op, "concat")) { int a = num() - 1, b = num() - 1, c = num() - 1; *s[a] = *s[b] + *s[c]; }
    else if (is(op, "append")) { int a = num() - 1, b = num() - 1; S *r = &(*s[a] += *s[b]); if (r != s[a]) el_bad++; }
    else if (is(op, "appendc")) { int a = num() - 1; Buf b(true); *s[a] += b.p; }
    else if (is(op, "write")) { int a = num() - 1; int i = num(), x = num(), how = num(); if (how) s[a]->at(i) = (char)x; else (*s[a])[i] = (char)x; }
    else if (is(op, "erase")) {
      int a = num() - 1; int i = num(); S::iterator base = &(*s[a])[0]; S::iterator it = s[a]->erase(base + i); out.i(it - &(*s[a])[0]);
    }
    else if (is(op, "clear")) { int a = num() - 1; s[a]->clear(); }
    else if (is(op, "compare")) { int a = num() - 1, b = num() - 1; relations(*s[a], *s[b]); }
    else if (is(op, "comparec")) { int a = num() - 1; Buf b(true); relations(*s[a], (const char *)b.p); }
    else if (is(op, "pair")) { Buf a(true), b(true); S x(a.p), y(b.p); heap_on = false; relations(x, y); out.s("],\"rc\":["); relations(x, (const char *)b.p); }
    else if (is(op, "runpair")) {        // q first, then p (core.ORDER)
      heap_on = false;
      char *t[2]; long len[2];
      for (int i = 0; i < 2; i++) {
        long k = num(), m = 0; t[i] = (char *)malloc(1);
        while (k--) { if (num() != 2) bad_op(op); int c = num(); long r = num(); t[i] = (char *)realloc(t[i], m + r + 1); memset(t[i] + m, c, r); m += r; }
        t[i][m] = 0; len[i] = m;
      }
      { S y(t[0], (unsigned long long)len[0]), x(t[1], (unsigned long long)len[1]); relations(x, y); out.s(","); relations(x, (const char *)t[0]); out.s(","); relations(y, x); }
      free(t[0]); free(t[1]);
    }
    else bad_op(op);
    heap_on = false;
    out.s("]");
    if (is(op, "pair")) { out.s("}"); out.flush(); continue; }
    bool any = false;
    out.s(",\"st\":{\"v\":[");
    for (int i = 0; i < n; i++) {
      if (i) out.s(",");
      if (!s[i]) { out.s("{\"a\":0,\"c\":[],\"n\":0,\"z\":0,\"e\":0,\"vw\":0}"); continue; }
      any = true;
      S &v = *s[i]; const S &cv = v;
      long vw = 0; size_t k = v.size();
      if (v.length() != k || cv.size() != k) vw++;
      out.s("{\"a\":1,\"c\":[");
      for (size_t j = 0; j < k && j < 400000; j++) {
        if (j) out.s(",");
        out.i(uc(cv[j]));
        if (cv[j] != v[j] || v.at(j) != v[j] || cv.at(j) != v[j] || cv.c_str()[j] != v[j]) vw++;
      }
      if (cv.c_str()[k] != 0) vw++;
      if (strlen(cv.c_str()) == k && !(cv == cv.c_str())) vw++;
      out.s("],\"n\":").i(k).s(",\"z\":").i(strlen(cv.c_str())).s(",\"e\":").i(cv.empty() ? 1 : 0).s(",\"vw\":").i(vw).s("}");
    }
    long lk = any ? 0 : heap_live;
    out.s("],\"bad\":").i(el_bad + heap_bad).s(",\"lk\":").i(lk).s("}}");
    if (!any && lk == 0) tab_reset();
    out.flush();
  }
  for (int i = 0; i < N; i++) drop(i);
  return 0;
}
