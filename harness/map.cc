// Executes scripts of nanostl::map operations.  usage: map <kind> <nslots> <nrefs> <iter|find> <maxkey>
#include "vf.h"
#include "nanostring.h"
#include "nanomap.h"
using namespace vf;

template <class X> struct Conv;
template <> struct Conv<int> { static int to(int x) { return x; } static int from(const int &x) { return x; } };
template <> struct Conv<El> { static El to(int x) { return El(x); } static int from(const El &x) { return val(x); } };
template <> struct Conv<nanostl::string> {
  // order preserving text for keys; "" stands for the value-initialised 0
  static nanostl::string to(int x) { if (x == 0) return nanostl::string(); char b[16]; snprintf(b, 16, "%07d", x + 1000000); return nanostl::string(b); }
  static int from(const nanostl::string &x) { return x.size() == 0 ? 0 : atoi(x.c_str()) - 1000000; }
};

template <class K, class T>
struct Run {
  typedef nanostl::map<K, T> M;
  typedef typename M::iterator It;
  typedef typename M::value_type VT;
  enum { N = 4, RN = 6 };
  struct Ref { int s; bool end; It it; VT *p; Ref() : s(-1), end(false), it(), p(0) {} };
  M *s[N];
  Ref r[RN];
  int n, nr, maxkey; bool byiter;
  void *mem() { void *p = malloc(sizeof(M)); memset(p, 0x5A, sizeof(M)); return p; }
  void droprefs(int i) { for (int j = 0; j < RN; j++) if (r[j].s == i) r[j] = Ref(); }
  void drop(int i) { if (s[i]) { droprefs(i); s[i]->~M(); free(s[i]); s[i] = 0; } }
  static T tv(int x) { return Conv<T>::to(x); }
  static K kv(int x) { return Conv<K>::to(x); }
  void pos(M &m, It it) {
    if (it == m.end()) out.s("0,0,0"); else out.s("1,").i(Conv<K>::from(it->first)).s(",").i(Conv<T>::from(it->second));
  }
  void setref(int j, int a, It it) {
    r[j] = Ref(); r[j].s = a; r[j].it = it; r[j].end = (it == s[a]->end()); r[j].p = r[j].end ? 0 : &*it;
  }
  void state() {
    bool any = false;
    out.s("\"st\":{\"v\":[");
    for (int i = 0; i < n; i++) {
      if (i) out.s(",");
      if (!s[i]) { out.s("{\"a\":0,\"c\":[],\"e\":0,\"vw\":0}"); continue; }
      any = true;
      M &m = *s[i];
      const M &cm = m;
      long vw = 0;
      { void *w = malloc(sizeof(It)); memset(w, 0x5A, sizeof(It)); It *d = new (w) It; if (!d->isEnd()) el_bad++; free(w); }
      out.s("{\"a\":1,\"c\":[");
      if (byiter) {
        long k = 0;
        It prev;
        for (It it = m.begin(); it != m.end() && k < 100000; ++it, ++k) {
          if (k) out.s(",");
          out.s("[").i(Conv<K>::from(it->first)).s(",").i(Conv<T>::from((*it).second)).s("]");
          if (it == m.end() || !(it == it) || it != it || it.isEnd()) vw++;
          if (k && (it == prev || !(it != prev))) vw++;
          prev = it;
        }
        if (!(m.end() == m.end()) || m.end() != m.end() || !m.end().isEnd()) vw++;
      } else {
        long k = 0;
        for (int x = 0; x <= maxkey; x++) {
          K key = kv(x);
          typename M::const_iterator f = cm.find(key);
          if (f.isEnd()) continue;
          if (k++) out.s(",");
          out.s("[").i(Conv<K>::from(f->first)).s(",").i(Conv<T>::from(f->second)).s("]");
        }
      }
      out.s("],\"e\":").i(cm.empty() ? 1 : 0).s(",\"vw\":").i(vw).s("}");
    }
    out.s("],\"r\":[");
    for (int j = 0; j < nr; j++) {
      if (j) out.s(",");
      if (r[j].s < 0) { out.s("[]"); continue; }
      M &m = *s[r[j].s];
      if (r[j].end) { if (r[j].it == m.end() && !(r[j].it != m.end())) out.s("[").i(r[j].s + 1).s("]"); else out.s("[-1]"); continue; }
      out.s("[").i(r[j].s + 1).s(",").i(Conv<K>::from(r[j].p->first)).s(",").i(Conv<T>::from(r[j].p->second)).s("]");
      if (&*r[j].it != r[j].p || r[j].it.operator->() != r[j].p) out.s(",\"iterator and pointer differ\"");
    }
    long lk = any ? 0 : heap_live + el_live;
    out.s("],\"bad\":").i(el_bad + heap_bad).s(",\"lk\":").i(lk).s("}");
    if (!any && lk == 0) tab_reset();
  }
  void loop() {
    while (next_line()) {
      const char *op = word();
      out.s("{\"res\":[");
      heap_on = true;
      if (is(op, "reset")) { for (int i = 0; i < N; i++) drop(i); for (int j = 0; j < RN; j++) r[j] = Ref(); }
      else if (is(op, "new")) { int a = num() - 1; s[a] = new (mem()) M(); }
      else if (is(op, "newcopy")) { int a = num() - 1, b = num() - 1; s[a] = new (mem()) M(*s[b]); }
      else if (is(op, "del")) { int a = num() - 1; drop(a); }
      else if (is(op, "copyassign")) { int a = num() - 1, b = num() - 1; if (a != b) droprefs(a); M *q = &(*s[a] = *s[b]); if (q != s[a]) el_bad++; }
      else if (is(op, "newtake")) { int a = num() - 1, b = num() - 1; droprefs(b); s[a] = new (mem()) M(static_cast<M &&>(*s[b])); drop(b); }
      else if (is(op, "takeassign")) { int a = num() - 1, b = num() - 1; droprefs(a); droprefs(b); M *q = &(*s[a] = static_cast<M &&>(*s[b])); if (q != s[a]) el_bad++; drop(b); }
      else if (is(op, "insert")) {
        int a = num() - 1; int k = num(), x = num();
        typename M::pair_iterator_bool p = s[a]->insert(VT(kv(k), tv(x)));
        out.i(p.second ? 1 : 0).s(",");
        if (p.first == s[a]->end()) out.s("-1,-1"); else out.i(Conv<K>::from(p.first->first)).s(",").i(Conv<T>::from(p.first->second));
      }
      else if (is(op, "index")) { int a = num() - 1; int k = num(); out.i(Conv<T>::from((*s[a])[kv(k)])); }
      else if (is(op, "setidx")) { int a = num() - 1; int k = num(), x = num(); T v = tv(x); (*s[a])[kv(k)] = v; }
      else if (is(op, "find")) { int a = num() - 1; K k = kv(num()); const M &cm = *s[a]; It it = cm.find(k); pos(*s[a], it); }
      else if (is(op, "upper")) { int a = num() - 1; K k = kv(num()); const M &cm = *s[a]; It it = cm.upper_bound(k); pos(*s[a], it); }
      else if (is(op, "save")) {
        // order: s k r how
        int a = num() - 1, k = num(), j = num() - 1, how = num(); K key = kv(k);
        if (how == 0) setref(j, a, s[a]->insert(VT(key, tv(-5))).first);
        else if (how == 1) setref(j, a, s[a]->find(key));
        else { T *t = &(*s[a])[key]; setref(j, a, s[a]->find(key)); if (t != &r[j].p->second) el_bad++; }
      }
      else if (is(op, "savebegin")) { int a = num() - 1, j = num() - 1; setref(j, a, s[a]->begin()); }
      else if (is(op, "saveend")) { int a = num() - 1, j = num() - 1; setref(j, a, s[a]->end()); }
      else if (is(op, "advance")) {
        int j = num() - 1; It it = r[j].it; It *q = &++it; if (q != &it) el_bad++;
        setref(j, r[j].s, it);
      }
      else if (is(op, "writeref")) { int x, j; x = num(); j = num() - 1; T v = tv(x); if (x & 1) r[j].p->second = v; else (*r[j].it).second = v; }
      else if (is(op, "equal")) { int b = num() - 1, a = num() - 1; out.i(r[a].it == r[b].it).s(",").i(r[a].it != r[b].it); }
      else if (is(op, "forget")) { int j = num() - 1; r[j] = Ref(); }
      else bad_op(op);
      heap_on = false;
      out.s("],");
      state();
      out.s("}");
      out.flush();
    }
    for (int i = 0; i < N; i++) drop(i);
  }
  Run(char **v) { n = atoi(v[2]); nr = atoi(v[3]); byiter = is(v[4], "iter"); maxkey = atoi(v[5]); for (int i = 0; i < N; i++) s[i] = 0; }
};

// ---- comparison counting ------------------------------------------------------------
struct CK { int v; CK() : v(0) {} CK(int x) : v(x) {} };
static long ccount = 0;
inline bool operator==(const CK &a, const CK &b) { ccount++; return a.v == b.v; }
inline bool operator!=(const CK &a, const CK &b) { ccount++; return a.v != b.v; }
inline bool operator<(const CK &a, const CK &b) { ccount++; return a.v < b.v; }
inline bool operator>(const CK &a, const CK &b) { ccount++; return a.v > b.v; }
inline bool operator<=(const CK &a, const CK &b) { ccount++; return a.v <= b.v; }
inline bool operator>=(const CK &a, const CK &b) { ccount++; return a.v >= b.v; }

struct Tally {   // comparisons of a group of operations of one kind
  const char *op; long n, m, mx, tot, wrong; bool first;
  Tally(const char *o, long k, bool f = false) : op(o), n(k), m(0), mx(0), tot(0), wrong(0), first(f) {}
  void add(bool bad, bool counted = true) { if (bad) wrong++; if (!counted) return; m++; tot += ccount; if (ccount > mx) mx = ccount; }
  ~Tally() { if (m) out.s(first ? "{" : ",{").s("\"op\":\"").s(op).s("\",\"n\":").i(n).s(",\"m\":").i(m).s(",\"max\":").i(mx).s(",\"tot\":").i(tot).s(",\"wrong\":").i(wrong).s("}"); }
};
static void costs() {
  typedef nanostl::map<CK, int> M;
  while (next_line()) {
    const char *op = word();
    if (!is(op, "build")) bad_op(op);
    long n = num();
    M m;
    int *ks = (int *)malloc(sizeof(int) * (n + 1));
    out.s("{\"r\":[");
    { Tally t("insert", n, true);
      for (long i = 0; i < n; i++) { ks[i] = 2 * num(); ccount = 0; bool ins = m.insert(M::value_type(CK(ks[i]), (int)i)).second; t.add(!ins, i >= n / 2); } }
    { Tally t("again", n);
      for (long i = 0; i < n; i++) { ccount = 0; bool ins = m.insert(M::value_type(CK(ks[i]), -1)).second; t.add(ins); } }
    // the map itself, a copy of it and one assigned from it; keys present and keys between them
    M copied(m), assigned; assigned.insert(M::value_type(CK(7), 7)); assigned = m;
    M *ms[3] = {&m, &copied, &assigned};
    for (int w = 0; w < 3; w++) {
      M &a = *ms[w]; const M &ca = a;
      { Tally t("find", n); for (long i = 0; i < n; i++) { ccount = 0; M::const_iterator it = ca.find(CK(ks[i])); t.add(it.isEnd() || it->second != i); } }
      { Tally t("miss", n); for (long i = 0; i < n; i++) { ccount = 0; M::const_iterator it = ca.find(CK(ks[i] + 1)); t.add(!it.isEnd()); } }
      { Tally t("upper", n); for (long i = 0; i < n; i++) { ccount = 0; M::const_iterator it = ca.upper_bound(CK(ks[i] + i % 3 - 1)); t.add(!it.isEnd() && it->first.v <= ks[i] + i % 3 - 1); } }
      { Tally t("next", n); long k = 0; for (M::iterator it = a.begin(); it != a.end(); k++) { ccount = 0; long was = it->first.v; ++it; t.add(!it.isEnd() && it->first.v <= was); } }
    }
    out.s("]}");
    out.flush();
    free(ks);
  }
}

int main(int argc, char **argv) {
  if (is(argv[1], "cost")) { costs(); return 0; }
  if (is(argv[1], "int")) { Run<int, int> r(argv); r.loop(); }
  else if (is(argv[1], "el")) { Run<El, El> r(argv); r.loop(); }
  else if (is(argv[1], "str")) { Run<nanostl::string, nanostl::string> r(argv); r.loop(); }
  else return 77;
  return 0;
}
