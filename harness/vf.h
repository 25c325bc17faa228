// Common harness support: replaced global operator new/delete with bookkeeping, an
// instrumented element type, a line reader and a JSON writer.  Public API only.
#ifndef VF_H
#define VF_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <new>

namespace vf {
// ---- heap bookkeeping ------------------------------------------------------
struct Blk { void *p; size_t n; bool arr; };
enum { HCAP = 1 << 16 };
static Blk heap_tab[HCAP];
static long heap_live = 0, heap_bad = 0, heap_held = 0, heap_asked = 0;  // blocks, misuses, bytes live, bytes ever
static bool heap_on = false;
inline unsigned hslot(void *p) { return (unsigned)(((size_t)p >> 4) * 2654435761u) & (HCAP - 1); }
static void *hnew(size_t n, bool arr) {
  void *p = malloc(n ? n : 1);
  if (!p) abort();
  memset(p, 0xA5, n);
  if (heap_on) {
    unsigned i = hslot(p);
    while (heap_tab[i].p && heap_tab[i].p != (void *)-1) i = (i + 1) & (HCAP - 1);
    heap_tab[i].p = p; heap_tab[i].n = n; heap_tab[i].arr = arr;
    heap_live++; heap_held += n; heap_asked += n;
  }
  return p;
}
static void hdel(void *p, bool arr) {
  if (!p) return;
  unsigned i = hslot(p);
  for (int k = 0; k < HCAP && heap_tab[i].p; k++, i = (i + 1) & (HCAP - 1))
    if (heap_tab[i].p == p) {
      if (heap_tab[i].arr != arr) heap_bad++;
      heap_tab[i].p = (void *)-1;
      heap_live--; heap_held -= heap_tab[i].n;
      free(p);
      return;
    }
  if (heap_on) { heap_bad++; }  // unknown or already released block
  free(p);                      // ASan judges it
}
// ---- input -------------------------------------------------------------------
static char *line = 0, *cur = 0;
static size_t linecap = 0;
static bool next_line() { ssize_t n = getline(&line, &linecap, stdin); if (n <= 0) return false; cur = line; return true; }
static const char *word() {
  while (*cur == ' ') cur++;
  char *s = cur;
  while (*cur && *cur != ' ' && *cur != '\n') cur++;
  if (*cur) *cur++ = 0;
  return s;
}
static long num() { char *e; const char *s = word(); long v = strtol(s, &e, 10); if (e == s) { fprintf(stderr, "bad number\n"); exit(77); } return v; }
static unsigned long long unum() { return strtoull(word(), 0, 10); }
static unsigned long long hexnum() { return strtoull(word(), 0, 16); }
static bool is(const char *a, const char *b) { return strcmp(a, b) == 0; }
static void bad_op(const char *s) { fprintf(stderr, "unknown op %s\n", s); exit(77); }
// ---- output --------------------------------------------------------------------
struct Out {
  char *b; size_t n, c;
  Out() : b(0), n(0), c(0) {}
  void raw(const char *s, size_t k) { if (n + k + 1 > c) { c = (n + k + 1) * 2; b = (char *)realloc(b, c); } memcpy(b + n, s, k); n += k; b[n] = 0; }
  Out &s(const char *t) { raw(t, strlen(t)); return *this; }
  Out &i(long long v) { char t[32]; snprintf(t, 32, "%lld", v); return s(t); }
  void flush() { raw("\n", 1); fwrite(b, 1, n, stdout); fflush(stdout); n = 0; }
};
static Out out;
// ---- instrumented element --------------------------------------------------------
// Every object registers its address while alive.  Misuse is counted, not asserted:
// the counters are part of the projected state and the specification says they are 0.
enum { ECAP = 1 << 16 };
static void *el_tab[ECAP]; static int el_tag[ECAP];  // the tag tells the types of one family apart
static long el_live = 0, el_bad = 0, el_made = 0, el_dead = 0, el_cmp = 0;
inline long el_find(const void *p) {
  unsigned i = (unsigned)(((size_t)p >> 2) * 2654435761u) & (ECAP - 1);
  for (int k = 0; k < ECAP && el_tab[i]; k++, i = (i + 1) & (ECAP - 1)) if (el_tab[i] == p) return i;
  return -1;
}
inline void el_add(void *p, int tag = 0) {
  if (el_find(p) >= 0) { el_bad++; return; }
  unsigned i = (unsigned)(((size_t)p >> 2) * 2654435761u) & (ECAP - 1);
  while (el_tab[i] && el_tab[i] != (void *)-1) i = (i + 1) & (ECAP - 1);
  el_tab[i] = p; el_tag[i] = tag; el_live++; el_made++;
}
inline void el_del(void *p, int tag = 0) {
  long i = el_find(p);
  if (i < 0 || el_tag[i] != tag) { el_bad++; return; }
  el_tab[i] = (void *)-1; el_live--; el_dead++;
}
inline void el_use(const void *p, int tag = 0) { long i = el_find(p); if (i < 0 || el_tag[i] != tag) el_bad++; }
static void tab_reset() {  // drop tombstones between runs
  if (el_live == 0) memset(el_tab, 0, sizeof el_tab);
  if (heap_live == 0) memset(heap_tab, 0, sizeof heap_tab);
  el_made = el_dead = 0;
}
struct El {
  int v;
  El() : v(0) { el_add(this); }
  El(int x) : v(x) { el_add(this); }
  El(const El &o) : v(o.v) { el_use(&o); el_add(this); }
  El &operator=(const El &o) { el_use(this); el_use(&o); v = o.v; return *this; }
  ~El() { el_del(this); v = -77777; }
};
inline bool operator==(const El &a, const El &b) { el_use(&a); el_use(&b); el_cmp++; return a.v == b.v; }
inline bool operator!=(const El &a, const El &b) { el_use(&a); el_use(&b); el_cmp++; return a.v != b.v; }
inline bool operator<(const El &a, const El &b) { el_use(&a); el_use(&b); el_cmp++; return a.v < b.v; }
inline bool operator>(const El &a, const El &b) { el_use(&a); el_use(&b); el_cmp++; return a.v > b.v; }
inline bool operator<=(const El &a, const El &b) { el_use(&a); el_use(&b); el_cmp++; return a.v <= b.v; }
inline bool operator>=(const El &a, const El &b) { el_use(&a); el_use(&b); el_cmp++; return a.v >= b.v; }
inline int val(const El &e) { el_use(&e); return e.v; }
inline int val(int e) { return e; }
inline int val(char e) { return e; }
inline int val(signed char e) { return e; }
inline int val(double e) { return (int)e; }
}  // namespace vf

void *operator new(size_t n) { return vf::hnew(n, false); }
void *operator new[](size_t n) { return vf::hnew(n, true); }
void operator delete(void *p) noexcept { vf::hdel(p, false); }
void operator delete[](void *p) noexcept { vf::hdel(p, true); }
void operator delete(void *p, size_t) noexcept { vf::hdel(p, false); }
void operator delete[](void *p, size_t) noexcept { vf::hdel(p, true); }
#endif
