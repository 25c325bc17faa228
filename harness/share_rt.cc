// Runs scripts of library calls in the roles of several threads and reports which shared memory each
// call reads and writes.  The library code is compiled with -fsanitize=thread; this file, which is not,
// provides the hooks.  Memory shared between threads: the program's data and everything allocated.
// Memory is never reused, so an address stands for one piece of memory for the whole run.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unordered_map>
#include <vector>
#include <algorithm>
#include <string>
#include "share.h"
extern "C" char __data_start, _end;
static char *arena, *top, *lim;
static bool rec; static int initing;
static unsigned mask[4];
typedef std::unordered_map<unsigned long, int> Seen;      // 1 = read, 2 = written, in this epoch
static Seen seen[4], now;
static char *from; static std::vector<std::pair<unsigned long, unsigned long> > gone;   // memory that came and went within one call
static void touch(const void *a, size_t n, bool w) {
  if (!rec || initing || !n) return;
  char *p = (char *)a; unsigned long base;
  if (p >= arena && p < lim) base = (1ul << 24) + (unsigned long)(p - arena);
  else if (p >= &__data_start && p < &_end) base = (unsigned long)(p - &__data_start);
  else return;                                             // the stack, thread-local storage, constants
  rec = false;                                             // our own allocations are not the library's
  for (unsigned long g = base / 8; g <= (base + n - 1) / 8; g++) now[g] |= w ? 2 : 1;
  rec = true;
}
static void *bump(size_t n) {
  n = (n + 31) / 16 * 16;
  if (top + n > lim) { fprintf(stderr, "arena exhausted\n"); exit(78); }
  size_t *h = (size_t *)top; h[0] = n - 16; top += n; return h + 2;
}
namespace nanostl { void terminate() { abort(); } }
static void drop(void *v) {
  char *p = (char *)v; size_t n = ((size_t *)p)[-2];
  touch(p, n, true);
  if (rec && p >= from) { rec = false; unsigned long b = (1ul << 24) + (p - arena); gone.push_back(std::make_pair(b / 8, (b + n) / 8)); rec = true; }
}
extern "C" {
void *__real_malloc(size_t); void __real_free(void *); void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
size_t __real_strlen(const char *); int __real_memcmp(const void *, const void *, size_t);
void *__wrap_malloc(size_t n) { return rec ? bump(n) : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { void *p = __wrap_malloc(a * b); return __real_memset(p, 0, a * b); }
void __wrap_free(void *p) { if (!((char *)p >= arena && (char *)p < lim)) __real_free(p); else if (p) drop(p); }
void *__wrap_realloc(void *p, size_t n) { void *q = __wrap_malloc(n); if (p) { size_t o = ((size_t *)p)[-2]; touch(p, o, false); __real_memcpy(q, p, o < n ? o : n); __wrap_free(p); } return q; }
void *__wrap_memcpy(void *d, const void *s, size_t n) { touch(s, n, false); touch(d, n, true); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { touch(s, n, false); touch(d, n, true); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { touch(d, n, true); return __real_memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { touch(a, n, false); touch(b, n, false); return __real_memcmp(a, b, n); }
size_t __wrap_strlen(const char *s) { size_t n = __real_strlen(s); touch(s, n + 1, false); return n; }
// a function-local static is initialised once, under the compiler's lock
int __wrap___cxa_guard_acquire(char *g) { if (*g) return 0; initing++; return 1; }
void __wrap___cxa_guard_release(char *g) { *g = 1; initing--; }
void __wrap___cxa_guard_abort(char *) { initing--; }
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(N) \
  void __tsan_read##N(void *p) { touch(p, N, false); } void __tsan_write##N(void *p) { touch(p, N, true); } \
  void __tsan_unaligned_read##N(void *p) { touch(p, N, false); } void __tsan_unaligned_write##N(void *p) { touch(p, N, true); } \
  void __tsan_volatile_read##N(void *p) { touch(p, N, false); } void __tsan_volatile_write##N(void *p) { touch(p, N, true); } \
  void __tsan_unaligned_volatile_read##N(void *p) { touch(p, N, false); } void __tsan_unaligned_volatile_write##N(void *p) { touch(p, N, true); } \
  void __tsan_read##N##_pc(void *p, void *) { touch(p, N, false); } void __tsan_write##N##_pc(void *p, void *) { touch(p, N, true); } \
  void __tsan_read_write##N(void *p) { touch(p, N, true); } void __tsan_unaligned_read_write##N(void *p) { touch(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { touch(p, n, false); }
void __tsan_write_range(void *p, size_t n) { touch(p, n, true); }
void __tsan_vptr_update(void **p, void *) { touch(p, 8, true); }
void __tsan_vptr_read(void **p) { touch(p, 8, false); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { return __wrap_memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { return __wrap_memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { return __wrap_memset(d, c, n); }
// atomic accesses are not races
#define AT(N, V)                                                                                              \
  V __tsan_atomic##N##_load(const volatile V *p, int) { return *p; }                                          \
  void __tsan_atomic##N##_store(volatile V *p, V v, int) { *p = v; }                                          \
  V __tsan_atomic##N##_exchange(volatile V *p, V v, int) { V o = *p; *p = v; return o; }                      \
  V __tsan_atomic##N##_fetch_add(volatile V *p, V v, int) { V o = *p; *p = o + v; return o; }                 \
  V __tsan_atomic##N##_fetch_sub(volatile V *p, V v, int) { V o = *p; *p = o - v; return o; }                 \
  V __tsan_atomic##N##_fetch_and(volatile V *p, V v, int) { V o = *p; *p = o & v; return o; }                 \
  V __tsan_atomic##N##_fetch_or(volatile V *p, V v, int) { V o = *p; *p = o | v; return o; }                  \
  V __tsan_atomic##N##_fetch_xor(volatile V *p, V v, int) { V o = *p; *p = o ^ v; return o; }                 \
  V __tsan_atomic##N##_fetch_nand(volatile V *p, V v, int) { V o = *p; *p = (V)~(o & v); return o; }          \
  int __tsan_atomic##N##_compare_exchange_strong(volatile V *p, V *e, V d, int, int) { if (*p == *e) { *p = d; return 1; } *e = *p; return 0; } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile V *p, V *e, V d, int, int) { if (*p == *e) { *p = d; return 1; } *e = *p; return 0; } \
  V __tsan_atomic##N##_compare_exchange_val(volatile V *p, V e, V d, int, int) { V o = *p; if (o == e) *p = d; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
// library allocations never share a granule and are never reused; releasing memory writes it
void *operator new(size_t n) { return rec ? bump(n) : __real_malloc(n ? n : 1); }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { __wrap_free(p); }
void operator delete[](void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }

static Kind ks[32]; static Fn fs[32]; static int nk, nf;
struct Obj { void *p; bool live; };
static Obj os[64];
static char buf[1 << 16], *pos;
static const char *word() { while (*pos == ' ') pos++; char *b = pos; while (*pos && *pos != ' ' && *pos != '\n') pos++; if (*pos) *pos++ = 0; return b; }
static long num() { return strtol(word(), 0, 10); }
static void emit(std::vector<unsigned long> &v, std::string &o) {
  std::sort(v.begin(), v.end()); o += '[';
  for (size_t i = 0; i < v.size(); i++) { if (i) o += ','; o += std::to_string(v[i]); }
  o += ']';
}
int main(int, char **) {
  size_t cap = 1ul << 33;
  arena = (char *)mmap(0, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (arena == (char *)-1) return 78;
  top = arena; lim = arena + cap;
  nk = kinds1(ks); nk += kinds2(ks + nk); nk += kinds3(ks + nk);
  nf = fns1(fs); nf += fns2(fs + nf); nf += fns3(fs + nf);
  while (fgets(buf, sizeof buf, stdin)) {
    pos = buf;
    std::string op = word(); std::string o; volatile long sink = 0;
    if (op == "info") { printf("{\"res\":[%d,%d],\"st\":{}}\n", nk, nf); fflush(stdout); continue; }
    now.clear(); gone.clear(); from = top;
    if (op == "reset" || op == "sync") {
      for (int t = 0; t < 4; t++) seen[t].clear();
      if (op == "reset") for (int i = 0; i < 2 * nk; i++) { if (os[i].live) ks[i / 2].kill(os[i].p); os[i].live = false; rec = true; os[i].p = bump(ks[i / 2].size); rec = false; }
      printf("{\"res\":{\"r\":[],\"w\":[]},\"st\":0}\n"); fflush(stdout); continue;
    }
    int t = (int)num();
    if (op == "fn") { int j = (int)num(), x = (int)num(); rec = true; sink = fs[j % nf](x); rec = false; }
    else {
      int s = (int)num() - 1; Kind &k = ks[s / 2]; void *p = os[s].p;
      if (op == "new") { int x = (int)num(); rec = true; k.make(p, x); rec = false; os[s].live = true; }
      else if (op == "del") { rec = true; k.kill(p); rec = false; os[s].live = false; }
      else if (op == "get") { int x = (int)num(), how = (int)num(); rec = true; sink = k.get(p, how, x); rec = false; }
      else if (op == "set") { int x = (int)num(), how = (int)num(); rec = true; k.set(p, how, x); rec = false; }
      else {
        int u = (int)num() - 1, how = (int)num(); void *q = os[u].p;
        if (u / 2 != s / 2) { fprintf(stderr, "kinds differ\n"); return 78; }
        if (op == "get2") { rec = true; sink = k.get2(p, q, how); rec = false; }
        else if (op == "copy") { rec = true; k.copy(p, q, how); rec = false; }
        else if (op == "swap") { rec = true; k.swap(p, q, how); rec = false; }
        else { fprintf(stderr, "bad op\n"); return 78; }
      }
    }
    // what this thread had not yet touched in that way since the last synchronisation
    for (size_t i = 0; i < gone.size(); i++) for (unsigned long g = gone[i].first; g < gone[i].second; g++) now.erase(g);
    std::vector<unsigned long> r, w;
    for (Seen::iterator i = now.begin(); i != now.end(); ++i) {
      int &z = seen[t][i->first];
      if ((i->second & 2) && !(z & 2)) w.push_back(i->first);
      else if (!z) r.push_back(i->first);
      z |= i->second;
    }
    o = "{\"res\":{\"r\":"; emit(r, o); o += ",\"w\":"; emit(w, o); o += "},\"st\":0}\n";
    fputs(o.c_str(), stdout); fflush(stdout);
  }
  return 0;
}
