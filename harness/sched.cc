// Deterministic schedule exploration of real threaded code.
//
// The code under test is compiled by clang with -fsanitize=thread and linked, instead of
// with the TSan runtime, with this file: every memory access, atomic operation and
// (via -Wl,--wrap) every pthread / clock call arrives here.  Real threads run one at a
// time; at each point the next thread is chosen by depth first search with a preemption
// bound, or at random.  Time is virtual.  A vector clock detector reports data races.
// The observable history (call and return events logged by the driver) of each execution
// is collected; the distinct histories are printed for TLC to judge.
#include "vsched.h"
#include <algorithm>
#include <atomic>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <errno.h>
#include <semaphore.h>
#include <set>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

extern "C" {
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **); int __real_clock_gettime(clockid_t, struct timespec *);
void __real_pthread_exit(void *) __attribute__((noreturn));
int __real_pthread_key_create(pthread_key_t *, void (*)(void *)); int __real_pthread_key_delete(pthread_key_t);
}

namespace vs {
enum { MAXT = 12 };
typedef long long ll;
enum St { NEW, RUN, MUTEX, COND, SLEEP, JOIN, SEM, FIN };
struct VC { unsigned c[MAXT]; VC() { memset(c, 0, sizeof c); } void join(const VC &o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Thr {
  int id; St st; std::atomic<int> go; pthread_t real; void *(*fn)(void *); void *arg; void *ret;
  void *obj; void *obj2; ll deadline; bool timed, expired, joined, detached, unwound; VC vc; char *lo, *hi; int spin; int joinon; int clk;
};
struct Mtx { int owner; bool live; VC vc; };
struct Cnd { bool live; int clk; std::vector<int> q; };
struct Opt { int kind, arg, cost; };  // 0 thread, 1 timer, 2 spurious wake
struct Dec { int chosen; std::vector<int> costs; };

static Thr *T[MAXT]; static int nT; static thread_local Thr *me;
static int cur; static bool active, aborting; static ll now_ns; static Config cfg;
static std::map<void *, Mtx> mtxs; static std::map<void *, Cnd> cnds; static std::map<void *, int> condattr;
static std::map<void *, VC> syncs;
struct Cell { int wt; unsigned wc; bool watom; unsigned r[MAXT]; unsigned ra[MAXT]; unsigned gen; };
static std::unordered_map<uintptr_t, Cell> shadow; 
static std::vector<std::pair<char *, char *>> shared;
static std::vector<Dec> path; static size_t pos; static int spent, steps; static bool randomly; static unsigned long long rs;
static std::string hist; static int creates, sleeps, spurs; static bool livelock;
static std::atomic<int> ctl_go; static std::set<pthread_key_t> keys; static long heap_live;
static long race_count;

static unsigned long long rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ULL >> 11; }
static void fwait(std::atomic<int> &f) { while (f.load() == 0) syscall(SYS_futex, (int *)&f, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); f.store(0); }
static void fwake(std::atomic<int> &f) { f.store(1); syscall(SYS_futex, (int *)&f, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
static void die(const char *m) { fprintf(stderr, "sched: %s\n", m); fflush(stdout); _exit(78); }

ll now() { return now_ns; }
void logf_(const char *f, ...) { char b[512]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); if (!hist.empty()) hist += ','; hist += b; }
static void bad(const char *w) { logf_("{\"e\":\"bad\",\"t\":%d,\"w\":\"%s\"}", me ? me->id : 0, w); }
int stack_mb() { return (int)((me->hi - me->lo + 65536) >> 20); }
static std::vector<void *> nums; static int cnt;
int number(void *p) { for (size_t i = 0; i < nums.size(); i++) if (nums[i] == p) return (int)i; nums.push_back(p); return (int)nums.size() - 1; }
void count() { cnt++; }
int counted() { return cnt; }
long live() { return heap_live; }
bool created(int id) { return id < nT; }
bool released(int id) { return T[id]->joined || T[id]->detached; }
int self() { return me ? me->id : 0; }

static int choose(const std::vector<Opt> &o) {
  if (o.size() == 1) { spent += o[0].cost; return 0; }
  if (randomly) {
    // prefer option 0, otherwise uniform
    int k = (rnd() % 100 < (unsigned)cfg.stay && o[0].cost == 0) ? 0 : (int)(rnd() % o.size());
    return k;
  }
  if (cfg.replay) { int k = pos < cfg.fixed.size() ? cfg.fixed[pos] : 0; pos++; if (k >= (int)o.size()) die("schedule does not fit"); spent += o[k].cost; return k; }
  if (pos < path.size()) {
    if (path[pos].costs.size() != o.size()) die("nondeterministic execution");
    int k = path[pos++].chosen; spent += o[k].cost; return k;
  }
  Dec d; d.chosen = 0; for (auto &x : o) d.costs.push_back(x.cost);
  // the default choice must be affordable: pick the first with minimal cost
  int k = 0; for (size_t i = 1; i < o.size(); i++) if (o[i].cost < o[k].cost) k = (int)i;
  if (k) die("first option is not the cheapest");
  path.push_back(d); pos++; spent += o[k].cost; return k;
}
static bool enabled(Thr *t) {
  switch (t->st) {
    case RUN: return true;
    case MUTEX: { return mtxs[t->obj].owner < 0; }
    case JOIN: return T[t->joinon]->st == FIN;
    default: return false;
  }
}
// earliest timer that may fire now; -1 if none
static int timer() {
  int b = -1;
  for (int i = 0; i < nT; i++) if (T[i]->timed && !T[i]->expired && (T[i]->st == COND || T[i]->st == SLEEP) && (b < 0 || T[i]->deadline < T[b]->deadline)) b = i;
  return b;
}
static void fire(int i) {
  Thr *t = T[i]; if (t->deadline > now_ns) now_ns = t->deadline;
  if (t->st == COND) { Cnd &c = cnds[t->obj]; c.q.erase(std::remove(c.q.begin(), c.q.end(), i), c.q.end()); t->expired = true; t->st = MUTEX; t->obj = t->obj2; }
  else { t->st = RUN; t->expired = true; }
}
static void end_execution() { active = false; fwake(ctl_go); }
static void park() {  // wait for the baton
  fwait(me->go);
  if (aborting) { me->unwound = true; __real_pthread_exit(0); }
}
static void handle_enter(Thr *n) {  // n becomes current: complete its blocking operation
  if (n->st == MUTEX) { Mtx &m = mtxs[n->obj]; m.owner = n->id; n->vc.join(m.vc); n->st = RUN; }
  else if (n->st == JOIN) { n->vc.join(T[n->joinon]->vc); n->st = RUN; }
}
// picks who runs next; called by the current thread (which may be blocked or finished)
static void resched(bool yielding = false) {
  if (!active) { if (aborting) { me->unwound = true; __real_pthread_exit(0); } return; }
  if (++steps > cfg.maxsteps) { livelock = true; logf_("{\"e\":\"stuck\",\"t\":0,\"z\":[%lld,%lld]}", now_ns / 1000000000, now_ns / 1000 % 1000000); end_execution(); park(); }
  for (;;) {
    std::vector<Opt> o; bool meon = me->st != FIN && enabled(me);
    if (meon && ++me->spin > cfg.spin) { yielding = true; }
    if (meon && !yielding) o.push_back({0, me->id, 0});
    int tm = timer();
    for (int k = 1; k < nT; k++) { int i = (me->id + k) % nT; if (i != me->id && T[i]->st != FIN && enabled(T[i])) o.push_back({0, i, (meon && !yielding) ? 1 : 0}); }
    if (meon && yielding) { if (o.empty()) o.push_back({0, me->id, 0}); else me->spin = 0; }
    bool any = !o.empty();
    if (tm >= 0 && (!any || cfg.eager)) o.push_back({1, tm, any ? 1 : 0});
    if (cfg.spurious && any && spurs < 3) for (auto &kv : cnds) for (int w : kv.second.q) o.push_back({2, w, 1});
    if (o.empty()) {
      bool fin = true; for (int i = 0; i < nT; i++) if (T[i]->st != FIN) fin = false;
      logf_(fin ? "{\"e\":\"end\",\"t\":0,\"z\":[%lld,%lld]}" : "{\"e\":\"stuck\",\"t\":0,\"z\":[%lld,%lld]}", now_ns / 1000000000, now_ns / 1000 % 1000000);
      end_execution();
      if (me->st == FIN) return;
      park();
    }
    Opt c = o[choose(o)];
    if (c.kind == 1) { fire(c.arg); continue; }
    if (c.kind == 2) { spurs++; Thr *t = T[c.arg]; Cnd &q = cnds[t->obj]; q.q.erase(std::remove(q.q.begin(), q.q.end(), c.arg), q.q.end()); t->st = MUTEX; t->obj = t->obj2; continue; }
    Thr *n = T[c.arg];
    if (n == me) { handle_enter(n); return; }
    handle_enter(n); me->spin = 0; cur = n->id;
    bool f = me->st == FIN;
    fwake(n->go);
    if (f) return;
    park();
    return;
  }
}
void point() { if (active && me) resched(); else if (aborting && me) { me->unwound = true; __real_pthread_exit(0); } }

static void *tramp(void *p) {
  Thr *t = (Thr *)p; me = t;
  pthread_attr_t a; void *base; size_t sz; pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &base, &sz); pthread_attr_destroy(&a);
  t->lo = (char *)base; t->hi = (char *)base + sz;
  fwait(t->go);
  if (aborting) { t->unwound = true; return 0; }
  t->vc.c[t->id]++;
  t->ret = t->fn(t->arg);
  if (aborting) return 0;
  t->st = FIN; t->vc.c[t->id]++;
  resched();
  return 0;
}
static Thr *mk(void *(*fn)(void *), void *arg, const pthread_attr_t *at = 0) {
  if (nT >= MAXT) die("too many threads");
  Thr *t = new Thr(); t->id = nT; t->st = RUN; t->go = 0; t->fn = fn; t->arg = arg; t->ret = 0; t->timed = t->expired = t->joined = t->detached = t->unwound = false; t->lo = t->hi = 0; t->spin = 0; t->joinon = -1; t->clk = 0;
  if (me) { me->vc.c[me->id]++; t->vc = me->vc; }
  T[nT++] = t;
  if (__real_pthread_create(&t->real, at, tramp, t)) die("pthread_create");
  return t;
}
int spawn(void *(*fn)(void *), void *arg) { Thr *t = mk(fn, arg); point(); return t->id; }
void join_all() { for (int i = 0; i < nT; i++) if (i != me->id) { me->st = JOIN; me->joinon = i; resched(); } }

// ---- race detector ------------------------------------------------------------
static void race(uintptr_t a, int other, const char *k) { (void)a; (void)other; if (race_count++ == 0) logf_("{\"e\":\"race\",\"t\":%d,\"w\":\"%s\"}", me->id, k); }
static bool onstack(char *a) { return a >= me->lo && a < me->hi; }
static bool is_shared(char *a) { for (auto &s : shared) if (a >= s.first && a < s.second) return true; return false; }
static void access(char *a, int n, bool w, bool atom) {
  if (!active || !me) return;
  if (onstack(a)) { bool esc = is_shared(a); if (!esc) return; }
  for (int i = 0; i < n; i++) {
    Cell &c = shadow[(uintptr_t)a + i];
    if (c.gen == 0) { memset(&c, 0, sizeof c); c.gen = 1; c.wt = -1; }
    unsigned mine = me->vc.c[me->id];
    if (c.wt >= 0 && c.wt != me->id && c.wc > me->vc.c[c.wt] && !(atom && c.watom)) { race((uintptr_t)a, c.wt, w ? "write-write" : "write-read"); return; }
    if (w) {
      for (int t = 0; t < nT; t++) if (t != me->id) {
        if (c.r[t] > me->vc.c[t]) { race((uintptr_t)a, t, "read-write"); return; }
        if (!atom && c.ra[t] > me->vc.c[t]) { race((uintptr_t)a, t, "atomicread-write"); return; }
      }
      c.wt = me->id; c.wc = mine; c.watom = atom;
      if (!atom) { memset(c.r, 0, sizeof c.r); memset(c.ra, 0, sizeof c.ra); }
    } else { (atom ? c.ra : c.r)[me->id] = mine; }
  }
}
static void fresh(char *a, size_t n) { if (!active || !me) return; if (n > 65536) { return; } for (size_t i = 0; i < n; i++) shadow.erase((uintptr_t)a + i); }
void share(void *p, size_t n) { shared.push_back({(char *)p, (char *)p + n}); }
static void plain(void *p, int n, bool w) {
  if (!active || !me) { if (aborting && me) point(); return; }
  char *a = (char *)p;
  if (is_shared(a)) resched();
  access(a, n, w, false);
}
enum { RLX, CON, ACQ, REL, AR, SC };
static void acq(void *p, int mo) { if (mo == ACQ || mo == CON || mo >= AR) me->vc.join(syncs[p]); }
static void rel(void *p, int mo, bool rmw) { if (mo == REL || mo >= AR) { if (rmw) syncs[p].join(me->vc); else syncs[p] = me->vc; me->vc.c[me->id]++; } else if (!rmw) syncs[p] = VC(); }
template <class V> static V aload(volatile V *p, int mo) { point(); if (active) { access((char *)p, sizeof(V), false, true); acq((void *)p, mo); } return *p; }
template <class V> static void astore(volatile V *p, V v, int mo) { point(); if (active) { access((char *)p, sizeof(V), true, true); rel((void *)p, mo, false); } *p = v; }
template <class V, class F> static V armw(volatile V *p, int mo, F f) { point(); if (active) { access((char *)p, sizeof(V), true, true); acq((void *)p, mo); rel((void *)p, mo, true); } V o = *p; *p = f(o); return o; }
template <class V> static V acas(volatile V *p, V e, V d, int mo, int fmo) {
  point(); V o = *p;
  if (active) { if (o == e) { access((char *)p, sizeof(V), true, true); acq((void *)p, mo); rel((void *)p, mo, true); } else { access((char *)p, sizeof(V), false, true); acq((void *)p, fmo); } }
  if (o == e) *p = d; return o;
}
}  // namespace vs
using namespace vs;

#define AT(N, V)                                                                                              \
  V __tsan_atomic##N##_load(const volatile V *p, int mo) { return aload((volatile V *)p, mo); }              \
  void __tsan_atomic##N##_store(volatile V *p, V v, int mo) { astore(p, v, mo); }                            \
  V __tsan_atomic##N##_exchange(volatile V *p, V v, int mo) { return armw(p, mo, [=](V) { return v; }); }     \
  V __tsan_atomic##N##_fetch_add(volatile V *p, V v, int mo) { return armw(p, mo, [=](V o) { return (V)(o + v); }); } \
  V __tsan_atomic##N##_fetch_sub(volatile V *p, V v, int mo) { return armw(p, mo, [=](V o) { return (V)(o - v); }); } \
  V __tsan_atomic##N##_fetch_and(volatile V *p, V v, int mo) { return armw(p, mo, [=](V o) { return (V)(o & v); }); } \
  V __tsan_atomic##N##_fetch_or(volatile V *p, V v, int mo) { return armw(p, mo, [=](V o) { return (V)(o | v); }); } \
  V __tsan_atomic##N##_fetch_xor(volatile V *p, V v, int mo) { return armw(p, mo, [=](V o) { return (V)(o ^ v); }); } \
  V __tsan_atomic##N##_fetch_nand(volatile V *p, V v, int mo) { return armw(p, mo, [=](V o) { return (V)~(o & v); }); } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile V *p, V *e, V d, int mo, int fmo) { V o = acas(p, *e, d, mo, fmo); if (o == *e) return 1; *e = o; return 0; } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile V *p, V *e, V d, int mo, int fmo) { return __tsan_atomic##N##_compare_exchange_strong(p, e, d, mo, fmo); } \
  V __tsan_atomic##N##_compare_exchange_val(volatile V *p, V e, V d, int mo, int fmo) { return acas(p, e, d, mo, fmo); }

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(N) \
  void __tsan_read##N(void *p) { plain(p, N, false); } void __tsan_write##N(void *p) { plain(p, N, true); } \
  void __tsan_unaligned_read##N(void *p) { plain(p, N, false); } void __tsan_unaligned_write##N(void *p) { plain(p, N, true); } \
  void __tsan_volatile_read##N(void *p) { plain(p, N, false); } void __tsan_volatile_write##N(void *p) { plain(p, N, true); } \
  void __tsan_unaligned_volatile_read##N(void *p) { plain(p, N, false); } void __tsan_unaligned_volatile_write##N(void *p) { plain(p, N, true); } \
  void __tsan_read##N##_pc(void *p, void *) { plain(p, N, false); } void __tsan_write##N##_pc(void *p, void *) { plain(p, N, true); } \
  void __tsan_read_write##N(void *p) { plain(p, N, false); plain(p, N, true); } void __tsan_unaligned_read_write##N(void *p) { plain(p, N, false); plain(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { plain(p, (int)n, false); }
void __tsan_write_range(void *p, size_t n) { plain(p, (int)n, true); }
void __tsan_vptr_update(void **p, void *) { plain(p, 8, true); }
void __tsan_vptr_read(void **p) { plain(p, 8, false); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { if (n) { plain((void *)s, (int)n, false); plain(d, (int)n, true); } return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { if (n) { plain((void *)s, (int)n, false); plain(d, (int)n, true); } return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { if (n) plain(d, (int)n, true); return memset(d, c, n); }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { point(); }
void __tsan_atomic_signal_fence(int) {}

// ---- allocation: recycled memory is not racy ---------------------------------------
void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (active && me) { fresh((char *)p, n); heap_live++; } return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); if (active && me) { fresh((char *)p, a * b); heap_live++; } return p; }
void __wrap_free(void *p) { if (active && me && p) heap_live--; __real_free(p); }

// ---- pthread -----------------------------------------------------------------------
#define OFF(x) if (!active || !me) { if (aborting && me) point(); return x; }
static Mtx &mget(void *m) { Mtx &x = mtxs[m]; if (!x.live) { x.live = true; x.owner = -1; x.vc = VC(); } return x; }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { OFF(0) plain(m, 1, true); Mtx &x = mtxs[m]; if (x.live && x.owner >= 0) bad("init of a locked mutex"); x.live = true; x.owner = -1; x.vc = VC(); return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { OFF(0) plain(m, 1, true); Mtx &x = mget(m); if (x.owner >= 0) bad("destroy of a locked mutex"); mtxs.erase(m); return 0; }
static void lock_(void *m) { Mtx &x = mget(m); (void)x; resched(); if (mget(m).owner == me->id) bad("relock"); me->st = MUTEX; me->obj = m; if (enabled(me)) { handle_enter(me); } else resched(); }
static void unlock_(void *m) { Mtx &x = mget(m); if (x.owner != me->id) bad("unlock of a mutex not held"); x.owner = -1; x.vc = me->vc; me->vc.c[me->id]++; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { OFF(0) lock_(m); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { OFF(0) resched(); Mtx &x = mget(m); if (x.owner >= 0) return EBUSY; me->st = MUTEX; me->obj = m; handle_enter(me); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { OFF(0) resched(); unlock_(m); return 0; }
int __wrap_pthread_condattr_init(pthread_condattr_t *a) { condattr[a] = CLOCK_REALTIME; return 0; }
int __wrap_pthread_condattr_destroy(pthread_condattr_t *a) { condattr.erase(a); return 0; }
int __wrap_pthread_condattr_setclock(pthread_condattr_t *a, clockid_t c) { condattr[a] = c; return 0; }
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { OFF(0) plain(c, 1, true); Cnd &x = cnds[c]; x.live = true; x.q.clear(); x.clk = a ? condattr[(void *)a] : CLOCK_REALTIME; return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *c) { OFF(0) plain(c, 1, true); if (!cnds[c].q.empty()) bad("destroy of a condition with waiters"); cnds.erase(c); return 0; }
}
namespace vs {
static ll rt() { return cfg.epoch_ns + now_ns; }          // CLOCK_REALTIME
static ll mono() { return cfg.mono_ns + now_ns; }
static ll clockval(int c) { return c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_RAW || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_BOOTTIME ? mono() : rt(); }
static ll to_now(int c, const struct timespec *ts) {      // absolute clock time -> virtual time, saturating
  __int128 v = (__int128)ts->tv_sec * 1000000000 + ts->tv_nsec - clockval(c) + now_ns;
  ll lim = 7400000000000000000LL; return v > lim ? lim : v < -lim ? -lim : (ll)v;
}
static void tick() { now_ns += cfg.tick_ns; }
static int cwait(void *c, void *m, bool timed, ll deadline) {
  resched();
  if (mget(m).owner != me->id) bad("cond wait without the mutex");
  unlock_(m);
  Cnd &x = cnds[c]; x.live = true;
  me->timed = timed; me->expired = false; me->deadline = deadline; me->obj2 = m; me->obj = c;
  if (timed && deadline <= now_ns) { me->expired = true; me->st = MUTEX; me->obj = m; }
  else { me->st = COND; x.q.push_back(me->id); }
  resched();
  me->timed = false;
  return me->expired ? ETIMEDOUT : 0;
}
static int sleepfor(ll until) {   // returns 1 if interrupted
  int k = sleeps++; bool intr = (k < 31) && (cfg.eintr >> k & 1);
  ll full = until - now_ns; if (full < 0) full = 0;
  me->timed = true; me->expired = false; me->deadline = intr ? now_ns + full / 100 * cfg.eintr_pct : until; me->st = SLEEP;
  if (me->deadline <= now_ns) { me->st = RUN; }
  resched();
  me->timed = false; now_ns += cfg.tick_ns;
  return intr;
}
}
extern "C" {
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { OFF(0) return cwait(c, m, false, 0); }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  OFF(0) if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL;
  return cwait(c, m, true, to_now(cnds[c].clk, ts)); }
int __wrap_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) {
  OFF(0) if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL;
  return cwait(c, m, true, to_now(k, ts)); }
static void wake_(Cnd &x, size_t i) { Thr *t = T[x.q[i]]; x.q.erase(x.q.begin() + i); t->st = MUTEX; t->obj = t->obj2; }
int __wrap_pthread_cond_signal(pthread_cond_t *c) { OFF(0) resched(); Cnd &x = cnds[c]; if (x.q.empty()) return 0;
  std::vector<Opt> o; for (size_t i = 0; i < x.q.size(); i++) o.push_back({3, (int)i, 0}); wake_(x, choose(o)); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { OFF(0) resched(); Cnd &x = cnds[c]; while (!x.q.empty()) wake_(x, 0); return 0; }
pthread_t __real_pthread_self(void);
pthread_t __wrap_pthread_self(void) { return __real_pthread_self(); }
int __wrap_pthread_create(pthread_t *th, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  OFF(0) int k = creates++; resched();
  if (cfg.fail_create >> k & 1) return EAGAIN;
  Thr *t = mk(fn, arg, at); *th = t->real; resched(); return 0; }
static Thr *find(pthread_t th) { for (int i = 0; i < nT; i++) if (T[i]->real == th) return T[i]; return 0; }
int __wrap_pthread_join(pthread_t th, void **ret) {
  OFF(0) resched(); Thr *t = find(th);
  if (!t || t->joined || t->detached || t == me) { bad("join of a thread that is not joinable"); return ESRCH; }
  t->joined = true; me->st = JOIN; me->joinon = t->id; resched();
  if (ret) *ret = t->ret; return 0; }
int __wrap_pthread_detach(pthread_t th) { OFF(0) resched(); Thr *t = find(th); if (!t || t->joined || t->detached) { bad("detach of a thread that is not joinable"); return EINVAL; } t->detached = true; return 0; }
void __wrap_pthread_exit(void *r) { if (active && me) { resched(); me->ret = r; me->st = FIN; me->vc.c[me->id]++; resched(); } __real_pthread_exit(0); }
int __wrap_pthread_setname_np(pthread_t th, const char *s) { OFF(0) Thr *t = find(th); if (!t || t->joined) bad("setname of a thread that is gone"); volatile size_t n = strlen(s); return n > 15 ? ERANGE : 0; }
int __wrap_pthread_setschedparam(pthread_t, int, const struct sched_param *) { return 0; }
int __wrap_sched_yield(void) { OFF(0) resched(true); return 0; }
int __real_pthread_key_create(pthread_key_t *, void (*)(void *)); int __real_pthread_key_delete(pthread_key_t);
int __real_pthread_setspecific(pthread_key_t, const void *); void *__real_pthread_getspecific(pthread_key_t);
int __wrap_pthread_key_create(pthread_key_t *k, void (*d)(void *)) { if (active && me) resched(); int r = __real_pthread_key_create(k, d); if (r == 0) keys.insert(*k); return r; }
int __wrap_pthread_key_delete(pthread_key_t k) { if (active && me) { resched(); if (!keys.count(k)) bad("delete of a key that does not exist"); } keys.erase(k); return __real_pthread_key_delete(k); }
int __wrap_pthread_setspecific(pthread_key_t k, const void *v) { if (active && me) resched(); return __real_pthread_setspecific(k, v); }
void *__wrap_pthread_getspecific(pthread_key_t k) { if (active && me) resched(); return __real_pthread_getspecific(k); }
// ---- clocks ----------------------------------------------------------------------
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) { OFF(0) ll v = clockval(c); ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000; tick(); return 0; }
int __wrap_gettimeofday(struct timeval *tv, void *) { OFF(0) ll v = rt(); tv->tv_sec = v / 1000000000; tv->tv_usec = v / 1000 % 1000000; tick(); return 0; }
time_t __wrap_time(time_t *p) { OFF(0) time_t s = rt() / 1000000000; if (p) *p = s; tick(); return s; }
static ll sat(const struct timespec *ts) { __int128 v = (__int128)ts->tv_sec * 1000000000 + ts->tv_nsec; return v > 7400000000000000000LL ? 7400000000000000000LL : (ll)v; }
static int slp(const struct timespec *ts, struct timespec *rem) {
  if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000 || ts->tv_sec < 0) { errno = EINVAL; return -1; }
  __int128 u = (__int128)now_ns + sat(ts); ll until = u > 7400000000000000000LL ? 7400000000000000000LL : (ll)u;
  if (sleepfor(until)) { ll r = until - now_ns; if (r < 0) r = 0; if (rem) { rem->tv_sec = r / 1000000000; rem->tv_nsec = r % 1000000000; } errno = EINTR; return -1; }
  return 0; }
int __wrap_nanosleep(const struct timespec *ts, struct timespec *rem) { OFF(0) return slp(ts, rem); }
int __wrap_clock_nanosleep(clockid_t c, int fl, const struct timespec *ts, struct timespec *rem) { OFF(0)
  if (!(fl & TIMER_ABSTIME)) return slp(ts, rem) ? errno : 0;
  if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL;
  return sleepfor(to_now(c, ts)) ? EINTR : 0; }
int __wrap_usleep(useconds_t u) { OFF(0) struct timespec t = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return slp(&t, 0); }
unsigned __wrap_sleep(unsigned s) { OFF(0) struct timespec t = {(time_t)s, 0}, r = {0, 0}; return slp(&t, &r) ? (unsigned)r.tv_sec : 0; }
}

namespace vs {
static void *root(void *p) { (void)p; scenario(); return 0; }
static void one() {
  nums.clear(); cnt = 0; hist.clear(); mtxs.clear(); cnds.clear(); condattr.clear(); syncs.clear(); shadow.clear(); shared.clear();
  pos = 0; spent = 0; steps = 0; creates = sleeps = spurs = 0; race_count = 0; heap_live = 0; now_ns = 0; livelock = false; aborting = false; nT = 0; me = 0; ctl_go = 0;
  active = true; cur = 0;
  Thr *t = mk(root, 0); t->vc.c[0] = 1;
  fwake(t->go);
  fwait(ctl_go);
  aborting = true;
  for (int i = 0; i < nT; i++) { T[i]->go.store(1); syscall(SYS_futex, (int *)&T[i]->go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); __real_pthread_join(T[i]->real, 0); }
  for (int i = 0; i < nT; i++) delete T[i];
  for (auto k : keys) __real_pthread_key_delete(k);
  keys.clear();
  nT = 0; aborting = false;
  scenario_end();
}
static bool backtrack() {
  while (!path.empty()) {
    Dec &d = path.back(); int base = 0;
    for (size_t i = 0; i + 1 < path.size(); i++) base += path[i].costs[path[i].chosen];
    for (int k = d.chosen + 1; k < (int)d.costs.size(); k++) if (base + d.costs[k] <= cfg.preempt) { d.chosen = k; return true; }
    path.pop_back();
  }
  return false;
}
static std::string choices() { std::string s = "["; for (size_t i = 0; i < path.size(); i++) { if (i) s += ','; s += std::to_string(path[i].chosen); } return s + "]"; }
void explore(const Config &c) {
  cfg = c; std::unordered_set<std::string> seen; long n = 0; bool complete = true;
  path.clear(); randomly = false;
  struct timespec t0, t1; __real_clock_gettime(CLOCK_MONOTONIC, &t0);
  auto emit = [&](const char *how, unsigned long long key) {
    if (seen.size() < (size_t)cfg.maxhist && seen.insert(hist).second) { printf("{\"h\":[%s],\"how\":\"%s\",\"key\":\"%llu\",\"path\":%s}\n", hist.c_str(), how, key, randomly ? "[]" : choices().c_str()); }
  };
  if (cfg.replay) { randomly = cfg.rndkey != 0; rs = cfg.rndkey; if (rs) for (int j = 0; j < 8; j++) rnd(); one(); emit("replay", 0); n = 1; }
  else {
    if (cfg.limit) for (;;) { one(); n++; emit("dfs", 0); if (!backtrack()) break; if (n >= cfg.limit) { complete = false; break; } }
    randomly = true;
    for (int i = 0; i < cfg.rnd; i++) { rs = cfg.seed * 1000003ULL + i * 7919ULL + 88172645463325252ULL; unsigned long long k = rs; for (int j = 0; j < 8; j++) rnd(); one(); n++; emit("random", k); }
  }
  __real_clock_gettime(CLOCK_MONOTONIC, &t1);
  printf("{\"done\":1,\"n\":%ld,\"complete\":%s,\"hist\":%ld,\"ms\":%ld}\n", n, complete ? "true" : "false", (long)seen.size(), (long)((t1.tv_sec - t0.tv_sec) * 1000 + (t1.tv_nsec - t0.tv_nsec) / 1000000)); fflush(stdout);
}
}
