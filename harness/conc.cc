// Driver for the concurrency exploration: reads scenarios, runs them on the real library
// functions inside the deterministic scheduler, logs call and return events.
#include "vsched.h"
#include <stdint.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <iostream>
#include "libs_thread.h"
using namespace vs;
struct Op { char k; long long a, b; };
typedef std::vector<Op> Prog;
static std::string kind; static std::vector<Prog> progs; static std::vector<long long> par;
static void Z(char *b) { long long n = vs::now(); sprintf(b, "[%lld,%lld]", n / 1000000000, n / 1000 % 1000000); }
static void C(char k, long long a, long long b) { char z[48]; Z(z); logf_("{\"e\":\"c\",\"t\":%d,\"o\":\"%c\",\"a\":%lld,\"b\":%lld,\"z\":%s}", self(), k, a, b, z); }
static void R(long long v) { char z[48]; Z(z); logf_("{\"e\":\"r\",\"t\":%d,\"v\":%lld,\"z\":%s}", self(), v, z); }
static void big(long long v, char *b) { sprintf(b, "[%lld,%lld,%lld,%lld]", v & 65535, v >> 16 & 65535, v >> 32 & 65535, v >> 48 & 65535); }

static thread_queue_t *Q; static long payload[3072]; static void *qbuf[1024];
static thread_mutex_t *M; static long counter[4];
static thread_signal_t *S;
static thread_atomic_int_t *AI; static thread_atomic_ptr_t *AP;
static thread_ptr_t H[8]; 
static thread_tls_t L[8]; static int step;

static int body(void *);
static const char *const names[4] = {"a thread name that is quite a lot longer than the systems allow: "
  "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
  "", "a name of sixty-four characters, as long as anybody will ever ne", "fifteen charact"};
// publication: with a second parameter (a threshold) the first thread writes a note before its first operation, and a
// thread whose operation returns a value of at least that size, which only the first thread can have caused, reads it
static long note; static bool noted;
static void pub() { if (par.size() > 1 && self() == 1 && !noted) { noted = true; note = 1; } }
static void obs(long long r) {
  if (par.size() < 2 || self() == 1 || self() == 0 || (r < par[1] && -r < par[1])) return;
  if (note < 1) logf_("{\"e\":\"bad\",\"t\":%d,\"w\":\"what was done before the operation is not visible\"}", self());
  if (progs.size() == 2) note++;
}
static long long ptrv(void *p) { return (char *)p - (char *)payload; }
static void op(const Op &o) {
  if (kind == "queue") {
    if (o.k == 'P') { payload[o.a] = o.a; C('P', o.a, o.b); R(thread_queue_produce(Q, &payload[o.a], (int)o.b) ? 1 : 0); }
    else if (o.k == 'C') { C('C', 0, o.b); long *p = (long *)thread_queue_consume(Q, (int)o.b); R(!p ? 0 : p < payload || p >= payload + 3072 ? -1 : *p); }
    else if (o.k == 'Z') {   // o.a produce/consume pairs in a row: first wrong answer, or 0
      C('Z', 0, 0); long long bad = 0; enum { RING = 32 }; long n = thread_queue_count(Q); static long *ring[RING]; long r = 0, w = 0;
      // values are told apart by their address: the queue holds n known values already (drained and put back first)
      for (long k = 0; k < n; k++) ring[w++ % RING] = (long *)thread_queue_consume(Q, 0);
      for (long k = 0; k < n; k++) if (!thread_queue_produce(Q, ring[k], 0)) bad = -1;
      auto pairs = [&](long long m) { for (long long k = 1; k <= m && !bad; k++) {
        long *v = &payload[32 + (k & 31)]; if (!thread_queue_produce(Q, v, 0)) { bad = 1; break; }
        ring[w++ % RING] = v; long *g = (long *)thread_queue_consume(Q, 0); if (g != ring[r++ % RING]) { bad = 2; break; }
      } };
      if (o.b) {   // leap: counters that grow by one per pair are advanced by a multiple of a common period
        enum { NW = sizeof(thread_queue_t) / 4 }; int A[NW], B[NW], D[NW], *q = (int *)Q; const int m = 5040 * 4;
        pairs(m); memcpy(A, q, sizeof A); pairs(m); memcpy(B, q, sizeof B); pairs(m); memcpy(D, q, sizeof D);
        int top = 0; bool lin[NW]; for (int k = 0; k < NW; k++) { lin[k] = B[k] - A[k] == m && D[k] - B[k] == m; if (lin[k] && D[k] > top) top = D[k]; }
        int leap = (2147483647 - top) / m * m; for (int k = 0; k < NW; k++) if (lin[k]) q[k] += leap;
      }
      pairs(o.a);
      for (long k = 0; k < n && !bad; k++) { long *g = (long *)thread_queue_consume(Q, 0); if (g != ring[r++ % RING]) bad = 3; }
      if (!bad && thread_queue_consume(Q, 0)) bad = 4;
      R(bad);
    }
    else { C('N', 0, 0); R(thread_queue_count(Q)); }
  } else if (kind == "mutex") {
    if (o.k == 'L') { C('L', o.a, 0); thread_mutex_lock(&M[o.a]); R(0); }
    else if (o.k == 'U') { C('U', o.a, 0); thread_mutex_unlock(&M[o.a]); R(0); }
    else { C('I', o.a, 0); long v = counter[o.a]; counter[o.a] = v + 1; R(v); }
  } else if (kind == "signal") {
    if (o.k == 'R') { C('R', o.a, 0); thread_signal_raise(&S[o.a]); R(0); }
    else { C('W', o.a, o.b); R(thread_signal_wait(&S[o.a], (int)o.b) ? 1 : 0); }
  } else if (kind == "aint") {
    pub(); C(o.k, o.a, o.b); int r = 0, a = (int)o.a, b = (int)o.b;
    switch (o.k) { case 'l': r = thread_atomic_int_load(AI); break; case 's': thread_atomic_int_store(AI, a); break; case 'i': r = thread_atomic_int_inc(AI); break; case 'd': r = thread_atomic_int_dec(AI); break;
      case 'a': r = thread_atomic_int_add(AI, a); break; case 'b': r = thread_atomic_int_sub(AI, a); break; case 'x': r = thread_atomic_int_swap(AI, a); break; default: r = thread_atomic_int_compare_and_swap(AI, a, b); }
    R(r); if (o.k != 's') obs(r);
  } else if (kind == "aptr") {
    pub(); C(o.k, o.a, o.b); char *P = (char *)payload; void *r = P; void *a = P + o.a, *b = P + o.b;
    switch (o.k) { case 'l': r = thread_atomic_ptr_load(AP); break; case 's': thread_atomic_ptr_store(AP, a); break; case 'x': r = thread_atomic_ptr_swap(AP, a); break; default: r = thread_atomic_ptr_compare_and_swap(AP, a, b); }
    long long v = ptrv(r); R(v < 0 || v > 511 ? -1 : v); if (o.k != 's') obs(v);
  } else if (kind == "thread") {
    if (o.k == 'K') { C('K', o.a, o.b); H[o.a] = thread_create(body, (void *)(intptr_t)o.b, (o.b & 1) ? names[o.a % 4] : 0, (o.b & 2) ? 32 << 20 : THREAD_STACK_SIZE_DEFAULT); R(H[o.a] ? 1 : 0); }
    else if (o.k == 'J') { if (!H[o.a]) return; C('J', o.a, 0); R(thread_join(H[o.a])); }
    else if (o.k == 'D') { if (!H[o.a]) return; C('D', o.a, 0); thread_destroy(H[o.a]); vs::count(); R(0); }
    else if (o.k == 'I') { C('I', 0, 0); R(vs::number(thread_current_thread_id())); }
    else if (o.k == 'Y') { thread_yield(); }
    else if (o.k == 'X') { logf_("{\"e\":\"f\",\"t\":%d,\"v\":%d}", self(), (int)o.a); thread_exit((int)o.a); logf_("{\"e\":\"bad\",\"t\":%d,\"w\":\"thread_exit returned\"}", self()); }
  } else if (kind == "tls") {
    if (o.k == 'K') { C('K', o.a, 0); L[o.a] = thread_tls_create(); R(L[o.a] ? 1 : 0); }
    else if (o.k == 'D') { C('D', o.a, 0); thread_tls_destroy(L[o.a]); R(0); }
    else if (o.k == 'V') __atomic_add_fetch(&step, 1, __ATOMIC_SEQ_CST);                                   // orders the operations of several threads
    else if (o.k == 'W') { while (__atomic_load_n(&step, __ATOMIC_SEQ_CST) < o.a) sched_yield(); }
    else if (o.k == 'S') { C('S', o.a, o.b); thread_tls_set(L[o.a], o.b ? (void *)&payload[o.b] : 0); R(0); }
    else { C('G', o.a, 0); long *p = (long *)thread_tls_get(L[o.a]); R(!p ? 0 : p < payload || p >= payload + 64 ? -1 : p - payload); }
  } else if (kind == "timer") {
    thread_timer_t tm; thread_timer_init(&tm); long long t = vs::now();
    char b[80]; big(o.a, b); logf_("{\"e\":\"c\",\"t\":%d,\"o\":\"T\",\"q\":%s}", self(), b);
    thread_timer_wait(&tm, (THREAD_U64)o.a); big(vs::now() - t, b); logf_("{\"e\":\"r\",\"t\":%d,\"q\":%s}", self(), b); thread_timer_term(&tm);
  }
}
static int run(const Prog &p, bool th) { for (size_t i = 0; i < p.size(); i++) { if (p[i].k == 'E') { if (th) logf_("{\"e\":\"f\",\"t\":%d,\"v\":%d}", self(), (int)p[i].a); return (int)p[i].a; } op(p[i]); } return 0; }
static int body(void *a) { intptr_t k = (intptr_t)a; logf_("{\"e\":\"s\",\"t\":%d,\"a\":%d,\"k\":%d}", self(), (int)k, vs::stack_mb()); if (k < 0 || k / 4 >= (intptr_t)progs.size()) return -1; return run(progs[k / 4], true); }
static void *thr(void *p) { run(*(const Prog *)p, false); return 0; }

// objects are given exactly their declared size, inside their own blocks, with canaries
template <class X> static X *fresh(int n) { size_t z = sizeof(X) * n; char *p = (char *)calloc(1, z + 64) + 32; memset(p - 32, 0x5a, 32); memset(p + z, 0x5a, 32); memset(p, 0xA5, z); return (X *)p; }
template <class X> static void drop(X *&x, int n) { if (!x) return; char *p = (char *)x; size_t z = sizeof(X) * n; for (int i = 0; i < 32; i++) if (p[-1 - i] != 0x5a || p[z + i] != 0x5a) { fprintf(stderr, "object overran its storage\n"); abort(); } free(p - 32); x = 0; }

void vs::scenario() {
  if (kind == "queue") {      // par: capacity, preload count
    share(Q, sizeof *Q); share(qbuf, sizeof(void *) * par[0]); share(payload, sizeof(long) * (par[0] < 8 ? 64 : 3072));
    for (int i = 0; i < par[1]; i++) { payload[i + 1] = i + 1; qbuf[i] = &payload[i + 1]; }
    thread_queue_init(Q, (int)par[0], qbuf, (int)par[1]);
  } else if (kind == "mutex") { share(M, sizeof *M * par[0]); share(counter, sizeof counter); for (int i = 0; i < par[0]; i++) thread_mutex_init(&M[i]); }
  else if (kind == "signal") { share(S, sizeof *S * par[0]); for (int i = 0; i < par[0]; i++) thread_signal_init(&S[i]); }
  else if (kind == "aint") { share(AI, sizeof *AI); share(&note, sizeof note); thread_atomic_int_store(AI, (int)par[0]); }
  else if (kind == "aptr") { share(AP, sizeof *AP); share(&note, sizeof note); thread_atomic_ptr_store(AP, (char *)payload + par[0]); }
  else if (kind == "tls") { for (int i = 0; i < par[0]; i++) { C('K', i, 0); L[i] = thread_tls_create(); R(L[i] ? 1 : 0); } }
  if (kind == "thread" || kind == "timer") {
    run(progs[0], kind == "thread");
    if (kind == "thread") join_all();
  } else {
    for (size_t i = 0; i < progs.size(); i++) spawn(thr, &progs[i]);
    join_all();
    if (kind == "queue") { op(Op{'N', 0, 0}); thread_queue_term(Q); }
    else if (kind == "mutex") for (int i = 0; i < par[0]; i++) thread_mutex_term(&M[i]);
    else if (kind == "signal") for (int i = 0; i < par[0]; i++) thread_signal_term(&S[i]);
    else if (kind == "aint") op(Op{'l', 0, 0});
    else if (kind == "aptr") op(Op{'l', 0, 0});
  }
  if (kind == "thread") { std::string s; for (int i = 1; i < 12; i++) if (vs::created(i) && vs::released(i)) s += (s.empty() ? "" : ",") + std::to_string(i); logf_("{\"e\":\"rel\",\"t\":0,\"q\":[%s],\"v\":%ld,\"d\":%d}", s.c_str(), live(), vs::counted()); }
}
static void make() {
  if (kind == "queue") Q = fresh<thread_queue_t>(1); else if (kind == "mutex") M = fresh<thread_mutex_t>((int)par[0]); else if (kind == "signal") S = fresh<thread_signal_t>((int)par[0]);
  else if (kind == "aint") { AI = fresh<thread_atomic_int_t>(1); memset(AI, 0, sizeof *AI); } else if (kind == "aptr") { AP = fresh<thread_atomic_ptr_t>(1); memset(AP, 0, sizeof *AP); }
  memset(payload, 0, sizeof payload); memset(qbuf, 0, sizeof qbuf); memset(counter, 0, sizeof counter); memset(H, 0, sizeof H); memset(L, 0, sizeof L); step = 0; note = 0; noted = false;
}
void vs::scenario_end() { drop(Q, 1); drop(M, par.empty() ? 0 : (int)par[0]); drop(S, par.empty() ? 0 : (int)par[0]); drop(AI, 1); drop(AP, 1); make(); }
int main() {
  std::string k;
  while (std::cin >> k) {
    Config c; int e, s, r, n;
    std::cin >> c.preempt >> c.limit >> c.rnd >> c.maxsteps >> c.spin >> c.stay >> c.maxhist >> e >> s >> c.epoch_ns >> c.mono_ns >> c.tick_ns >> c.seed >> c.eintr >> c.eintr_pct >> c.fail_create >> c.rndkey >> r >> n;
    c.eager = e; c.spurious = s; c.replay = r; c.fixed.resize(n); for (auto &x : c.fixed) std::cin >> x;
    std::cin >> n; par.resize(n); for (auto &x : par) std::cin >> x;
    std::cin >> n; progs.assign(n, Prog());
    for (auto &p : progs) { std::cin >> n; p.resize(n); for (auto &o : p) std::cin >> o.k >> o.a >> o.b; }
    if (!std::cin) { fprintf(stderr, "bad scenario\n"); return 77; }
    kind = k; make(); explore(c);
    Q = 0; M = 0; S = 0; AI = 0; AP = 0;
  }
  return 0;
}
