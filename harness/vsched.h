#ifndef VF_SCHED_H
#define VF_SCHED_H
#include <stddef.h>
#include <vector>
namespace vs {
struct Config {
  int preempt, limit, rnd, maxsteps, spin, stay, maxhist; bool eager, spurious, replay;
  long long epoch_ns, mono_ns, tick_ns; unsigned long long seed, rndkey; unsigned eintr, fail_create; int eintr_pct; std::vector<int> fixed;
};
// driver side
void scenario();       // runs in thread 0 of every execution
void scenario_end();   // outside of the exploration, after every execution
// runtime side
void explore(const Config &c);
int spawn(void *(*fn)(void *), void *arg);
void join_all();
void share(void *p, size_t n);
int self();
long long now();
long live();
int number(void *p);   // small numbers in order of first appearance
void count(); int counted();
int stack_mb();
bool released(int id); bool created(int id);
void logf_(const char *f, ...);
}
#endif
