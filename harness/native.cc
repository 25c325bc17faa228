// The same driver without the scheduler: threads run one after the other, for very long
// sequential histories.
#include "vsched.h"
#include <stdarg.h>
#include <stdio.h>
#include <string>
namespace vs {
static std::string hist;
void point() {}
void join_all() {}
int spawn(void *(*fn)(void *), void *a) { fn(a); return 1; }
void share(void *, size_t) {}
int self() { return 0; }
long long now() { return 0; }
int stack_mb() { return 0; }
int number(void *) { return 0; }
void count() {}
int counted() { return 0; }
long live() { return 0; }
bool released(int) { return false; }
bool created(int) { return false; }
void logf_(const char *f, ...) { char b[512]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); if (!hist.empty()) hist += ','; hist += b; }
void explore(const Config &) { hist.clear(); scenario(); scenario_end(); printf("{\"h\":[%s,{\"e\":\"end\",\"t\":0,\"z\":[0,0]}],\"how\":\"native\",\"key\":\"0\",\"path\":[]}\n{\"done\":1,\"n\":1,\"complete\":true,\"hist\":1,\"ms\":0}\n", hist.c_str()); fflush(stdout); }
}
