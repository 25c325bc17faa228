// memcpy between parts of an arena that is exactly as large as the specification says.
// usage: mem <size>, or mem huge
#include <sys/mman.h>
#include <unistd.h>
#include "vf.h"
#include "nanocstring.h"
using namespace vf;
static void rle(const unsigned char *p, long n) {
  out.s("[");
  for (long i = 0, j; i < n; i = j) { for (j = i; j < n && p[j] == p[i]; j++); if (i) out.s(","); out.s("[").i(p[i]).s(",").i(j - i).s("]"); }
  out.s("]");
}
static long runs(unsigned char *p) { long k = num(), n = 0; while (k--) { num(); int v = (int)num(); long c = num(); memset(p + n, v, c); n += c; } return n; }
static void huge() {
  const unsigned long long G4 = 1ull << 32, W = 1 << 20;
  static unsigned char tail[1 << 16];
  long k = runs(tail);
  // source: untouched zero pages and the tail; destination: one megabyte mapped over and over
  unsigned char *s = (unsigned char *)mmap(0, G4 + W, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  memcpy(s + G4, tail, k);
  int fd = memfd_create("vf", 0);
  unsigned char *d = (unsigned char *)mmap(0, G4 + W, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (s == MAP_FAILED || d == MAP_FAILED || fd < 0 || ftruncate(fd, W)) { fprintf(stderr, "no memory\n"); exit(77); }
  for (unsigned long long o = 0; o < G4; o += W) if (mmap(d + o, W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) exit(77);
  unsigned char *e = d + G4;          // the last window is memory of its own
  if (mmap(e, W, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) exit(77);
  memset(e, 165, k + 8);
  if (nanostl::memcpy(d, s, G4 + k) != d) e[0] ^= 255;
  rle(e, k + 8);
}
int main(int, char **av) {
  bool hg = is(av[1], "huge");
  long n = hg ? 8 : atol(av[1]);
  unsigned char *a = (unsigned char *)malloc(n);
  memset(a, 0, n);
  while (next_line()) {
    const char *op = word();
    out.s("{\"res\":");
    if (is(op, "reset")) { memset(a, 0, n); out.s("[]"); }
    else if (is(op, "copy")) { long d = num(), s = num(), k = num(); void *r = nanostl::memcpy(a + d, (const unsigned char *)a + s, (unsigned long long)k); out.s("[").i((unsigned char *)r - a).s("]"); }
    else if (is(op, "put")) { long d = num(); runs(a + d); out.s("[]"); }
    else if (is(op, "huge")) huge();
    else bad_op(op);
    out.s(",\"st\":");
    rle(a, n);
    out.s("}").flush();
  }
  free(a);
  return 0;
}
