// siphash: buffers of exactly the given size, at a chosen alignment, inside the heap.
#include "__hashfunc.h"
#include "vf.h"
using namespace vf;
static unsigned char *buf(long n, long al, unsigned char **base) { *base = (unsigned char *)malloc(n + al + 1); memset(*base, 0xA5, n + al + 1); return *base + al; }
int main() {
  while (next_line()) {
    const char *op = word();
    out.s("{\"res\":[");
    if (is(op, "reset")) ;
    else if (is(op, "sip")) {   // i j m: alignments; k: key; n: output length; q: message
      long i = num(), j = num();
      long kn = num(); unsigned char *kb = (unsigned char *)malloc(kn + j), *k = kb + j; for (long x = 0; x < kn; x++) k[x] = (unsigned char)num();
      long m = num(), n = num();
      long qn = num(); unsigned char *qb = (unsigned char *)malloc(qn + i + (qn + i ? 0 : 1)), *q = qb + i; for (long x = 0; x < qn; x++) q[x] = (unsigned char)num();
      unsigned char *ob, *o = buf(n, m, &ob);
      nanostl::siphash(q, (unsigned long long)qn, k, o, (unsigned long long)n);
      for (long x = 0; x < n; x++) { if (x) out.s(","); out.i(o[x]); }
      for (long x = 0; x < m; x++) out.s(",").i(ob[x]);
      out.s(",").i(o[n]);
      free(kb); free(qb); free(ob);
    } else bad_op(op);
    out.s("],\"st\":0}").flush();
  }
  return 0;
}
