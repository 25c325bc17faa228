// What the C library answers, to find arguments worth judging; the answers decide nothing.
#include <math.h>
extern "C" double elem_ref(int f, double x, double y) {
  switch (f) {
  case 0: return exp(x); case 1: return log(x); case 2: return log10(x); case 3: return sqrt(x); case 4: return cbrt(x);
  case 5: return sin(x); case 6: return cos(x); case 7: return tan(x); case 8: return sinh(x); case 9: return cosh(x);
  case 10: return tanh(x); case 11: return erf(x); case 12: return erfc(x); case 13: return 0; case 14: return pow(x, y);
  }
  return 0;
}
extern "C" double elem_erf(double x) { return erf(x); }
extern "C" double elem_cos(double x) { return cos(x); }
