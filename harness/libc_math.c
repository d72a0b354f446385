#include <math.h>
#include <string.h>
#include "libc_io.h"
static double getd(void) { double d; memcpy(&d, getp(8), 8); return d; }
static void od(double d) { ohex(&d, 8); oc(' '); }
static volatile double vx, vy;
int main(void) {
  in_init();
  while (inpos_ < inlen_) {
    int op = get1(), n = (int)getn(4);
    vx = getd(); vy = getd();
    double x = vx, y = vy, ip; int e; float f;
    switch (op) {
    case 0: od(floor(x)); break;
    case 1: od(ceil(x)); break;
    case 2: od(round(x)); break;
    case 3: od(fabs(x)); break;
    case 4: f = x; f = fabsf(f); od(f); break;
    case 5: od(copysign(x, y)); break;
    case 6: ip = 77; od(modf(x, &ip)); od(ip); break;
    case 7: e = 77; od(frexp(x, &e)); oi(isfinite(x) ? e : 0); break;
    case 8: od(ldexp(x, n)); break;
    case 9: od(sqrt(x)); break;
    case 10:
      oi(!!isnan(x)); oi(!!isinf(x)); oi(!!isfinite(x)); oi(!!finite(x)); oi(!!signbit(x));
      e = fpclassify(x);
      oi(e == FP_NAN ? 0 : e == FP_INFINITE ? 1 : e == FP_ZERO ? 2 : e == FP_SUBNORMAL ? 3 : e == FP_NORMAL ? 4 : 9);
      break;
    case 11: od(fmod(x, y)); break;
    case 12: od(sin(x)); break;
    case 13: od(cos(x)); break;
    case 14: od(tan(x)); break;
    case 15: od(asin(x)); break;
    case 16: od(acos(x)); break;
    case 17: od(atan(x)); break;
    case 18: od(atan2(x, y)); break;
    case 19: od(sinh(x)); break;
    case 20: od(cosh(x)); break;
    case 21: od(tanh(x)); break;
    case 22: od(asinh(x)); break;
    case 23: od(acosh(x)); break;
    case 24: od(atanh(x)); break;
    case 25: od(exp(x)); break;
    case 26: od(log(x)); break;
    case 27: od(log10(x)); break;
    case 28: od(log2(x)); break;
    case 29: od(pow(x, y)); break;
    }
    oc('\n');
  }
  oflush();
  return 0;
}
