// Formats requests through every member of the printf family.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include "libc_io.h"

static char buf[9000];
static int how, size;
static char *mem;
static size_t memsize;

static int call(const char *fmt, ...) {
  int r = -99;
  va_list ap;
  va_start(ap, fmt);
  memset(buf, 0x5a, sizeof(buf));
  if (how == 0) r = vsnprintf(buf, size, fmt, ap);
  else if (how == 1) r = vsprintf(buf, fmt, ap);
  else {
    FILE *fp = open_memstream(&mem, &memsize);
    r = vfprintf(fp, fmt, ap);
    fclose(fp);
    if (mem) { memcpy(buf, mem, memsize); buf[memsize] = 0; free(mem); }
    mem = NULL;
  }
  va_end(ap);
  return r;
}
static double getd(void) { double d; memcpy(&d, getp(8), 8); return d; }

int main(void) {
  in_init();
  while (inpos_ < inlen_) {
    int kind = get1(), r = -98, i;
    how = get1();
    size = (int)getn(2);
    int fl = get1();
    char *fmt = (char*)getp(fl);
    int stars = get1(), s1 = (int)getn(4), s2 = (int)getn(4);
#define ONE(T, v) do { T v_ = (v); r = stars == 0 ? call(fmt, v_) : stars == 1 ? call(fmt, s1, v_) : call(fmt, s1, s2, v_); } while (0)
    switch (kind) {
    case 0: ONE(int, (int)getn(4)); break;
    case 1: ONE(long, (long)getn(8)); break;
    case 2: ONE(long long, getn(8)); break;
    case 3: ONE(size_t, (size_t)getn(8)); break;
    case 4: ONE(double, getd()); break;
    case 5: ONE(void*, (void*)(size_t)getn(8)); break;
    case 6: { int n = get1(); char *p = (char*)getp(n); ONE(char*, p); } break;
    case 7: ONE(long double, (long double)getd()); break;
    case 8: {
      int a = getn(4); double d = getd(); int n = get1(); char *p = (char*)getp(n); long long q = getn(8);
      r = call(fmt, a, d, p, q);
    } break;
    case 9: {
      double d[10];
      for (i = 0; i < 10; ++i) d[i] = getd();
      r = call(fmt, d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8], d[9]);
    } break;
    case 10: {
      int d[9];
      for (i = 0; i < 9; ++i) d[i] = getn(4);
      r = call(fmt, d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8]);
    } break;
    case 11: {
      long long d[8]; double e[2];
      for (i = 0; i < 8; ++i) { if (i == 2) e[0] = getd(); if (i == 5) e[1] = getd(); d[i] = getn(8); }
      r = call(fmt, d[0], d[1], e[0], d[2], d[3], d[4], e[1], d[5], d[6], d[7]);
    } break;
    case 12: memset(buf, 0x5a, sizeof(buf)); r = how == 0 ? snprintf(buf, size, fmt) : sprintf(buf, fmt); break;
    }
    oi(r); oc(' ');
    int n = how == 0 ? (size < (int)sizeof(buf) - 8 ? size + 4 : size) : (int)strlen(buf) + 1;
    if (n > r + 5) n = r + 5;
    ohex(buf, n < 0 ? 0 : n);
    oc('\n');
  }
  oflush();
  return 0;
}
