// Conversions, sorting, searching, pseudo-random numbers and the allocator.
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "libc_io.h"

static int esize, keyoff, ncmp;
static int cmp(const void *a, const void *b) {
  const unsigned char *p = a, *q = b;
  ++ncmp;
  if (ncmp > 2000000) { oflush(); exit(9); }
  return (int)p[keyoff] - (int)q[keyoff];
}
static int cmprev(const void *a, const void *b) { return -cmp(a, b); }

#define NB 64
static unsigned char *blk[NB];
static size_t siz[NB];
static void fillb(int i, size_t from) { size_t k; for (k = from; k < siz[i]; ++k) blk[i][k] = (unsigned char)(k * 7 + i * 13 + 1); }
static int checkb(int i, size_t n) {
  size_t k;
  for (k = 0; k < n; ++k) if (blk[i][k] != (unsigned char)(k * 7 + i * 13 + 1)) return 0;
  return 1;
}

int main(void) {
  in_init();
  while (inpos_ < inlen_) {
    int op = get1();
    switch (op) {
    case 1: case 2: case 3: case 4: {
      int base = get1(), n = get1();
      char *s = (char*)getp(n), *e = s;
      if (op == 1) oi(strtol(s, &e, base));
      else if (op == 2) oi(strtoll(s, &e, base));
      else if (op == 3) oi((long long)strtoul(s, &e, base));
      else oi((long long)strtoull(s, &e, base));
      oc(' '); oi(e - s);
    } break;
    case 5: case 6: case 7: {
      int n = get1();
      char *s = (char*)getp(n);
      if (op == 5) oi(atoi(s)); else if (op == 6) oi(atol(s)); else oi(atoll(s));
    } break;
    case 8: {
      int n = get1();
      char *s = (char*)getp(n), *e = s;
      double d = strtod(s, &e);
      ohex(&d, 8); oc(' '); oi(e - s);
      d = atof(s); oc(' '); ohex(&d, 8);
      e = s; long double l = strtold(s, &e); d = l; oc(' '); ohex(&d, 8); oc(' '); oi(e - s);
    } break;
    case 9: {   // qsort
      int n = (int)getn(2), rev;
      esize = get1(); keyoff = get1(); rev = get1();
      unsigned char *a = getp(n * esize);
      ncmp = 0;
      qsort(a, n, esize, rev ? cmprev : cmp);
      ohex(a, n * esize);
    } break;
    case 10: {  // bsearch
      int n = (int)getn(2);
      esize = get1(); keyoff = get1();
      unsigned char *key = getp(esize), *a = getp(n * esize);
      ncmp = 0;
      unsigned char *r = bsearch(key, a, n, esize, cmp);
      if (r == NULL) os("null");
      else if (r < a || r >= a + n * esize || (r - a) % esize) os("bad");
      else { os("hit "); oi(r[keyoff]); }
    } break;
    case 11: {
      unsigned short x[3];
      x[0] = getn(2); x[1] = getn(2); x[2] = getn(2);
      int k = get1();
      while (k-- > 0) { oi(nrand48(x)); oc(' '); }
      double d = erand48(x); ohex(&d, 8); oc(' '); ohex(x, 6);
    } break;
    case 12: {
      long seed = (long)getn(4); int k = get1();
      if (k & 1) srand((unsigned int)seed); else srand48(seed);
      while (k-- > 0) {
        oi(k % 3 == 0 ? (long)rand() : lrand48()); oc(' ');
        if (k % 4 == 1) { double d = drand48(); ohex(&d, 8); oc(' '); }
      }
    } break;
    case 13: {
      long long v = getn(8);
      oi(abs((int)v)); oc(' '); oi(labs((long)(int)v)); oc(' '); oi(llabs(v));
    } break;
    case 20: case 21: case 22: {   // malloc, calloc, realloc
      int i = get1();
      size_t n = (size_t)getn(3), old = siz[i], k;
      unsigned char *p;
      if (op == 22) {
        p = realloc(blk[i], n);
        if (n == 0 && p == NULL) { blk[i] = NULL; siz[i] = 0; os("ok"); break; }
      } else {
        if (blk[i]) { os(checkb(i, siz[i]) ? "" : "corrupt "); free(blk[i]); }
        blk[i] = NULL; siz[i] = old = 0;
        p = op == 20 ? malloc(n) : calloc(n / 8 + 1, n % 8);
        if (op == 21) n = (n / 8 + 1) * (n % 8);
      }
      if (p == NULL && n > 0) { os("null"); break; }
      blk[i] = p; siz[i] = n;
      if (op == 21) for (k = 0; k < n; ++k) if (p[k]) { os("notzero "); break; }
      if (op == 22 && !checkb(i, old < n ? old : n)) os("lost ");
      if ((uintptr_t)p & (sizeof(long long) - 1)) os("misaligned ");
      fillb(i, 0);
      for (k = 0; k < NB; ++k)
        if ((int)k != i && blk[k] && n && siz[k] && p < blk[k] + siz[k] && blk[k] < p + n) os("overlap ");
      os("ok");
    } break;
    case 23: {
      int i = get1();
      os(checkb(i, siz[i]) ? "ok" : "corrupt");
      free(blk[i]);
      blk[i] = NULL; siz[i] = 0;
    } break;
    case 24: {
      int i, bad = 0;
      for (i = 0; i < NB; ++i) if (blk[i] && !checkb(i, siz[i])) ++bad;
      os(bad ? "corrupt" : "ok");
    } break;
    case 25: {
      int n = get1();
      char *e = getenv((char*)getp(n));
      os(e ? e : "(none)");
    } break;
    }
    oc('\n');
  }
  oflush();
  return 0;
}
