// Minimal binary protocol for the libc drivers: requests on stdin, answers on stdout.
#include <stddef.h>
#include <unistd.h>

static unsigned char in_[1 << 20];
static long inlen_, inpos_;
static char out_[1 << 16];
static int outn_;

static void in_init(void) {
  for (;;) {
    long r = read(0, in_ + inlen_, sizeof(in_) - inlen_ < 4096 ? sizeof(in_) - inlen_ : 4096);
    if (r <= 0) break;
    inlen_ += r;
  }
}
static int get1(void) { return inpos_ < inlen_ ? in_[inpos_++] : 0; }
static long long getn(int n) {
  unsigned long long v = 0;
  int i;
  for (i = 0; i < n; ++i) v |= (unsigned long long)get1() << (8 * i);
  return (long long)v;
}
static unsigned char *getp(int n) { unsigned char *p = in_ + inpos_; inpos_ += n; return p; }
static void oflush(void) {
  int o = 0;
  while (o < outn_) { long r = write(1, out_ + o, outn_ - o); if (r <= 0) break; o += r; }
  outn_ = 0;
}
static void oc(int c) { if (outn_ == (int)sizeof(out_)) oflush(); out_[outn_++] = c; }
static void os(const char *s) { while (*s) oc(*s++); }
static void ohex(const void *p_, int n) {
  const unsigned char *p = p_;
  int i;
  for (i = 0; i < n; ++i) { oc("0123456789abcdef"[p[i] >> 4]); oc("0123456789abcdef"[p[i] & 15]); }
}
static void oi(long long v) {
  char b[24];
  int i = 0;
  unsigned long long u = v < 0 ? 0ULL - (unsigned long long)v : (unsigned long long)v;
  if (v < 0) oc('-');
  do { b[i++] = '0' + (int)(u % 10); u /= 10; } while (u);
  while (i > 0) oc(b[--i]);
}
