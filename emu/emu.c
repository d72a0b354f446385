// User-mode emulator for static ELF executables of riscv64 (IMFDC) and aarch64 (the subset compilers of integer and
// scalar floating code use). Strict: an encoding it does not know, a wild access or a misaligned jump ends the run.
// Exit status 120..127 means the emulator stopped the program, with a reason on stderr.
#include <elf.h>
#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef int32_t i32;
typedef uint16_t u16; typedef int16_t i16; typedef uint8_t u8; typedef int8_t i8;
typedef __int128 i128; typedef unsigned __int128 u128;

#define MEMSIZE (256UL << 20)
#define STACK   (8UL << 20)
static u8 *mem;
static u64 lo = ~0UL, hi, brk_, brk0;   // image
static u64 pc, steps, limit = 400000000;
static u64 textlo = ~0UL, texthi;

static void die(int code, const char *fmt, u64 a) {
  fflush(stdout);
  fprintf(stderr, "emu: ");
  fprintf(stderr, fmt, (unsigned long)a);
  fprintf(stderr, " at pc=%lx\n", (unsigned long)pc);
  _exit(code);
}

static inline u8 *at(u64 a, unsigned n) {
  if ((a >= lo && a + n <= brk_) || (a >= MEMSIZE - STACK && a + n <= MEMSIZE)) return mem + a;
  die(121, "bad address %lx", a);
  return 0;
}
static inline u8 *wr(u64 a, unsigned n) {
  if (a < texthi && a + n > textlo) die(122, "write to read-only address %lx", a);
  return at(a, n);
}
#define LD(t, a) ({ t v_; memcpy(&v_, at((a), sizeof(t)), sizeof(t)); v_; })
#define ST(t, a, v) do { t v_ = (t)(v); memcpy(wr((a), sizeof(t)), &v_, sizeof(t)); } while (0)

static i64 syscall_(u64 no, u64 a, u64 b, u64 c) {
  switch (no) {
  case 64:
    if (a != 1 && a != 2) return -9;
    at(b, c ? c : 1);
    return write((int)a, mem + b, c);
  case 93: case 94: _exit((int)a & 255);
  case 214:
    if (a >= brk0 && a < MEMSIZE - STACK - 4096) brk_ = a;
    return brk_;
  }
  return -38;
}

static inline double fd(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static inline u64 du(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static inline float ff(u32 v) { float d; memcpy(&d, &v, 4); return d; }
static inline u32 fu(float d) { u32 v; memcpy(&v, &d, 4); return v; }

// conversions: round `d` to an integer by mode, then saturate
static double rnd(double d, int rm) {
  switch (rm) { case 1: return trunc(d); case 2: return floor(d); case 3: return ceil(d); case 4: return round(d); default: return rint(d); }
}
static i64 sat_i64(double d, i64 nanv) { return d != d ? nanv : d >= 9223372036854775808.0 ? INT64_MAX : d < -9223372036854775808.0 ? INT64_MIN : (i64)d; }
static u64 sat_u64(double d, u64 nanv) { return d != d ? nanv : d >= 18446744073709551616.0 ? UINT64_MAX : d <= 0 ? 0 : (u64)d; }
static i32 sat_i32(double d, i32 nanv) { return d != d ? nanv : d >= 2147483648.0 ? INT32_MAX : d < -2147483648.0 ? INT32_MIN : (i32)d; }
static u32 sat_u32(double d, u32 nanv) { return d != d ? nanv : d >= 4294967296.0 ? UINT32_MAX : d <= 0 ? 0 : (u32)d; }

// ------------------------------------------------------------------ riscv64
static u64 x[32], f[32];
#define BOX(v) (0xffffffff00000000UL | (u32)(v))
static inline float rs_(int r) { return (f[r] >> 32) == 0xffffffff ? ff((u32)f[r]) : ff(0x7fc00000); }
static inline u32 rsb(int r) { return (f[r] >> 32) == 0xffffffff ? (u32)f[r] : 0x7fc00000; }
static inline void wd_(int r, double d) { f[r] = d != d ? 0x7ff8000000000000UL : du(d); }
static inline void ws_(int r, float d) { f[r] = BOX(d != d ? 0x7fc00000u : fu(d)); }

static void rv_ill(u64 i) { die(123, "unknown instruction %08lx", i); }

static void rv_fp(u32 i) {
  int rd = i >> 7 & 31, rs1 = i >> 15 & 31, rs2 = i >> 20 & 31, rm = i >> 12 & 7, f7 = i >> 25;
  int dbl = f7 & 3;
  if (dbl > 1) rv_ill(i);
  int frm = rm == 7 ? 0 : rm;
  int op = f7 >> 2;
  if ((op <= 3 || op == 11 || op == 8 || op == 26) && rm != 7 && rm != 0 && !(op == 8 && dbl) && !(op == 26)) rv_ill(i);
  switch (op) {
  case 0: if (dbl) wd_(rd, fd(f[rs1]) + fd(f[rs2])); else ws_(rd, rs_(rs1) + rs_(rs2)); return;
  case 1: if (dbl) wd_(rd, fd(f[rs1]) - fd(f[rs2])); else ws_(rd, rs_(rs1) - rs_(rs2)); return;
  case 2: if (dbl) wd_(rd, fd(f[rs1]) * fd(f[rs2])); else ws_(rd, rs_(rs1) * rs_(rs2)); return;
  case 3: if (dbl) wd_(rd, fd(f[rs1]) / fd(f[rs2])); else ws_(rd, rs_(rs1) / rs_(rs2)); return;
  case 11: if (rs2) rv_ill(i); if (dbl) wd_(rd, sqrt(fd(f[rs1]))); else ws_(rd, sqrtf(rs_(rs1))); return;
  case 4:
    if (dbl) {
      u64 a = f[rs1], b = f[rs2], s = 1UL << 63;
      if (rm == 0) f[rd] = (a & ~s) | (b & s); else if (rm == 1) f[rd] = (a & ~s) | (~b & s); else if (rm == 2) f[rd] = a ^ (b & s); else rv_ill(i);
    } else {
      u32 a = rsb(rs1), b = rsb(rs2), s = 1U << 31;
      if (rm == 0) f[rd] = BOX((a & ~s) | (b & s)); else if (rm == 1) f[rd] = BOX((a & ~s) | (~b & s)); else if (rm == 2) f[rd] = BOX(a ^ (b & s)); else rv_ill(i);
    }
    return;
  case 8:
    if (dbl == 0 && rs2 == 1) { ws_(rd, (float)fd(f[rs1])); return; }
    if (dbl == 1 && rs2 == 0) { wd_(rd, (double)rs_(rs1)); return; }
    rv_ill(i); return;
  case 20: {
    int r;
    if (dbl) { double a = fd(f[rs1]), b = fd(f[rs2]); r = rm == 2 ? a == b : rm == 1 ? a < b : a <= b; }
    else { float a = rs_(rs1), b = rs_(rs2); r = rm == 2 ? a == b : rm == 1 ? a < b : a <= b; }
    if (rm > 2) rv_ill(i);
    x[rd] = r; return; }
  case 24: {
    double v = dbl ? fd(f[rs1]) : (double)rs_(rs1);
    if (frm > 4) rv_ill(i);
    v = rnd(v, frm);
    switch (rs2) {
    case 0: x[rd] = (i64)sat_i32(v, INT32_MAX); return;
    case 1: x[rd] = (i64)(i32)sat_u32(v, UINT32_MAX); return;
    case 2: x[rd] = sat_i64(v, INT64_MAX); return;
    case 3: x[rd] = sat_u64(v, UINT64_MAX); return;
    }
    rv_ill(i); return; }
  case 26:
    if (rm != 7 && rm != 0) rv_ill(i);
    switch (rs2) {
    case 0: if (dbl) wd_(rd, (i32)x[rs1]); else ws_(rd, (float)(i32)x[rs1]); return;
    case 1: if (dbl) wd_(rd, (u32)x[rs1]); else ws_(rd, (float)(u32)x[rs1]); return;
    case 2: if (dbl) wd_(rd, (double)(i64)x[rs1]); else ws_(rd, (float)(i64)x[rs1]); return;
    case 3: if (dbl) wd_(rd, (double)x[rs1]); else ws_(rd, (float)x[rs1]); return;
    }
    rv_ill(i); return;
  case 28:
    if (rs2 || (rm != 0 && rm != 1)) rv_ill(i);
    if (rm == 0) { x[rd] = dbl ? f[rs1] : (u64)(i64)(i32)f[rs1]; return; }
    { double v = dbl ? fd(f[rs1]) : (double)rs_(rs1);
      u64 bits = dbl ? f[rs1] : 0; u32 b4 = dbl ? 0 : rsb(rs1);
      int neg = dbl ? bits >> 63 : b4 >> 31, sub = dbl ? ((bits >> 52 & 2047) == 0) : ((b4 >> 23 & 255) == 0);
      int quiet = dbl ? (bits >> 51 & 1) : (b4 >> 22 & 1);
      int k = v != v ? (quiet ? 9 : 8) : isinf(v) ? (neg ? 0 : 7) : v == 0 ? (neg ? 3 : 4) : sub ? (neg ? 2 : 5) : (neg ? 1 : 6);
      x[rd] = 1 << k; return; }
  case 30:
    if (rs2 || rm) rv_ill(i);
    f[rd] = dbl ? x[rs1] : BOX(x[rs1]); return;
  case 5: {
    if (rm > 1) rv_ill(i);
    if (dbl) { double a = fd(f[rs1]), b = fd(f[rs2]); wd_(rd, rm ? fmax(a, b) : fmin(a, b)); }
    else { float a = rs_(rs1), b = rs_(rs2); ws_(rd, rm ? fmaxf(a, b) : fminf(a, b)); }
    return; }
  }
  rv_ill(i);
}

static void rv_op(u32 i);

static void rv_c(u16 c) {
  // expands a compressed instruction to what it stands for
  int op = c & 3, f3 = c >> 13;
  int rd = c >> 7 & 31, rs2 = c >> 2 & 31, rdp = (c >> 2 & 7) + 8, r1p = (c >> 7 & 7) + 8;
  i64 imm6 = (i64)((u64)((c >> 12 & 1) << 5 | (c >> 2 & 31)) << 58) >> 58;
  u64 t;
#define BIT(n, to) ((u64)(c >> (n) & 1) << (to))
  switch (op << 3 | f3) {
  case 000: t = BIT(12,5)|BIT(11,4)|BIT(10,9)|BIT(9,8)|BIT(8,7)|BIT(7,6)|BIT(6,2)|BIT(5,3); if (!t) rv_ill(c); x[rdp] = x[2] + t; return;
  case 001: t = BIT(12,5)|BIT(11,4)|BIT(10,3)|BIT(6,7)|BIT(5,6); f[rdp] = LD(u64, x[r1p] + t); return;
  case 002: t = BIT(12,5)|BIT(11,4)|BIT(10,3)|BIT(6,2)|BIT(5,6); x[rdp] = (i64)LD(i32, x[r1p] + t); return;
  case 003: t = BIT(12,5)|BIT(11,4)|BIT(10,3)|BIT(6,7)|BIT(5,6); x[rdp] = LD(u64, x[r1p] + t); return;
  case 005: t = BIT(12,5)|BIT(11,4)|BIT(10,3)|BIT(6,7)|BIT(5,6); ST(u64, x[r1p] + t, f[rdp]); return;
  case 006: t = BIT(12,5)|BIT(11,4)|BIT(10,3)|BIT(6,2)|BIT(5,6); ST(u32, x[r1p] + t, x[rdp]); return;
  case 007: t = BIT(12,5)|BIT(11,4)|BIT(10,3)|BIT(6,7)|BIT(5,6); ST(u64, x[r1p] + t, x[rdp]); return;
  case 010: x[rd] += imm6; return;
  case 011: if (!rd) rv_ill(c); x[rd] = (i64)(i32)(x[rd] + imm6); return;
  case 012: x[rd] = imm6; return;
  case 013:
    if (rd == 2) {
      i64 v = (i64)(BIT(12,9)|BIT(6,4)|BIT(5,6)|BIT(4,8)|BIT(3,7)|BIT(2,5)) << 54 >> 54;
      if (!v) rv_ill(c);
      x[2] += v; return;
    }
    if (!imm6) rv_ill(c);
    x[rd] = imm6 << 12; return;
  case 014: {
    int sh = (c >> 12 & 1) << 5 | (c >> 2 & 31);
    switch (c >> 10 & 3) {
    case 0: x[r1p] >>= sh; return;
    case 1: x[r1p] = (i64)x[r1p] >> sh; return;
    case 2: x[r1p] &= imm6; return;
    }
    u64 b = x[rdp];
    switch ((c >> 12 & 1) << 2 | (c >> 5 & 3)) {
    case 0: x[r1p] -= b; return;
    case 1: x[r1p] ^= b; return;
    case 2: x[r1p] |= b; return;
    case 3: x[r1p] &= b; return;
    case 4: x[r1p] = (i64)(i32)(x[r1p] - b); return;
    case 5: x[r1p] = (i64)(i32)(x[r1p] + b); return;
    }
    rv_ill(c); return; }
  case 015: {
    i64 v = (i64)(BIT(12,11)|BIT(11,4)|BIT(10,9)|BIT(9,8)|BIT(8,10)|BIT(7,6)|BIT(6,7)|BIT(5,3)|BIT(4,2)|BIT(3,1)|BIT(2,5)) << 52 >> 52;
    pc += v - 2; return; }
  case 016: case 017: {
    i64 v = (i64)(BIT(12,8)|BIT(11,4)|BIT(10,3)|BIT(6,7)|BIT(5,6)|BIT(4,2)|BIT(3,1)|BIT(2,5)) << 55 >> 55;
    if ((x[r1p] == 0) == (f3 == 6)) pc += v - 2;
    return; }
  case 020: { int sh = (c >> 12 & 1) << 5 | rs2; x[rd] <<= sh; return; }
  case 021: t = BIT(12,5)|BIT(6,4)|BIT(5,3)|BIT(4,8)|BIT(3,7)|BIT(2,6); f[rd] = LD(u64, x[2] + t); return;
  case 022: t = BIT(12,5)|BIT(6,4)|BIT(5,3)|BIT(4,2)|BIT(3,7)|BIT(2,6); if (!rd) rv_ill(c); x[rd] = (i64)LD(i32, x[2] + t); return;
  case 023: t = BIT(12,5)|BIT(6,4)|BIT(5,3)|BIT(4,8)|BIT(3,7)|BIT(2,6); if (!rd) rv_ill(c); x[rd] = LD(u64, x[2] + t); return;
  case 024:
    if (c >> 12 & 1) {
      if (!rs2) { if (!rd) rv_ill(c); u64 to = x[rd]; x[1] = pc + 2; pc = to - 2; return; }
      x[rd] += x[rs2]; return;
    }
    if (!rs2) { if (!rd) rv_ill(c); pc = x[rd] - 2; return; }
    x[rd] = x[rs2]; return;
  case 025: t = BIT(12,5)|BIT(11,4)|BIT(10,3)|BIT(9,8)|BIT(8,7)|BIT(7,6); ST(u64, x[2] + t, f[rs2]); return;
  case 026: t = BIT(12,5)|BIT(11,4)|BIT(10,3)|BIT(9,2)|BIT(8,7)|BIT(7,6); ST(u32, x[2] + t, x[rs2]); return;
  case 027: t = BIT(12,5)|BIT(11,4)|BIT(10,3)|BIT(9,8)|BIT(8,7)|BIT(7,6); ST(u64, x[2] + t, x[rs2]); return;
  }
  rv_ill(c);
}

static void rv_op(u32 i) {
  int rd = i >> 7 & 31, rs1 = i >> 15 & 31, rs2 = i >> 20 & 31, f3 = i >> 12 & 7, f7 = i >> 25;
  i64 imm = (i64)(i32)i >> 20;
  i64 simm = ((i64)(i32)i >> 25) * 32 + rd;
  u64 a = x[rs1], b = x[rs2];
  switch (i & 127) {
  case 0x37: x[rd] = (i64)(i32)(i & 0xfffff000); return;
  case 0x17: x[rd] = pc + (i64)(i32)(i & 0xfffff000); return;
  case 0x6f: {
    i64 v = ((i64)(i32)i >> 31) * (1 << 20) + (i & 0xff000) + ((i >> 20 & 1) << 11) + ((i >> 21 & 1023) << 1);
    x[rd] = pc + 4; pc += v - 4; return; }
  case 0x67: if (f3) rv_ill(i); { u64 t = (a + imm) & ~1UL; x[rd] = pc + 4; pc = t - 4; return; }
  case 0x63: {
    i64 v = ((i64)(i32)i >> 31) * 4096 + ((i >> 7 & 1) << 11) + ((i >> 25 & 63) << 5) + ((i >> 8 & 15) << 1);
    int t;
    switch (f3) {
    case 0: t = a == b; break; case 1: t = a != b; break;
    case 4: t = (i64)a < (i64)b; break; case 5: t = (i64)a >= (i64)b; break;
    case 6: t = a < b; break; case 7: t = a >= b; break;
    default: rv_ill(i); return;
    }
    if (t) pc += v - 4;
    return; }
  case 0x03:
    switch (f3) {
    case 0: x[rd] = (i64)LD(i8, a + imm); return;
    case 1: x[rd] = (i64)LD(i16, a + imm); return;
    case 2: x[rd] = (i64)LD(i32, a + imm); return;
    case 3: x[rd] = LD(u64, a + imm); return;
    case 4: x[rd] = LD(u8, a + imm); return;
    case 5: x[rd] = LD(u16, a + imm); return;
    case 6: x[rd] = LD(u32, a + imm); return;
    }
    break;
  case 0x23:
    switch (f3) {
    case 0: ST(u8, a + simm, b); return;
    case 1: ST(u16, a + simm, b); return;
    case 2: ST(u32, a + simm, b); return;
    case 3: ST(u64, a + simm, b); return;
    }
    break;
  case 0x07:
    if (f3 == 2) { f[rd] = BOX(LD(u32, a + imm)); return; }
    if (f3 == 3) { f[rd] = LD(u64, a + imm); return; }
    break;
  case 0x27:
    if (f3 == 2) { ST(u32, a + simm, f[rs2]); return; }
    if (f3 == 3) { ST(u64, a + simm, f[rs2]); return; }
    break;
  case 0x13: {
    int sh = imm & 63, top = (i >> 26);
    switch (f3) {
    case 0: x[rd] = a + imm; return;
    case 2: x[rd] = (i64)a < imm; return;
    case 3: x[rd] = a < (u64)imm; return;
    case 4: x[rd] = a ^ imm; return;
    case 6: x[rd] = a | imm; return;
    case 7: x[rd] = a & imm; return;
    case 1: if (top) rv_ill(i); x[rd] = a << sh; return;
    case 5: if (top == 0) { x[rd] = a >> sh; return; } if (top == 16) { x[rd] = (i64)a >> sh; return; } rv_ill(i);
    }
    break; }
  case 0x1b: {
    int sh = rs2;
    if (f3 == 0) { x[rd] = (i64)(i32)(a + imm); return; }
    if (f3 == 1 && f7 == 0) { x[rd] = (i64)(i32)((u32)a << sh); return; }
    if (f3 == 5 && f7 == 0) { x[rd] = (i64)(i32)((u32)a >> sh); return; }
    if (f3 == 5 && f7 == 32) { x[rd] = (i64)((i32)a >> sh); return; }
    break; }
  case 0x33:
    switch (f7 << 3 | f3) {
    case 0: x[rd] = a + b; return;
    case 32 << 3: x[rd] = a - b; return;
    case 1: x[rd] = a << (b & 63); return;
    case 2: x[rd] = (i64)a < (i64)b; return;
    case 3: x[rd] = a < b; return;
    case 4: x[rd] = a ^ b; return;
    case 5: x[rd] = a >> (b & 63); return;
    case 32 << 3 | 5: x[rd] = (i64)a >> (b & 63); return;
    case 6: x[rd] = a | b; return;
    case 7: x[rd] = a & b; return;
    case 8: x[rd] = a * b; return;
    case 9: x[rd] = (u64)((i128)(i64)a * (i64)b >> 64); return;
    case 10: x[rd] = (u64)((i128)(i64)a * (i128)(u128)b >> 64); return;
    case 11: x[rd] = (u64)((u128)a * b >> 64); return;
    case 12: x[rd] = b == 0 ? -1UL : (i64)b == -1 ? -a : (u64)((i64)a / (i64)b); return;
    case 13: x[rd] = b == 0 ? -1UL : a / b; return;
    case 14: x[rd] = b == 0 ? a : (i64)b == -1 ? 0 : (u64)((i64)a % (i64)b); return;
    case 15: x[rd] = b == 0 ? a : a % b; return;
    }
    break;
  case 0x3b: {
    u32 p = (u32)a, q = (u32)b;
    switch (f7 << 3 | f3) {
    case 0: x[rd] = (i64)(i32)(p + q); return;
    case 32 << 3: x[rd] = (i64)(i32)(p - q); return;
    case 1: x[rd] = (i64)(i32)(p << (q & 31)); return;
    case 5: x[rd] = (i64)(i32)(p >> (q & 31)); return;
    case 32 << 3 | 5: x[rd] = (i64)((i32)p >> (q & 31)); return;
    case 8: x[rd] = (i64)(i32)(p * q); return;
    case 12: x[rd] = (i64)(i32)(q == 0 ? -1U : q == -1U ? -p : (u32)((i32)p / (i32)q)); return;
    case 13: x[rd] = (i64)(i32)(q == 0 ? -1U : p / q); return;
    case 14: x[rd] = (i64)(i32)(q == 0 ? p : q == -1U ? 0 : (u32)((i32)p % (i32)q)); return;
    case 15: x[rd] = (i64)(i32)(q == 0 ? p : p % q); return;
    }
    break; }
  case 0x53: rv_fp(i); return;
  case 0x43: case 0x47: case 0x4b: case 0x4f: {
    int r3 = i >> 27, dbl = i >> 25 & 3, k = i >> 2 & 3;
    if (dbl > 1) break;
    if (dbl) { double p = fd(f[rs1]), q = fd(f[rs2]), r = fd(f[r3]); wd_(rd, fma(k & 2 ? -p : p, q, k == 1 || k == 3 ? -r : r)); }
    else { float p = rs_(rs1), q = rs_(rs2), r = rs_(r3); ws_(rd, fmaf(k & 2 ? -p : p, q, k == 1 || k == 3 ? -r : r)); }
    return; }
  case 0x73: if (i == 0x73) { x[10] = syscall_(x[17], x[10], x[11], x[12]); return; } break;
  case 0x0f: return;
  }
  rv_ill(i);
}

static void run_rv(u64 entry, u64 sp) {
  pc = entry;
  x[2] = sp;
  for (;;) {
    if (++steps > limit) die(124, "too many steps (%ld)", steps);
    if (pc & 1) die(125, "misaligned jump to %lx", pc);
    if (pc < textlo || pc >= texthi) die(126, "jump to %lx, outside of the text", pc);
    u16 h = LD(u16, pc);
    if ((h & 3) != 3) { rv_c(h); pc += 2; }
    else { u32 w = LD(u32, pc); rv_op(w); pc += 4; }
    x[0] = 0;
  }
}

// ------------------------------------------------------------------ aarch64
static u64 r[33];      // r[31] = sp, r[32] = zero register sink
static u64 v[32];      // low 64 bits of the SIMD registers
static int N, Z, C, V;
static inline u64 gz(int k) { return k == 31 ? 0 : r[k]; }
static inline void wz(int k, int sf, u64 val) { if (k != 31) r[k] = sf ? val : (u32)val; }
static inline void wsp(int k, int sf, u64 val) { r[k] = sf ? val : (u32)val; }
static void a_ill(u64 i) { die(123, "unknown instruction %08lx", i); }

static u64 shift(u64 val, int type, int n, int sf) {
  if (!sf) {
    u32 w = (u32)val;
    if (n > 31) a_ill(0);
    switch (type) { case 0: return (u32)(w << n); case 1: return w >> n; case 2: return (u32)((i32)w >> n); default: return n ? (u32)(w >> n | w << (32 - n)) : w; }
  }
  switch (type) { case 0: return val << n; case 1: return val >> n; case 2: return (i64)val >> n; default: return n ? val >> n | val << (64 - n) : val; }
}
static u64 extend(u64 val, int opt, int n) {
  switch (opt) {
  case 0: val = (u8)val; break; case 1: val = (u16)val; break; case 2: val = (u32)val; break; case 3: break;
  case 4: val = (i64)(i8)val; break; case 5: val = (i64)(i16)val; break; case 6: val = (i64)(i32)val; break; case 7: break;
  }
  return val << n;
}
static u64 addsub(u64 a, u64 b, int sub, int flags, int sf) {
  u64 res;
  if (sf) {
    u64 bb = sub ? ~b : b;
    u128 s = (u128)a + bb + sub;
    res = (u64)s;
    if (flags) { N = res >> 63; Z = res == 0; C = s >> 64 & 1; V = (~(a ^ bb) & (a ^ res)) >> 63; }
  } else {
    u32 aa = (u32)a, bb = sub ? ~(u32)b : (u32)b;
    u64 s = (u64)aa + bb + sub;
    res = (u32)s;
    if (flags) { N = res >> 31 & 1; Z = res == 0; C = s >> 32 & 1; V = (~(aa ^ bb) & (aa ^ (u32)res)) >> 31 & 1; }
  }
  return res;
}
static int cond(int c) {
  int t;
  switch (c >> 1) {
  case 0: t = Z; break; case 1: t = C; break; case 2: t = N; break; case 3: t = V; break;
  case 4: t = C && !Z; break; case 5: t = N == V; break; case 6: t = N == V && !Z; break; default: return 1;
  }
  return c & 1 ? !t : t;
}
static void fcmp(double a, double b) {
  if (a != a || b != b) { N = 0; Z = 0; C = 1; V = 1; }
  else if (a == b) { N = 0; Z = 1; C = 1; V = 0; }
  else if (a < b) { N = 1; Z = 0; C = 0; V = 0; }
  else { N = 0; Z = 0; C = 1; V = 0; }
}
// a NaN operand is returned quieted, an invalid operation gives the default NaN
static u64 nan2(u64 a, u64 b, double res) {
  u64 q = 1UL << 51;
  if (fd(a) != fd(a) && !(a & q)) return a | q;
  if (fd(b) != fd(b) && !(b & q)) return b | q;
  if (fd(a) != fd(a)) return a;
  if (fd(b) != fd(b)) return b;
  return res != res ? 0x7ff8000000000000UL : du(res);
}
static u64 nan2f(u32 a, u32 b, float res) {
  u32 q = 1U << 22;
  if (ff(a) != ff(a) && !(a & q)) return a | q;
  if (ff(b) != ff(b) && !(b & q)) return b | q;
  if (ff(a) != ff(a)) return a;
  if (ff(b) != ff(b)) return b;
  return res != res ? 0x7fc00000u : fu(res);
}

static void a_ldst(u32 i, u64 addr, int size, int vec, int opc, int rt) {
  if (vec) {
    if (size < 2) a_ill(i);
    if (opc == 1) v[rt] = size == 3 ? LD(u64, addr) : LD(u32, addr);
    else if (opc == 0) { if (size == 3) ST(u64, addr, v[rt]); else ST(u32, addr, v[rt]); }
    else a_ill(i);
    return;
  }
  u64 t;
  switch (opc << 2 | size) {
  case 0: ST(u8, addr, gz(rt)); return;
  case 1: ST(u16, addr, gz(rt)); return;
  case 2: ST(u32, addr, gz(rt)); return;
  case 3: ST(u64, addr, gz(rt)); return;
  case 4: t = LD(u8, addr); break;
  case 5: t = LD(u16, addr); break;
  case 6: t = LD(u32, addr); break;
  case 7: t = LD(u64, addr); break;
  case 8: t = (i64)LD(i8, addr); break;
  case 9: t = (i64)LD(i16, addr); break;
  case 10: t = (i64)LD(i32, addr); break;
  case 12: t = (u32)(i32)LD(i8, addr); break;
  case 13: t = (u32)(i32)LD(i16, addr); break;
  default: a_ill(i); return;
  }
  wz(rt, 1, t);
}

static void spcheck(int rn) { if (rn == 31 && (r[31] & 15)) die(127, "misaligned stack pointer %lx", r[31]); }

static void a_op(u32 i) {
  int rd = i & 31, rn = i >> 5 & 31, rm = i >> 16 & 31, sf = i >> 31;
  // branches
  if ((i & 0x7c000000) == 0x14000000) {
    i64 off = (i64)((i32)(i << 6)) >> 6;
    if (sf) r[30] = pc + 4;
    pc += off * 4 - 4;
    return;
  }
  if ((i & 0xff000010) == 0x54000000) { if (cond(i & 15)) pc += ((i64)(i32)(i << 8) >> 13) * 4 - 4; return; }
  if ((i & 0x7e000000) == 0x34000000) {
    u64 a = sf ? gz(rd) : (u32)gz(rd);
    if ((a == 0) == !(i >> 24 & 1)) pc += ((i64)(i32)(i << 8) >> 13) * 4 - 4;
    return;
  }
  if ((i & 0xfffffc1f) == 0xd61f0000) { pc = gz(rn) - 4; return; }
  if ((i & 0xfffffc1f) == 0xd63f0000) { u64 t = gz(rn); r[30] = pc + 4; pc = t - 4; return; }
  if ((i & 0xfffffc1f) == 0xd65f0000) { pc = gz(rn) - 4; return; }
  if (i == 0xd4000001) { r[0] = syscall_(r[8], r[0], r[1], r[2]); return; }
  if (i == 0xd503201f) return;
  // adr(p)
  if ((i & 0x1f000000) == 0x10000000) {
    i64 imm = ((i64)(i32)(i << 8) >> 13) * 4 + (i >> 29 & 3);
    wz(rd, 1, i >> 31 ? (pc & ~4095UL) + imm * 4096 : pc + imm);
    return;
  }
  // add/sub immediate
  if ((i & 0x1f800000) == 0x11000000) {
    u64 imm = i >> 10 & 4095;
    if (i >> 22 & 1) imm <<= 12;
    int fl = i >> 29 & 1;
    u64 t = addsub(r[rn], imm, i >> 30 & 1, fl, sf);
    if (fl) wz(rd, sf, t); else wsp(rd, sf, t);
    return;
  }
  // move wide
  if ((i & 0x1f800000) == 0x12800000) {
    int hw = (i >> 21 & 3) * 16;
    u64 imm = (u64)(i >> 5 & 0xffff) << hw;
    if (!sf && hw > 16) a_ill(i);
    switch (i >> 29 & 3) {
    case 0: wz(rd, sf, ~imm); return;
    case 2: wz(rd, sf, imm); return;
    case 3: wz(rd, sf, (gz(rd) & ~((u64)0xffff << hw)) | imm); return;
    }
    a_ill(i);
  }
  // logical immediate
  if ((i & 0x1f800000) == 0x12000000) {
    int n = i >> 22 & 1, immr = i >> 16 & 63, imms = i >> 10 & 63;
    if (!sf && n) a_ill(i);
    int t = n << 6 | (~imms & 63), len = 31 - __builtin_clz(t | 0);
    if (t == 0 || len < 1) a_ill(i);
    int es = 1 << len, S = imms & (es - 1), R = immr & (es - 1);
    if (S == es - 1) a_ill(i);
    u64 w = S == 63 ? ~0UL : (1UL << (S + 1)) - 1, m = es == 64 ? ~0UL : (1UL << es) - 1;
    w = R ? ((w >> R) | (w << (es - R))) & m : w;
    u64 imm = 0;
    for (int k = 0; k < 64; k += es) imm |= w << k;
    u64 a = gz(rn), res = 0;
    int opc = i >> 29 & 3;
    if (!sf) { a = (u32)a; imm = (u32)imm; }
    switch (opc) { case 0: case 3: res = a & imm; break; case 1: res = a | imm; break; case 2: res = a ^ imm; break; }
    if (opc == 3) { N = res >> (sf ? 63 : 31) & 1; Z = res == 0; C = V = 0; wz(rd, sf, res); } else wsp(rd, sf, res);
    return;
  }
  // bitfield
  if ((i & 0x1f800000) == 0x13000000) {
    int n = i >> 22 & 1, immr = i >> 16 & 63, imms = i >> 10 & 63, w = sf ? 64 : 32, opc = i >> 29 & 3;
    if (n != sf || opc > 2 || (!sf && (immr > 31 || imms > 31))) a_ill(i);
    u64 src = sf ? gz(rn) : (u32)gz(rn), dst = sf ? gz(rd) : (u32)gz(rd);
    u64 res = opc == 1 ? dst : 0;
    if (imms >= immr) {
      int len = imms - immr + 1;
      u64 bits = len == 64 ? src : src >> immr & ((1UL << len) - 1);
      if (opc == 1) res = len == 64 ? bits : (dst & ~((1UL << len) - 1)) | bits;
      else if (opc == 2 || len == 64) res = bits;
      else res = (u64)((i64)(bits << (64 - len)) >> (64 - len));
    } else {
      int len = imms + 1, lsb = w - immr;
      u64 bits = src & ((1UL << len) - 1);
      if (opc == 1) res = (dst & ~(((1UL << len) - 1) << lsb)) | bits << lsb;
      else if (opc == 2) res = bits << lsb;
      else res = (u64)((i64)(bits << (64 - len)) >> (64 - len)) << lsb;
    }
    wz(rd, sf, res);
    return;
  }
  // extr
  if ((i & 0x7fa00000) == 0x13800000) {
    int lsb = i >> 10 & 63;
    if (sf) wz(rd, 1, lsb ? gz(rm) >> lsb | gz(rn) << (64 - lsb) : gz(rm));
    else wz(rd, 0, lsb ? (u32)gz(rm) >> lsb | (u32)gz(rn) << (32 - lsb) : (u32)gz(rm));
    return;
  }
  // logical shifted register
  if ((i & 0x1f000000) == 0x0a000000) {
    u64 b = shift(gz(rm), i >> 22 & 3, i >> 10 & 63, sf), a = gz(rn), res = 0;
    if (!sf) { a = (u32)a; b = (u32)b; }
    if (i >> 21 & 1) b = ~b;
    int opc = i >> 29 & 3;
    switch (opc) { case 0: case 3: res = a & b; break; case 1: res = a | b; break; case 2: res = a ^ b; break; }
    if (!sf) res = (u32)res;
    if (opc == 3) { N = res >> (sf ? 63 : 31) & 1; Z = res == 0; C = V = 0; }
    wz(rd, sf, res);
    return;
  }
  // add/sub shifted register
  if ((i & 0x1f200000) == 0x0b000000) {
    if ((i >> 22 & 3) == 3) a_ill(i);
    wz(rd, sf, addsub(gz(rn), shift(gz(rm), i >> 22 & 3, i >> 10 & 63, sf), i >> 30 & 1, i >> 29 & 1, sf));
    return;
  }
  // add/sub extended register
  if ((i & 0x1fe00000) == 0x0b200000) {
    int n = i >> 10 & 7, fl = i >> 29 & 1;
    if (n > 4) a_ill(i);
    u64 t = addsub(r[rn], extend(gz(rm), i >> 13 & 7, n), i >> 30 & 1, fl, sf);
    if (fl) wz(rd, sf, t); else wsp(rd, sf, t);
    return;
  }
  // conditional select
  if ((i & 0x3fe00800) == 0x1a800000) {
    u64 t;
    if (cond(i >> 12 & 15)) t = gz(rn);
    else { t = gz(rm); if (i >> 30 & 1) t = ~t; if (i >> 10 & 1) ++t; }
    wz(rd, sf, t);
    return;
  }
  // two sources
  if ((i & 0x7fe00000) == 0x1ac00000) {
    u64 a = gz(rn), b = gz(rm);
    switch (i >> 10 & 63) {
    case 2: wz(rd, sf, sf ? (b ? a / b : 0) : ((u32)b ? (u32)a / (u32)b : 0)); return;
    case 3:
      if (sf) wz(rd, 1, b == 0 ? 0 : (i64)b == -1 ? -a : (u64)((i64)a / (i64)b));
      else wz(rd, 0, (u32)b == 0 ? 0 : (i32)b == -1 ? -(u32)a : (u32)((i32)a / (i32)b));
      return;
    case 8: wz(rd, sf, sf ? a << (b & 63) : (u32)a << (b & 31)); return;
    case 9: wz(rd, sf, sf ? a >> (b & 63) : (u32)a >> (b & 31)); return;
    case 10: wz(rd, sf, sf ? (u64)((i64)a >> (b & 63)) : (u32)((i32)a >> (b & 31))); return;
    case 11: { int n = b & (sf ? 63 : 31); wz(rd, sf, shift(a, 3, n, sf)); return; }
    }
    a_ill(i);
  }
  // three sources
  if ((i & 0x7f000000) == 0x1b000000) {
    int ra = i >> 10 & 31, o0 = i >> 15 & 1;
    switch (i >> 21 & 7) {
    case 0: wz(rd, sf, o0 ? gz(ra) - gz(rn) * gz(rm) : gz(ra) + gz(rn) * gz(rm)); return;
    case 1: { u64 p = (i64)(i32)gz(rn) * (i64)(i32)gz(rm); wz(rd, 1, o0 ? gz(ra) - p : gz(ra) + p); return; }
    case 5: { u64 p = (u64)(u32)gz(rn) * (u32)gz(rm); wz(rd, 1, o0 ? gz(ra) - p : gz(ra) + p); return; }
    case 2: wz(rd, 1, (u64)((i128)(i64)gz(rn) * (i64)gz(rm) >> 64)); return;
    case 6: wz(rd, 1, (u64)((u128)gz(rn) * gz(rm) >> 64)); return;
    }
    a_ill(i);
  }
  // load/store pair
  if ((i & 0x3a000000) == 0x28000000) {
    int opc = i >> 30, vec = i >> 26 & 1, mode = i >> 23 & 3, load = i >> 22 & 1, rt2 = i >> 10 & 31;
    i64 imm = (i64)(i32)(i << 10) >> 25;
    int sz;
    if (vec) { if (opc > 1) a_ill(i); sz = opc ? 8 : 4; }
    else { if (opc == 3 || (opc == 1 && !load)) a_ill(i); sz = opc == 2 ? 8 : 4; }
    imm *= sz;
    if (mode == 0) a_ill(i);
    if (!vec && mode != 2 && rn != 31 && (rn == rd || rn == rt2)) a_ill(i);
    if (!vec && load && rd == rt2) a_ill(i);
    spcheck(rn);
    u64 base = r[rn], addr = mode == 1 ? base : base + imm;
    if (vec) {
      if (load) { v[rd] = sz == 8 ? LD(u64, addr) : LD(u32, addr); v[rt2] = sz == 8 ? LD(u64, addr + sz) : LD(u32, addr + sz); }
      else if (sz == 8) { ST(u64, addr, v[rd]); ST(u64, addr + 8, v[rt2]); }
      else { ST(u32, addr, v[rd]); ST(u32, addr + 4, v[rt2]); }
    } else if (load) {
      u64 a = sz == 8 ? LD(u64, addr) : opc == 1 ? (u64)(i64)LD(i32, addr) : LD(u32, addr);
      u64 b = sz == 8 ? LD(u64, addr + sz) : opc == 1 ? (u64)(i64)LD(i32, addr + sz) : LD(u32, addr + sz);
      wz(rd, 1, a); wz(rt2, 1, b);
    } else if (sz == 8) { ST(u64, addr, gz(rd)); ST(u64, addr + 8, gz(rt2)); }
    else { ST(u32, addr, gz(rd)); ST(u32, addr + 4, gz(rt2)); }
    if (mode != 2) r[rn] = base + imm;
    return;
  }
  // load/store one register
  if ((i & 0x3a000000) == 0x38000000) {
    int size = i >> 30, vec = i >> 26 & 1, opc = i >> 22 & 3;
    spcheck(rn);
    if (i >> 24 & 1) { a_ldst(i, r[rn] + ((u64)(i >> 10 & 4095) << size), size, vec, opc, rd); return; }
    if (i >> 21 & 1) {
      if ((i >> 10 & 3) != 2) a_ill(i);
      int opt = i >> 13 & 7;
      if (!(opt & 2)) a_ill(i);
      a_ldst(i, r[rn] + extend(gz(rm), opt, i >> 12 & 1 ? size : 0), size, vec, opc, rd);
      return;
    }
    i64 imm = (i64)(i32)(i << 11) >> 23;
    int mode = i >> 10 & 3;
    if (mode == 2) a_ill(i);
    if (!vec && mode && rn != 31 && rn == rd) a_ill(i);
    u64 base = r[rn];
    a_ldst(i, mode == 1 ? base : base + imm, size, vec, opc, rd);
    if (mode) r[rn] = base + imm;
    return;
  }
  // floating point
  if ((i & 0x5f200000) == 0x1e200000) {
    int type = i >> 22 & 3, dbl = type == 1;
    if (type > 1) a_ill(i);
    if (i >> 29 & 1) a_ill(i);
    if (((i >> 10) & 63) == 0) {    // integer conversions
      int op = i >> 16 & 31;   // rmode:opcode
      double a = dbl ? fd(v[rn]) : (double)ff((u32)v[rn]);
      switch (op) {
      case 0x02: if (dbl) v[rd] = du(sf ? (double)(i64)gz(rn) : (double)(i32)gz(rn)); else v[rd] = fu(sf ? (float)(i64)gz(rn) : (float)(i32)gz(rn)); return;
      case 0x03: if (dbl) v[rd] = du(sf ? (double)gz(rn) : (double)(u32)gz(rn)); else v[rd] = fu(sf ? (float)gz(rn) : (float)(u32)gz(rn)); return;
      case 0x18: a = trunc(a); wz(rd, sf, sf ? (u64)sat_i64(a, 0) : (u32)sat_i32(a, 0)); return;
      case 0x19: a = trunc(a); wz(rd, sf, sf ? sat_u64(a, 0) : sat_u32(a, 0)); return;
      case 0x06: if (sf != dbl) a_ill(i); wz(rd, sf, v[rn]); return;
      case 0x07: if (sf != dbl) a_ill(i); v[rd] = sf ? gz(rn) : (u32)gz(rn); return;
      }
      a_ill(i);
    }
    if (sf) a_ill(i);
    if ((i >> 10 & 31) == 16) {     // one source
      u64 a = dbl ? v[rn] : (u32)v[rn];
      switch (i >> 15 & 63) {
      case 0: v[rd] = a; return;
      case 1: v[rd] = dbl ? a & ~(1UL << 63) : a & ~(1UL << 31); return;
      case 2: v[rd] = dbl ? a ^ 1UL << 63 : a ^ 1UL << 31; return;
      case 3: v[rd] = dbl ? nan2(a, a, sqrt(fd(a))) : nan2f((u32)a, (u32)a, sqrtf(ff((u32)a))); return;
      case 4: if (!dbl) a_ill(i); v[rd] = fu((float)fd(a)); return;
      case 5: if (dbl) a_ill(i); v[rd] = du((double)ff((u32)a)); return;
      }
      a_ill(i);
    }
    if ((i >> 10 & 63) == 8) {      // compare
      int opc2 = i & 31;
      if (opc2 & 7) a_ill(i);
      double a = dbl ? fd(v[rn]) : (double)ff((u32)v[rn]);
      double b = opc2 & 8 ? 0 : dbl ? fd(v[rm]) : (double)ff((u32)v[rm]);
      fcmp(a, b);
      return;
    }
    if ((i >> 10 & 3) == 2) {       // two sources
      u64 a = v[rn], b = v[rm];
      double p = fd(a), q = fd(b);
      float s = ff((u32)a), t = ff((u32)b);
      switch (i >> 12 & 15) {
      case 0: v[rd] = dbl ? nan2(a, b, p * q) : nan2f((u32)a, (u32)b, s * t); return;
      case 1: v[rd] = dbl ? nan2(a, b, p / q) : nan2f((u32)a, (u32)b, s / t); return;
      case 2: v[rd] = dbl ? nan2(a, b, p + q) : nan2f((u32)a, (u32)b, s + t); return;
      case 3: v[rd] = dbl ? nan2(a, b, p - q) : nan2f((u32)a, (u32)b, s - t); return;
      }
      a_ill(i);
    }
    if ((i >> 10 & 7) == 4 && (i >> 5 & 31) == 0) {   // immediate
      int imm = i >> 13 & 255;
      double d = (imm & 128 ? -1.0 : 1.0) * (16 + (imm & 15)) / 16.0 * pow(2, imm & 64 ? ((imm >> 4 & 3) - 3) : ((imm >> 4 & 3) + 1));
      if (dbl) v[rd] = du(d); else v[rd] = fu((float)d);
      return;
    }
  }
  a_ill(i);
}

static void run_a64(u64 entry, u64 sp) {
  pc = entry;
  r[31] = sp;
  for (;;) {
    if (++steps > limit) die(124, "too many steps (%ld)", steps);
    if (pc & 3) die(125, "misaligned jump to %lx", pc);
    if (pc < textlo || pc >= texthi) die(126, "jump to %lx, outside of the text", pc);
    a_op(LD(u32, pc));
    pc += 4;
  }
}

int main(int argc, char **argv) {
  if (argc < 2) return 120;
  FILE *fp = fopen(argv[1], "rb");
  Elf64_Ehdr eh;
  if (!fp || fread(&eh, sizeof(eh), 1, fp) != 1 || memcmp(eh.e_ident, ELFMAG, 4)) { fprintf(stderr, "emu: not an ELF file\n"); return 120; }
  mem = mmap(0, MEMSIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (mem == MAP_FAILED) { fprintf(stderr, "emu: no memory\n"); return 120; }
  for (int k = 0; k < eh.e_phnum; ++k) {
    Elf64_Phdr ph;
    fseek(fp, eh.e_phoff + k * eh.e_phentsize, SEEK_SET);
    if (fread(&ph, sizeof(ph), 1, fp) != 1) return 120;
    if (ph.p_type != PT_LOAD || !ph.p_memsz) continue;
    if (ph.p_vaddr + ph.p_memsz > MEMSIZE - STACK || ph.p_filesz > ph.p_memsz) { fprintf(stderr, "emu: segment out of range\n"); return 120; }
    if ((ph.p_vaddr - ph.p_offset) & 4095) { fprintf(stderr, "emu: segment not congruent to its file offset\n"); return 120; }
    fseek(fp, ph.p_offset, SEEK_SET);
    if (ph.p_filesz && fread(mem + ph.p_vaddr, ph.p_filesz, 1, fp) != 1) { fprintf(stderr, "emu: short segment\n"); return 120; }
    if (ph.p_vaddr < lo) lo = ph.p_vaddr;
    if (ph.p_vaddr + ph.p_memsz > hi) hi = ph.p_vaddr + ph.p_memsz;
    if (ph.p_flags & PF_X) { if (ph.p_vaddr < textlo) textlo = ph.p_vaddr; if (ph.p_vaddr + ph.p_memsz > texthi) texthi = ph.p_vaddr + ph.p_memsz; }
  }
  fclose(fp);
  brk0 = brk_ = (hi + 4095) & ~4095UL;
  // stack: argc, argv, envp, auxv
  u64 top = MEMSIZE - 4096, args[64];
  int n = argc - 1;
  if (n > 60) n = 60;
  for (int k = 0; k < n; ++k) { size_t l = strlen(argv[k + 1]) + 1; top -= l; memcpy(mem + top, argv[k + 1], l); args[k] = top; }
  top &= ~15UL;
  u64 words[80];
  int w = 0;
  words[w++] = n;
  for (int k = 0; k < n; ++k) words[w++] = args[k];
  words[w++] = 0; words[w++] = 0; words[w++] = 0; words[w++] = 0;
  top -= w * 8;
  top &= ~15UL;
  memcpy(mem + top, words, w * 8);
  // registers start with garbage: nothing may rely on their being zero
  for (int k = 1; k < 31; ++k) { x[k] = r[k] = 0xdeadbeef00000000UL + k * 0x1111; }
  for (int k = 0; k < 32; ++k) f[k] = v[k] = 0x7ff4dead0000beefUL + k;
  if (eh.e_machine == EM_RISCV) run_rv(eh.e_entry, top);
  else if (eh.e_machine == EM_AARCH64) run_a64(eh.e_entry, top);
  fprintf(stderr, "emu: unknown machine\n");
  return 120;
}
