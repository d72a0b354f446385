// Histories of stream operations.  Requests come from the file named in argv[1] (raw descriptors only),
// answers go to descriptor 1; stdin and the created files belong to the history.
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "libc_io.h"

#define NS 14
static FILE *st[NS];
static char upd[NS];          // opened for update
static char can[NS];          // the last operation read something, so one character may be pushed back
static char *mem[NS];         // open_memstream
static size_t msiz[NS];
static char fmem[NS][64];     // fmemopen
static int fcap[NS];
static char *line[NS];
static size_t lcap[NS];

static const char *name(int n) { static char b[4][8]; static int k; char *p = b[k++ & 3]; p[0] = 'f'; p[1] = '0' + n; p[2] = 0; return p; }
static int ahk[40], ahn;
static void ah_do(void) {
  int k = ahk[--ahn];
  oc('<'); oi(k); oc('>'); oflush();
  if (k < NS && st[k] && !upd[k]) fprintf(st[k], "at%d", k);
}

int main(int argc, char *argv[]) {
  int fd = open(argv[1], 0);
  (void)argc;
  for (;;) {
    long r = read(fd, in_ + inlen_, sizeof(in_) - inlen_);
    if (r <= 0) break;
    inlen_ += r;
  }
  close(fd);
  st[0] = stdin;
  while (inpos_ < inlen_) {
    int op = get1(), s = get1(), n, m, c, keep = 0;
    FILE *fp = st[s];
    static char buf[9000];
    switch (op) {
    case 1: {
      n = get1(); m = get1();
      char *mode = (char*)getp(m);
      st[s] = fopen(name(n), mode); upd[s] = strchr(mode, '+') != NULL;
      os(st[s] ? "ok" : "null");
    } break;
    case 2: oi(fclose(fp)); st[s] = NULL; break;
    case 3: {
      n = (int)getn(2); m = (int)getn(2);
      oi((long long)fwrite(getp(n * m), n, m, fp));
    } break;
    case 4:
      n = (int)getn(2); m = (int)getn(2);
      memset(buf, 0x55, sizeof(buf));
      c = (int)fread(buf, n, m, fp);
      oi(c); oc(' '); ohex(buf, c * n); keep = c > 0;
      // nothing beyond the requested block is touched
      { int k; for (k = n * m; k < n * m + 16; ++k) if (buf[k] != 0x55) os(" overrun"); }
      break;
    case 5:
      for (n = get1(); n > 0; --n) { c = fgetc(fp); keep = c != EOF; oi(c); oc(' '); }
      break;
    case 6: oi(fputc(get1(), fp)); break;
    case 7: {
      n = (int)getn(2);
      memset(buf, 0x55, sizeof(buf));
      char *r = fgets(buf, n, fp);
      if (r == NULL) os("null"); else { oi(r - buf); oc(' '); c = (int)strlen(buf); keep = c > 0; ohex(buf, c + 1); if (buf[n] != 0x55) os(" overrun"); }
    } break;
    case 8: n = (int)getn(2); oi(fputs((char*)getp(n), fp) >= 0); break;
    case 9: c = get1(); if (can[s]) oi(ungetc(c, fp)); else os("-"); break;
    case 10: n = (int)getn(4); m = get1(); m = fseek(fp, n, m == 0 ? SEEK_SET : m == 1 ? SEEK_CUR : SEEK_END); oi(m);
      if (m != 0) { oc(' '); oi(fseek(fp, 0, SEEK_SET)); }   // what a failed seek leaves is not specified
      break;
    case 11: oi(ftell(fp)); keep = can[s]; break;
    case 12: oi(!!feof(fp)); keep = can[s]; break;
    case 13: oi(fflush(fp)); break;
    case 14:
      c = (int)getline(&line[s], &lcap[s], fp);
      oi(c); if (c > 0) { oc(' '); ohex(line[s], c + 1); keep = 1; if (lcap[s] < (size_t)c + 1) os(" capacity"); }
      break;
    case 15: {
      n = (int)getn(4); m = get1();
      char *t = (char*)getp(m);
      oi(fprintf(fp, "%d:%s|%x\n%c", n, t, n, 'q'));
    } break;
    case 16: {
      n = get1(); m = get1();
      memset(fmem[s], 0x2a, sizeof(fmem[s]));
      memcpy(fmem[s], getp(m), m);
      c = get1();
      fcap[s] = n;
      st[s] = fmemopen(fmem[s], n, c ? "w" : "r");
      os(st[s] ? "ok" : "null");
    } break;
    case 17: st[s] = open_memstream(&mem[s], &msiz[s]); os(st[s] ? "ok" : "null"); break;
    case 18: oi(fflush(fp)); oc(' '); oi((long long)msiz[s]); oc(' '); ohex(mem[s], (int)msiz[s] + 1); break;
    case 19: oi(remove(name(get1()))); break;
    case 20: {
      fd = open(name(get1()), 0);
      if (fd < 0) { os("none"); break; }
      while ((c = (int)read(fd, buf, sizeof(buf))) > 0) ohex(buf, c);
      close(fd);
    } break;
    case 21: ahk[ahn++] = s; oi(atexit(ah_do)); break;
    case 22: oc('\n'); oflush(); exit(get1());
    case 23: upd[s] = 1; st[s] = tmpfile(); os(st[s] ? "ok" : "null"); break;
    case 24: ohex(fmem[s], 64); break;
    case 25: free(mem[s]); mem[s] = NULL; msiz[s] = 0; break;
    case 26: {
      n = get1(); m = get1();
      char *mode = (char*)getp(m);
      c = get1();
      fd = open(name(n), c == 0 ? O_RDONLY : c == 1 ? O_WRONLY | O_CREAT | O_TRUNC : O_RDWR | O_CREAT, 0644);
      if (fd < 0) { os("none"); st[s] = NULL; break; }
      st[s] = fdopen(fd, mode); upd[s] = strchr(mode, '+') != NULL;
      os(st[s] ? fileno(st[s]) == fd ? "ok" : "bad fileno" : "null");
    } break;
    case 27: ohex(mem[s], (int)msiz[s]); oc(' '); oi((long long)msiz[s]); oi(mem[s][msiz[s]]); break;
    default: os("bad op"); break;
    }
    can[s] = keep;
    oc('\n');
  }
  oflush();
  return 3;
}
