// Executes a history of string operations on an arena read from stdin; prints
// every result and, after every operation, the whole arena.
#include <string.h>
#include <strings.h>
#include <ctype.h>
#include <libgen.h>
#include <stdlib.h>
#include "libc_io.h"

#define N 80
static char m[N];
static int sgn(int x) { return (x > 0) - (x < 0); }
static void op_ptr(const void *p) { if (p == NULL) os("null"); else oi((const char*)p - m); }

int main(void) {
  in_init();
  while (inpos_ < inlen_) {
    int op = get1();
    if (op == 0) {  // new arena
      memcpy(m, getp(N), N);
      static char *none = NULL;
      (void)none;
      continue;
    }
    int a = get1(), b = get1(), n = get1(), c = (int)getn(4);
    static char *save;
    char *p = m + a, *q = m + b;
    switch (op) {
    case 1: oi(strlen(p)); break;
    case 2: oi(strnlen(p, n)); break;
    case 3: op_ptr(strchr(p, c)); break;
    case 4: op_ptr(strrchr(p, c)); break;
    case 5: op_ptr(strstr(p, q)); break;
    case 6: oi(sgn(strcmp(p, q))); break;
    case 7: oi(sgn(strncmp(p, q, n))); break;
    case 8: oi(sgn(strcoll(p, q))); break;
    case 9: op_ptr(strcpy(p, q)); break;
    case 10: op_ptr(strncpy(p, q, n)); break;
    case 11: op_ptr(stpcpy(p, q)); break;
    case 12: op_ptr(stpncpy(p, q, n)); break;
    case 13: op_ptr(strcat(p, q)); break;
    case 14: op_ptr(strncat(p, q, n)); break;
    case 15: op_ptr(memcpy(p, q, n)); break;
    case 16: op_ptr(memccpy(p, q, c, n)); break;
    case 17: op_ptr(memmove(p, q, n)); break;
    case 18: op_ptr(memset(p, c, n)); break;
    case 19: op_ptr(memchr(p, c, n)); break;
    case 20: oi(sgn(memcmp(p, q, n))); break;
    case 21: oi(strspn(p, q)); break;
    case 22: oi(strcspn(p, q)); break;
    case 23: op_ptr(strpbrk(p, q)); break;
    case 24: op_ptr(strtok(c ? NULL : p, q)); break;
    case 25: op_ptr(strtok_r(c ? NULL : p, q, &save)); if (save == NULL) os(" -"); break;
    case 26: oi(sgn(strcasecmp(p, q))); break;
    case 27: oi(sgn(strncasecmp(p, q, n))); break;
    case 28: { char *d = strdup(p); os(d == p ? "same" : d); if (d != p) free(d); } break;
    case 29: { char *d = strndup(p, n); os(d == p ? "same" : d); if (d != p) free(d); } break;
    case 30: { char *d = basename(p); if (d >= m && d < m + N) op_ptr(d); else os(d); } break;
    case 31: { char *d = dirname(p); if (d >= m && d < m + N) op_ptr(d); else os(d); } break;
    case 32:
      oi(!!isdigit(c) | !!isxdigit(c) << 1 | !!isalpha(c) << 2 | !!isalnum(c) << 3 | !!isspace(c) << 4 | !!isupper(c) << 5 |
         !!islower(c) << 6 | !!isascii(c) << 7 | !!isprint(c) << 8 | !!isgraph(c) << 9 | !!iscntrl(c) << 10 | !!ispunct(c) << 11);
      oc(' '); oi(tolower(c)); oc(' '); oi(toupper(c)); break;
    }
    oc(' ');
    ohex(m, N);
    oc('\n');
  }
  oflush();
  return 0;
}
