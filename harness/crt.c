/* Start-up for reference programs that need no libc. */
long write(int fd, const void *p, unsigned long n) {
  long r;
  __asm__ volatile("syscall" : "=a"(r) : "0"(1L), "D"((long)fd), "S"(p), "d"(n) : "rcx", "r11", "memory");
  return r;
}
int main(void);
__attribute__((noreturn)) void cstart(void) {
  int r = main();
  __asm__ volatile("syscall" ::"a"(231L), "D"((long)r));
  for (;;) ;
}
__asm__(".globl _start\n_start: xor %ebp,%ebp\n and $-16,%rsp\n call cstart\n");
void *memcpy(void *d, const void *s, unsigned long n) {
  char *a = d;
  const char *b = s;
  while (n--) *a++ = *b++;
  return d;
}
void *memset(void *d, int c, unsigned long n) {
  char *a = d;
  while (n--) *a++ = c;
  return d;
}
