/* Replay side of the harness API: feeds the solver's values to the real build. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <sys/syscall.h>
extern int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
extern void harness(void);
static uint64_t vals[200000]; static size_t nv, iv;
static int64_t live;
static void mh(const volatile void *p, size_t n) { (void)p; (void)n; live++; }
static void fh(const volatile void *p) { if (p) live--; }
static void out(const char *a, const char *b) { char s[512]; int n = snprintf(s, sizeof s, "%s%s\n", a, b); if (write(1, s, n) < 0) {} }
static uint64_t nextv(void) { if (iv >= nv) { iv++; return 0; } return vals[iv++]; }
uint8_t nd_u8(void) { return (uint8_t)nextv(); }
uint16_t nd_u16(void) { return (uint16_t)nextv(); }
uint32_t nd_u32(void) { return (uint32_t)nextv(); }
uint64_t nd_u64(void) { return nextv(); }
void vp_assert(int c, const char *m) { if (!c) { out("REPLAY-FAIL ", m); _exit(41); } }
void vp_assume(int c) { if (!c) { out("REPLAY-ASSUME", ""); _exit(42); } }
void vp_witness(const char *n) { out("REPLAY-WITNESS ", n); }
int64_t vp_live_blocks(void) { return live; }
static int nomem; static size_t last;
void vp_set_nomem(int on) { nomem = on; }
size_t vp_last_malloc(void) { return last; }
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
static int mayfail(void) { return nomem == 2 || (nomem == 1 && (nd_u8() & 1)); }
void *__wrap_malloc(size_t n) { last = n; return mayfail() ? 0 : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { last = a * b; return mayfail() ? 0 : __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { last = n; return mayfail() ? 0 : __real_realloc(p, n); }
void __asan_poison_memory_region(void const volatile *, size_t);
void *vp_buf(size_t n) { char *p = malloc(n + 16); __asan_poison_memory_region(p, 16); return p + 16; }
void __asan_unpoison_memory_region(void const volatile *, size_t);
static char *gcopy; static void *gp;
void vp_guard(void *p, size_t n, int mode) {
  __asan_unpoison_memory_region(p, n);
  if (gcopy && gp == p && memcmp(gcopy, p, n)) { out("REPLAY-FAIL ", "write of shared memory without the lock"); _exit(41); }
  if (gcopy) { free(gcopy); gcopy = 0; live++; }
  if (mode == 1) { gcopy = __real_malloc(n); live--; memcpy(gcopy, p, n); gp = p; }
  if (mode == 0) __asan_poison_memory_region(p, n); }
int main(int argc, char **argv) {
  /* raw system calls: the harness may have wrapped the C library's */
  long fd = syscall(SYS_open, argv[1], 0, 0), n, k; char b[4096]; uint64_t x = 0; int in = 0;
  while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0)
    for (k = 0; k < n; k++)
      if (b[k] >= '0' && b[k] <= '9') { x = x * 10 + (b[k] - '0'); in = 1; }
      else { if (in && nv < 200000) vals[nv++] = x; x = 0; in = 0; }
  if (in && nv < 200000) vals[nv++] = x;
  syscall(SYS_close, fd);
  __sanitizer_install_malloc_and_free_hooks(mh, fh);
  harness();
  out("REPLAY-END", ""); _exit(0);
}

size_t vp_ghost_k;
