/* Harness API.  One harness source serves both the solver run (clang -> IR -> C -> CBMC) and the
   replay against the real build (gcc/g++, real libc and libstdc++, AddressSanitizer). */
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
uint8_t nd_u8(void); uint16_t nd_u16(void); uint32_t nd_u32(void); uint64_t nd_u64(void);
void vp_assert(int c, const char *msg);
void vp_assume(int c);
void vp_witness(const char *name);
int64_t vp_live_blocks(void);
void vp_set_nomem(int mode);      /* 0: allocations succeed, 1: each may fail, 2: all fail */
size_t vp_last_malloc(void);      /* size of the last request */
extern size_t vp_ghost_k;           /* the position of the string models/cxx/vpghost.h tracks */
void harness(void);
#define CHECK(c, msg) vp_assert(!!(c), msg)
#define ASSUME(c) vp_assume(!!(c))
#define WITNESS(c, name) do { if (c) vp_witness(name); } while (0)
static inline uint8_t nd_upto(uint8_t hi) { uint8_t v = nd_u8(); vp_assume(v <= hi); return v; }
static inline int nd_bool(void) { uint8_t v = nd_u8(); vp_assume(v <= 1); return v; }
static inline void nd_bytes(void *p, size_t n) { for (size_t i = 0; i < n; i++) ((uint8_t *)p)[i] = nd_u8(); }
static inline void nd_text(char *p, size_t n) { /* n non-NUL bytes and a terminator */
  for (size_t i = 0; i < n; i++) { uint8_t c = nd_u8(); vp_assume(c != 0); p[i] = (char)c; } p[n] = 0; }
/* a block of exactly n bytes: nothing before or after it may be touched */
void *vp_buf(size_t n);
/* what may be done to the n bytes at p (a whole vp_buf) from now on: 0 nothing, 1 reading, 2 everything (engine P only) */
void vp_guard(void *p, size_t n, int mode);
/* stubs of system calls: the solver sees them under their own name; the replay links them with --wrap */
#ifdef VP_REPLAY
#define STUB(n) __wrap_##n
#define REAL(n) __real_##n
#else
#define STUB(n) n
#endif
#ifdef __cplusplus
}
#endif
#endif
