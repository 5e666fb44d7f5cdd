// C04: the working buffers of base58 hold the number, whatever the length.  The allocators of the encoded source are replaced by these, which examine the request and stop.
#include "vp.h"
#include <stdlib.h>
#include <sys/types.h>
#include <stdbool.h>
#include "coda/base58.h"
#define MAXLEN 65536
static char in[MAXLEN], out[4]; static uint64_t need_num, need_add; static uint32_t n; // bytes wanted: at least n * need_num / 10^9 + need_add
static void *sized(uint64_t k) {
  CHECK(k <= 4ul * MAXLEN, "an absurd working buffer"); CHECK((k - need_add) * 1000000000ul >= n * need_num && k >= need_add, "the working buffer is too small for the number");
  WITNESS(n > 60000, "long input"); for (;;) vp_assume(0); }
void *vp_calloc(unsigned long a, unsigned long b) { return sized(a * b); }
void *vp_malloc(unsigned long a) { return sized(a); }
void harness(void) {
  n = nd_u32(); ASSUME(n > 0 && n <= MAXLEN); in[0] = MODE < 2 ? '\xff' : 'z'; char *p = 0;
#if MODE == 0
  need_num = 1365658237; coda_base58_encode(in, n, out, sizeof out);
#elif MODE == 1
  need_num = 1365658237; need_add = 1; coda_base58_encode_alloc(in, n, &p);
#elif MODE == 2
  need_num = 732247624; coda_base58_decode(in, n, out);
#else
  need_num = 732247624; coda_base58_decode_alloc(in, n, &p);
#endif
}
