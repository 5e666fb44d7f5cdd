// C18: MODE 0 coda_random_string, MODE 1 two calls of coda_random_init against a device that may fail anywhere.
#include "vp.h"
#include <string>
#include <stdarg.h>
#include <sys/types.h>
#include "coda/random.h"
#include "coda/string.hpp"
static int opened, closed, badclose, nread, isopen; static unsigned char data[16]; static size_t got; static int seeded; static unsigned seed; static bool scheme;
extern "C" {
long STUB(random)(void) { return (long)(nd_u64() >> 1); }
void STUB(srandom)(unsigned s) { seeded++; seed = s; }
int STUB(open)(const char *p, int f, ...) { CHECK(!isopen, "device opened twice"); if (nd_bool()) return -1; isopen = 1; opened++; got = 0; return 77; }
ssize_t STUB(read)(int fd, void *b, size_t n) {
  CHECK(fd == 77 && isopen, "read from a descriptor that is not open"); nread++;
  size_t k = n > 8 ? 8 : n; unsigned char w = nread > 3 ? 2 : nd_upto(2);
  if (w == 0) return -1;
  if (w == 1) { unsigned char m = nd_u8(); ASSUME(m <= k); k = m; }
  for (size_t i = 0; i < 8; i++) if (i < k) { ((unsigned char *)b)[i] = nd_u8(); if (got + i < sizeof data) data[got + i] = ((unsigned char *)b)[i]; }
  got += k; return k; }
int STUB(close)(int fd) { if (fd != 77 || !isopen) badclose = 1; isopen = 0; closed++; return 0; }
}
extern "C" void harness(void) {
#if MODE == 0
  char *a = (char *)vp_buf(ALEN); nd_bytes(a, ALEN); size_t K = nd_u8();
  std::string r = coda_random_string((size_t)NLEN, a, (size_t)ALEN);
  CHECK(r.size() == NLEN, "size"); if (K < NLEN) { bool in = false; for (int i = 0; i < ALEN; i++) if (r[K] == a[i]) in = true; CHECK(in, "character outside the alphabet"); }
  WITNESS(true, "done"); WITNESS(NLEN < 1 || ALEN < 2 || (K < NLEN && r[K] == a[ALEN - 1] && a[0] != a[ALEN - 1]), "last character");
#else
  bool done = false, fail = false;
  for (int i = 0; i < 2; i++) {
    int s0 = seeded; nread = 0; int o0 = opened;
    int r = coda_random_init();
    CHECK(opened == closed && !badclose, "descriptor left open or closed twice");
    if (r == 0 && !done) { CHECK(seeded == s0 + 1, "success without seeding"); CHECK(got >= sizeof(unsigned), "seeded from incomplete random data");
      CHECK(seed == (data[0] | data[1] << 8 | data[2] << 16 | (unsigned)data[3] << 24), "seeded from something else"); done = true; }
    else if (r != 0) { CHECK(seeded == s0, "seeded although it failed"); fail = true; CHECK(!done, "failure after success"); }
    else CHECK(opened == o0, "reopened although already seeded"); }
  WITNESS(done && fail, "second attempt succeeds"); WITNESS(!done, "never"); WITNESS(done && !fail, "first");
#endif
}
