/* C14: bounded numeric conversions.  MODE 0 coda_atou, 1 coda_atoi, 2 coda_inet_addr; N bytes, exact allocation. */
#include "vp.h"
#include "coda/string.h"
#include "coda/socket.h"
static int dg(unsigned char c) { return c >= '0' && c <= '9'; }
void harness(void) {
  unsigned char *b = vp_buf(N);
  nd_bytes(b, N);
#if MODE == 0
  /* base case for at most one byte, induction on the length (the value of the text without its last byte) above it */
  int good = N > 0; for (int i = 0; i < N; i++) if (!dg(b[i])) good = 0;
  for (int i = 0; i < N - 20; i++) ASSUME(b[i] == '0');
  uint64_t r = coda_atou((char *)b, N);
  if (!good) CHECK(r == 0, "malformed text converted");
  else if (N == 1) CHECK(r == b[0] - '0', "wrong value of a digit");
  else {
    int d = b[N-1] - '0'; uint64_t v = coda_atou((char *)b, N - 1);
    if (N < 20 || v < (uint64_t)-1 / 10 || (v == (uint64_t)-1 / 10 && d <= 5)) CHECK(r == v * 10 + d, "wrong value");
  }
  WITNESS(N == 0 || good, "number"); WITNESS(!good, "malformed");
#elif MODE == 1
  int neg = NEG;
#if NEG
  if (N < 1) return; ASSUME(b[0] == '-');
#else
  ASSUME(N == 0 || b[0] != '-');
#endif
  int good = N > neg; for (int i = neg; i < N; i++) if (!dg(b[i])) good = 0;
  for (int i = neg; i < N - 19; i++) ASSUME(b[i] == '0');
  int64_t r = coda_atoi((char *)b, N);
  if (!good) CHECK(r == 0, "malformed text converted");
  else if (N == 1 + neg) CHECK(r == (neg ? '0' - b[1] : b[0] - '0'), "wrong value of a digit");
  else if (neg) {
    int d = b[N-1] - '0'; int64_t v = coda_atoi((char *)b, N - 1);
    if (N < 20 || v > -922337203685477580ll || (v == -922337203685477580ll && d <= 8)) CHECK(r == v * 10 - d, "wrong value");
  } else {
    int d = b[N-1] - '0'; int64_t v = coda_atoi((char *)b, N - 1);
    if (N < 19 || v < 922337203685477580ll || (v == 922337203685477580ll && d <= 7)) CHECK(r == v * 10 + d, "wrong value");
  }
  WITNESS(N <= neg || good, "number"); WITNESS(!good, "malformed");
#else
#if LONGF
  for (int i = 0; i < N - 6; i++) ASSUME(dg(b[i])); /* one long octet */
#endif
  int good = 1, dots = 0, empty = 1, anyempty = 0; unsigned oct = 0; uint32_t v = 0;
  for (int i = 0; i < N; i++) {
    if (dg(b[i])) { oct = oct * 10 + (b[i] - '0'); if (oct > 255) { oct = 256; good = 0; } empty = 0; }
    else if (b[i] == '.') { anyempty |= empty; empty = 1; v = v << 8 | (oct & 255); oct = 0; dots++; }
    else good = 0;
  }
  anyempty |= empty; v = v << 8 | (oct & 255); if (dots != 3) good = 0;
  in_addr_t r = coda_inet_addr((char *)b, N);
  unsigned char *q = (unsigned char *)&r;
  if (!good) CHECK(r == INADDR_NONE, "malformed address accepted");
  else if (!anyempty) CHECK(q[0] == v >> 24 && q[1] == (v >> 16 & 255) && q[2] == (v >> 8 & 255) && q[3] == (v & 255), "wrong address");
  WITNESS(N < 7 || N > 15 || (good && !anyempty), "address"); WITNESS(!good, "malformed");
#endif
}
