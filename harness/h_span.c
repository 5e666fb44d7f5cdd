/* C13: span functions.  N text bytes (exact allocation), M alphabet bytes; FN selects the function. */
#include "vp.h"
#include <stdlib.h>
#include "coda/string.h"
static int lo(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
#define PICK_(a) coda_##a
#define PICK(a) PICK_(a)
void harness(void) {
  char *h = vp_buf(N); nd_bytes(h, N);
  char *n = vp_buf(M + 1); nd_text(n, M);
  int len = N;
#if ZT
  if (N == 0) return;
  h[N - 1] = 0; len = 0; while (h[len]) len++;
#endif
  int in[N + 1]; size_t e = 0;
  for (int i = 0; i < len; i++) { in[i] = 0; for (int j = 0; j < M; j++) if (ICASE ? lo(h[i]) == lo(n[j]) : h[i] == n[j]) in[i] = 1; if (COMP) in[i] = !in[i]; }
  for (int i = 0; i < len; i++) { if (!in[REV ? len - 1 - i : i]) break; e++; }
#if ZT
  size_t r = PICK(FN)(h, n);
#else
  size_t r = PICK(FN)(h, n, N);
#endif
  CHECK(r == e, "span length wrong");
  WITNESS(N < 2 || (M == 0 && !COMP) || r == 1 || (COMP && M == 0), "partial");
  WITNESS((M == 0 && !COMP) || r == len, "whole");
}
