/* C12: bounded searches.  N haystack bytes (exact allocation), M needle bytes; FN selects the function. */
#include "vp.h"
#include <stdlib.h>
#include "coda/string.h"
static int lo(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
void harness(void) {
  char *h = vp_buf(N); nd_bytes(h, N);
#if FN < 6 /* single characters */
  char c = (char)nd_u8(); long first = -1, last = -1, ifirst = -1, ilast = -1;
  for (int i = 0; i < N; i++) {
    if (h[i] == c) { last = i; if (first < 0) first = i; }
    if (lo(h[i]) == lo(c)) { ilast = i; if (ifirst < 0) ifirst = i; }
  }
  char save[N + 1]; for (int i = 0; i < N; i++) save[i] = h[i];
#if FN == 0
  char *r = coda_strnchr(h, c, N); long e = first;
#elif FN == 1
  char *r = coda_strxchr(h, c, N); long e = ifirst;
#elif FN == 2
  char *r = coda_revnchr(h, c, N); long e = last;
#elif FN == 3
  char *r = coda_revxchr(h, c, N); long e = ilast;
#elif FN == 4
  size_t q = coda_strnchp(h, c, N); char *r = q == N ? 0 : h + q; long e = first;
#elif FN == 5
  size_t q = coda_strxchp(h, c, N); char *r = q == N ? 0 : h + q; long e = ifirst;
#endif
  if (e < 0) CHECK(r == 0, "absent character reported as found");
  else CHECK(r == h + e, "wrong position of a character");
  for (int i = 0; i < N; i++) CHECK(h[i] == save[i], "haystack modified");
  WITNESS(e < 0, "absent");
  WITNESS(N == 0 || e == N / 2, "found");
#else /* substrings */
  char *n = vp_buf(M + 1); nd_text(n, M);
#if FN == 6
  int icase = 1; if (N == 0) return; h[N - 1] = 0; int len = 0; while (h[len]) len++; /* NUL-terminated haystack */
#else
  int icase = FN == 8; int len = N;
#endif
  long e = -1;
  for (int i = 0; i + M <= len && e < 0; i++) { int ok = 1; for (int j = 0; j < M; j++) if (icase ? lo(h[i+j]) != lo(n[j]) : h[i+j] != n[j]) ok = 0; if (ok) e = i; }
#if FN == 6
  char *r = coda_stristr(h, n);
#elif FN == 7
  char *r = coda_strnstr(h, n, N);
#elif FN == 8
  char *r = coda_strxstr(h, n, N);
#endif
  if (M == 0) { if (len > 0) CHECK(r == h, "empty needle not found at the start"); else CHECK(r == 0 || r == h, "empty needle in empty text"); }
  else if (e < 0) CHECK(r == 0, "absent substring reported as found");
  else CHECK(r == h + e, "wrong position of a substring");
  WITNESS(M > N || M == 0 || N - (FN == 6) < M || e == N - (FN == 6) - M, "found at the end");
  WITNESS(M == 0 || e < 0, "absent");
#endif
}
