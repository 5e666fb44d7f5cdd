// C17: MODE 0 a text of N characters (symbolic code points of chosen lengths L0..), MODE 1 arbitrary bytes.
#include "vp.h"
#include <string>
#include "coda/vietnam.hpp"
#include "viet_table.h"
static int enc(unsigned c, int l, unsigned char *o) {
  if (l == 1) { o[0] = c; return 1; }
  if (l == 2) { o[0] = 0xc0 | c >> 6; o[1] = 0x80 | (c & 63); return 2; }
  if (l == 3) { o[0] = 0xe0 | c >> 12; o[1] = 0x80 | (c >> 6 & 63); o[2] = 0x80 | (c & 63); return 3; }
  o[0] = 0xf0 | c >> 18; o[1] = 0x80 | (c >> 12 & 63); o[2] = 0x80 | (c >> 6 & 63); o[3] = 0x80 | (c & 63); return 4; }
extern "C" void harness(void) {
  vp_ghost_k = nd_u8(); size_t K_ = vp_ghost_k;
#if MODE == 0
  static const int len[] = {LENS}; const int K = sizeof len / sizeof *len; int T = 0; for (int i = 0; i < K; i++) T += len[i];
  unsigned char *t = (unsigned char *)vp_buf(T), x[17]; size_t n = 0, p = 0; bool let = false, mark = false, other = false;
  for (int i = 0; i < K; i++) { unsigned c = nd_u32(); unsigned char b;
    if (len[i] == 1) ASSUME(c < 0x80); else if (len[i] == 2) ASSUME(c >= 0x80 && c < 0x800); else if (len[i] == 3) ASSUME(c >= 0x800 && c < 0x10000 && !(c >= 0xd800 && c < 0xe000)); else ASSUME(c >= 0x10000 && c < 0x110000);
    int l = enc(c, len[i], t + p);
    if ((b = viet_base(c))) { x[n++] = b; let = true; } else if (c >= 0x300 && c <= 0x36f) mark = true; else { for (int k = 0; k < l; k++) x[n++] = t[p + k]; other = true; }
    p += l; }
  std::string r = coda_remove_tones_utf8((char *)t, T);
  CHECK(r.size() == n, "length of the result"); if (K_ < n) CHECK((unsigned char)r[K_] == x[K_], "wrong characters");
  WITNESS(let || len[K - 1] == 4 || len[K - 1] == 1, "letter"); WITNESS(other, "other");
#else
  char *t = (char *)vp_buf(N); nd_bytes(t, N);
  std::string r = coda_remove_tones_utf8(t, N); CHECK(r.size() <= N, "output longer than the input");
  bool ascii = true; for (int i = 0; i < N; i++) if (t[i] & 0x80) ascii = false;
  if (ascii) { CHECK(r.size() == N, "plain text changed"); if (K_ < N) CHECK(r[K_] == t[K_], "plain text changed"); }
  WITNESS(N < 2 || r.size() == 1, "shorter"); WITNESS(r.size() == N, "same");
#endif
}
