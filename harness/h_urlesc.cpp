// C07: the bounded escapers.  Text of N non-NUL bytes, destination of exactly CAP bytes.  FN 0 escape, 1 unescape, 2 preunescape.
#include "vp.h"
#include "coda/url.hpp"
typedef unsigned char u;
static bool alnum(u c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static int hx(u c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
extern "C" void harness(void) {
  char *t = (char *)vp_buf(N + 1); nd_text(t, N);
  char *d = (char *)vp_buf(CAP); nd_bytes(d, CAP);
  u full[4 * N + 4]; size_t L = 0, piece[4 * N + 4]; bool spec = true, esc = false; // expected text; piece[i]: a piece may end before byte i
  for (int i = 0; i < 4 * N + 4; i++) piece[i] = 0;
  piece[0] = 1;
  for (int i = 0, adv; i < N; i += adv) { u c = t[i]; adv = 1;
#if FN == 0
    static const char H[] = "0123456789ABCDEF";
    if (alnum(c) || c == '-' || c == '_' || c == '.' || c == '~') full[L++] = c;
    else if (c == ' ') full[L++] = '+';
    else { full[L++] = '%'; full[L++] = H[c >> 4]; full[L++] = H[c & 15]; esc = true; }
#else
    int h1 = i + 1 < N ? hx(t[i + 1]) : -1, h2 = i + 2 < N ? hx(t[i + 2]) : -1, h3 = i + 3 < N ? hx(t[i + 3]) : -1;
    bool bs = c == '\\' && i + 1 < N && t[i + 1] == 'x' && h2 >= 0 && h3 >= 0;
#if FN == 1
    if (c == '+') full[L++] = ' ';
    else if (c == '%' && h1 >= 0 && h2 >= 0) { full[L++] = h1 * 16 + h2; adv = 3; esc = true; }
    else if (c == '%' && i + 2 < N && t[i + 1] == 'u' && h2 >= 0) {
      int h4 = i + 4 < N ? hx(t[i + 4]) : -1, h5 = i + 5 < N ? hx(t[i + 5]) : -1; bool more = i + 6 < N && (hx(t[i + 6]) >= 0 || t[i + 6] == 'x' || t[i + 6] == 'X');
      if (h3 < 0 || h4 < 0 || h5 < 0 || more || t[i + 3] == 'x') { spec = false; break; }
      unsigned v = h2 * 4096 + h3 * 256 + h4 * 16 + h5; if (v >= 0x800 || v == 0x7f || v == 0) { spec = false; break; }
      if (v > 0x7f) { full[L++] = 0xc0 | v >> 6; full[L++] = 0x80 | (v & 63); } else full[L++] = v;
      adv = 6; esc = true; }
    else if (bs) { full[L++] = h2 * 16 + h3; adv = 4; esc = true; }
    else full[L++] = c;
#else
    if (c == '%' && h1 >= 0 && h2 >= 0) { adv = 3; esc = true; if (h1 >= 8) full[L++] = h1 * 16 + h2; else { full[L++] = c; full[L++] = t[i + 1]; full[L++] = t[i + 2]; } }
    else if (bs) { adv = 4; esc = true; if (h2 >= 8) full[L++] = h2 * 16 + h3; else { full[L++] = c; full[L++] = 'x'; full[L++] = t[i + 2]; full[L++] = t[i + 3]; } }
    else full[L++] = c;
#endif
#endif
    piece[L] = 1;
  }
  FUN(t, d, CAP);
  bool term = false; for (int i = 0; i < CAP; i++) if (d[i] == 0) term = true;
  CHECK(term, "destination not terminated");
  if (spec) {
    size_t l = 0; bool same = true; // longest agreement
    if (L + MARGIN <= CAP) { for (size_t i = 0; i < L; i++) if ((u)d[i] != full[i]) same = false; CHECK(same && d[L] == 0, "text that fits is not the exact transformation"); }
    else { bool ok = false; for (size_t e = 0; e <= L && e < CAP; e++) { if (e > 0 && (u)d[e - 1] != full[e - 1]) same = false; if (same && piece[e] && d[e] == 0) ok = true; } CHECK(ok, "not a prefix of the transformation"); }
  }
  WITNESS(N < 4 || CAP < 5 || (esc && spec), "escape"); WITNESS(N < 4 || !esc, "plain");
}
