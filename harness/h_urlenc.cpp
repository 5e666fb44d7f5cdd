// C06: percent-encoding.  MODE 0 encode a byte string of N bytes (all variants, both decoders back), 1 decode arbitrary N bytes.
#include "vp.h"
#include <string>
#include "coda/url.hpp"
typedef unsigned char u;
static bool unres(u c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '-' || c == '_' || c == '.' || c == '~'; }
static int hx(u c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 0; }
static bool up(u c) { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'F'); }
extern "C" void harness(void) {
  char *t = (char *)vp_buf(N); nd_bytes(t, N);
#if MODE == 0
  u full[3 * N + 1]; size_t L = 0; bool esc = false;
  std::string e;
  if (PLUS == 2) { // caller's buffer
    for (int i = 0; i < N; i++) L += unres(t[i]) || t[i] == ' ' ? 1 : 3;
    char d[3 * N + 1]; size_t r = coda_urlenc(d, t, (size_t)N);
    CHECK(r == L && d[L] == 0, "length of the encoded text"); size_t p = 0; bool ok = true;
    for (int i = 0; i < N; i++) { u c = t[i]; if (unres(c)) { if (d[p] != t[i]) ok = false; p++; } else if (c == ' ') { if (d[p] != '+') ok = false; p++; } else { esc = true; if (d[p] != '%' || !up(d[p + 1]) || !up(d[p + 2]) || hx(d[p + 1]) * 16 + hx(d[p + 2]) != c) ok = false; p += 3; } }
    CHECK(ok, "not the percent-encoded form");
    char b[3 * N + 1]; r = coda_urldec(b, d, L); CHECK(r == N, "decoded length"); bool same = true; for (int i = 0; i < N; i++) if (b[i] != t[i]) same = false; CHECK(same && b[N] == 0, "decoding does not restore the bytes");
  } else {
    e = PLUS ? coda_urlenc(t, (size_t)N) : coda_urlenc_noplus(t, (size_t)N);
    size_t p = 0; bool ok = true; CHECK(e.size() <= 3 * N, "longer than three times the input");
    for (int i = 0; i < N; i++) { u c = t[i]; if (unres(c)) { if (p >= e.size() || e[p] != t[i]) ok = false; p++; } else if (PLUS && c == ' ') { if (p >= e.size() || e[p] != '+') ok = false; p++; } else { esc = true; if (p + 2 >= e.size() || e[p] != '%' || !up(e[p + 1]) || !up(e[p + 2]) || hx(e[p + 1]) * 16 + hx(e[p + 2]) != c) ok = false; p += 3; } if (!ok) break; }
    CHECK(ok && p == e.size(), "not the percent-encoded form");
    std::string b = coda_urldec(e); CHECK(b.size() == N, "decoded length"); bool same = true; for (int i = 0; i < N; i++) if (b.size() <= (size_t)i || b[i] != t[i]) same = false; CHECK(same, "decoding does not restore the bytes");
  }
  WITNESS(N == 0 || esc, "escape"); WITNESS(!esc, "plain");
#elif MODE == 1
  // decoders: an escape is '%' followed by at least two more bytes; hexadecimal digits count their value, anything else 0
  std::string s; char d[N + 1]; size_t r = 0;
  if (PLUS) { s = coda_urldec(t, (size_t)N); } else r = coda_urldec(d, t, (size_t)N);
  size_t L = 0; bool ok = true, esc = false, part = false;
  for (int i = 0; i < N; L++) { u c = t[i], w; bool spec = true;
    if (c == '%' && i + 2 < N) { bool h = (hx(t[i+1]) || t[i+1] == '0') && (hx(t[i+2]) || t[i+2] == '0'); spec = h; w = hx(t[i + 1]) * 16 + hx(t[i + 2]); i += 3; esc = true; } else { if (c == '%') part = true; w = c == '+' ? ' ' : c; i++; }
    if (PLUS ? (L >= s.size() || (spec && (u)s[L] != w)) : (L >= r || (spec && (u)d[L] != w))) ok = false; }
  CHECK(ok && (PLUS ? s.size() : r) == L, "decoded text"); if (!PLUS) CHECK(d[r] == 0, "not terminated");
  WITNESS(N < 3 || esc, "escape"); WITNESS(N < 1 || part, "partial escape");
#else // same results for the string overloads and for both decoders, on arbitrary bytes
  std::string u0(t, (size_t)N), a = coda_urlenc(t, (size_t)N), b = coda_urlenc(u0), c = coda_urlenc_noplus(t, (size_t)N), c2 = coda_urlenc_noplus(u0), e = coda_urldec(t, (size_t)N), e2 = coda_urldec(u0);
  CHECK(a == b && c == c2 && e == e2, "string overload differs"); char d[3 * N + 1]; size_t r = coda_urldec(d, t, (size_t)N);
  CHECK(r == e.size(), "decoders differ"); bool ok = true; for (size_t i = 0; i < r; i++) if (d[i] != e[i]) ok = false; CHECK(ok, "decoders differ");
  r = coda_urlenc(d, t, (size_t)N); CHECK(r == a.size(), "encoders differ"); ok = true; for (size_t i = 0; i < r; i++) if (d[i] != a[i]) ok = false; CHECK(ok, "encoders differ");
  WITNESS(N < 1 || r == 3 * N, "all escaped"); WITNESS(r == N, "none escaped");
#endif
}
