// C08: query strings (MODE 0) and header blocks (MODE 1) of exactly N bytes; C=1 uses the NUL-terminated entry point.
#include "vp.h"
#include <string>
#include <map>
#include "coda/url.hpp"
extern "C" void harness(void) {
  char *t = (char *)vp_buf(N + CSTR); for (int i = 0; i < N; i++) { char c = nd_u8();
    if (CSTR) ASSUME(c != 0); t[i] = c; }
  if (CSTR) t[N] = 0;
  coda_params_t m; bool pre = nd_bool(); if (pre) m["z"] = "1";
#if MODE == 0
  int r = CSTR ? coda_get_params(m, t) : coda_get_params_buf(m, t, (size_t)N);
#else
  int r = CSTR ? coda_get_header(m, t) : coda_get_header_buf(m, t, (size_t)N);
#endif
  CHECK(r == 0, "result");
  int ks[N + 1], kl[N + 1], vs[N + 1], vl[N + 1], n = 0;
  const char sep = MODE ? ':' : '=';
  for (int b = 0; b < N;) { int e = b; while (e < N && !(MODE ? (t[e] == '\r' && e + 1 < N && t[e + 1] == '\n') : t[e] == '&')) e++;
    if (MODE && e == b) break;
    int q = b; while (q < e && t[q] != sep) q++;
    if (q < e) { ks[n] = b; kl[n] = q - b; vs[n] = q + 1; vl[n] = e - q - 1; n++; }
    b = e + (MODE ? 2 : 1); }
  size_t cnt = 0; bool ok = true, zz = false;
  for (int i = 0; i < n; i++) {
    bool later = false; for (int j = i + 1; j < n; j++) { bool same = kl[j] == kl[i]; for (int k = 0; k < kl[i] && same; k++) same = t[ks[i] + k] == t[ks[j] + k]; if (same) later = true; }
    if (kl[i] == 1 && t[ks[i]] == 'z') zz = true;
    if (later) continue;
    cnt++; std::string key(t + ks[i], (size_t)kl[i]);
    coda_params_t::iterator it = m.find(key);
    if (it == m.end()) ok = false;
    else { if (it->second.size() != (size_t)vl[i]) ok = false; else for (int k = 0; k < vl[i]; k++) if (it->second[k] != t[vs[i] + k]) ok = false; } }
  CHECK(ok, "pair missing or with another value");
  if (pre && !zz) { cnt++; CHECK(m.count("z") == 1 && m["z"] == "1", "earlier entry lost"); }
  CHECK(m.size() == cnt, "entries that are not in the text");
  WITNESS(N < 4 + MODE || (n == 2 && cnt == 2 + (pre && !zz)), "two pairs"); WITNESS(n == 0, "none"); WITNESS(N < 3 + MODE || (n == 2 && cnt == 1), "repeated key");
#if CSTR
  CHECK((MODE ? coda_get_header(m, 0) : coda_get_params(m, 0)) == -1, "null text accepted");
#endif
}
