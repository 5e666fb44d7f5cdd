// C15: splitting, comma sets, word iteration.  Text of exactly N non-NUL bytes (exact allocation), M delimiters.
#include "vp.h"
#include <string>
#include <vector>
#include <set>
#include "coda/string.hpp"
#include "coda/easy_parsing.hpp"
static bool eq(const std::string &s, const char *p, size_t n) { if (s.size() != n) return false; for (size_t i = 0; i < n; i++) if (s[i] != p[i]) return false; return true; }
extern "C" void harness(void) {
#if MODE == 0
  char *t = (char *)vp_buf(N + (SIZED ? 0 : 1)); for (int i = 0; i < N; i++) { uint8_t c = nd_u8(); ASSUME(c != 0); t[i] = c; } if (!SIZED) t[N] = 0;
  char *d = (char *)vp_buf(M + 1); nd_text(d, M);
  std::vector<std::string> v = SIZED ? coda_split_string(t, (size_t)N, d, IGN) : coda_split_string(t, d, IGN);
  size_t k = 0; int b = 0; bool ok = true;
  for (int i = 0; i <= N; i++) {
    bool isd = i == N; for (int j = 0; j < M && i < N; j++) if (d[j] == t[i]) isd = true;
    if (!isd) continue;
    if (i > b || !IGN) { if (k >= v.size() || !eq(v[k], t + b, i - b)) ok = false; k++; }
    b = i + 1; }
  CHECK(ok, "piece missing or different"); CHECK(v.size() == k, "wrong number of pieces");
  WITNESS(N < 3 || M == 0 || v.size() == 2, "two pieces");
  WITNESS(v.size() <= 1, "one or none");
#elif MODE == 1
  char *t = (char *)vp_buf(N + 1); nd_text(t, N);
  std::set<std::string> r;
  bool pre = nd_bool(); if (pre) r.insert(std::string("zz"));
  coda_get_stringset(t, r);
  size_t cnt = 0; int b = 0; bool ok = true, zz = false; int st[N + 1], ln[N + 1], ni = 0;
  for (int i = 0; N > 0 && i <= N; i++) if (t[i] == ',' || i == N) { st[ni] = b; ln[ni] = i - b; ni++; b = i + 1; }
  for (int i = 0; i < ni; i++) {
    bool dup = false; for (int j = 0; j < i; j++) { bool same = ln[j] == ln[i]; for (int q = 0; q < ln[i] && same; q++) same = t[st[j] + q] == t[st[i] + q]; if (same) dup = true; }
    if (ln[i] == 2 && t[st[i]] == 'z' && t[st[i] + 1] == 'z') zz = true;
    if (!dup) cnt++;
    if (!r.count(std::string(t + st[i], (size_t)ln[i]))) ok = false; }
  if (pre && !zz) cnt++;
  CHECK(ok, "comma item missing from the set"); CHECK(r.size() == cnt, "set has other members"); if (pre) CHECK(r.count(std::string("zz")) == 1, "member lost");
  WITNESS(N < 3 || r.size() == 2 + (pre && !zz), "two items");
#elif MODE == 2
  char *t = (char *)vp_buf(N + 1); for (int i = 0; i < N; i++) { uint8_t c = nd_u8(); ASSUME((c >= '0' && c <= '9') || c == ',' || (c >= 'a' && c <= 'z')); t[i] = c; } t[N] = 0;
  std::set<uint64_t> r; bool pre = nd_bool(); uint64_t old = nd_u64(); if (pre) r.insert(old);
  uint64_t val[N + 1]; int ni = 0, b = 0; bool oldin = false;
  for (int i = 0; i <= N; i++) if (t[i] == ',' || i == N) {
    if (i > b && t[b] <= '9') { uint64_t x = 0; for (int q = b; q < i; q++) { ASSUME(t[q] <= '9'); x = x * 10 + (t[q] - '0'); } val[ni++] = x; if (x == old) oldin = true; }
    b = i + 1; }
  coda_get_uint64set(t, r);
  size_t cnt = 0; bool ok = true;
  for (int i = 0; i < ni; i++) { bool dup = false; for (int j = 0; j < i; j++) if (val[j] == val[i]) dup = true; if (!dup) cnt++; if (!r.count(val[i])) ok = false; }
  if (pre && !oldin) cnt++;
  CHECK(ok, "number missing from the set"); CHECK(r.size() == cnt, "set holds something that is not an item"); if (pre) CHECK(r.count(old) == 1, "member lost");
  WITNESS(N < 3 || ni == 2, "two numbers"); WITNESS(ni == 0 || N > 4, "none");
#else
  char *t = (char *)vp_buf(N + 1); nd_text(t, N);
  const char *be = t, *en = t; int k = 0, words = 0; bool fin = false;
  for (int it = 0; it <= N / 2 + 1; it++) {
    while (k < N && (t[k] == ' ' || t[k] == '\t' || t[k] == '\n' || t[k] == '\r')) k++;
    int e = k; while (e < N && !(t[e] == ' ' || t[e] == '\t' || t[e] == '\n' || t[e] == '\r')) e++;
    int r = get_next_word(be, en);
    CHECK(!!r == (e > k), "word present/absent");
    if (!r) { fin = true; CHECK(be <= t + N && en >= t && en <= t + N, "position outside the text"); break; }
    CHECK(be == t + k && en == t + e, "word boundaries"); words++;
    k = e; be = en; }
  CHECK(fin, "iteration does not end");
  WITNESS(N < 3 || words == 2, "two words"); WITNESS(words == 0, "none");
#endif
}
