// Checks of the encoding itself: two ways of reaching the same memory must agree (see DESIGN.md, soundness of the encoding).
#include "vp.h"
#include <new>
struct S { size_t n; char d[5]; S() : n(0) { d[0] = 0; } S(const char *s, size_t l) : n(0) { d[0] = 0; for (size_t i = 0; i < l; i++) d[n + i] = s[i]; n += l; d[n] = 0; } S(const S &o) : n(o.n) { __builtin_memcpy(d, o.d, sizeof d); } };
struct V { size_t n; union { S d[5]; }; V() : n(0) {} ~V() {} V(const V &o) : n(0) { for (size_t i = 0; i < o.n; i++) new (&d[i]) S(o.d[i]); n = o.n; } void push(const S &s) { ASSUME(n < 5); new (&d[n]) S(s); n++; } };
static V mk(const char *t, int N1) { V v; const char *b = t; for (const char *p = t; p < t + N1; p++) if (*p == 'a') { v.push(S(b, p - b)); b = p + 1; } v.push(S(b, t + N1 - b)); return v; }
struct P3 { unsigned char b[3]; }; struct Q { uint64_t n; uint32_t a[4]; P3 h[4]; uint32_t m; uint16_t w[3][3]; };
extern "C" void harness(void) {
#if MODE == 0
  char t[3]; for (int i = 0; i < 3; i++) t[i] = nd_u8();
  V v = mk(t, 3); size_t k = 0; int b = 0;
  for (int i = 0; i <= 3; i++) if (i == 3 || t[i] == 'a') { CHECK(k < v.n, "count"); CHECK(v.d[k].n == (size_t)(i - b), "length"); for (int j = 0; j < i - b; j++) CHECK(v.d[k].d[j] == t[b + j], "byte"); k++; b = i + 1; }
  CHECK(v.n == k, "number"); WITNESS(k == 3, "three");
#elif MODE == 1
  Q q, z; unsigned char *raw = (unsigned char *)&q; for (size_t i = 0; i < sizeof q; i++) raw[i] = nd_u8();
  size_t k = nd_upto(3), j = nd_upto(2), l = nd_upto(2); unsigned char x = nd_u8();
  bool heap = nd_bool(); Q *p = heap ? (Q *)vp_buf(sizeof(Q)) : &z; __builtin_memcpy((void *)p, &q, sizeof q);
  CHECK(p->h[k].b[j] == raw[8 + 16 + 3 * k + j], "read of an array in a struct in an array");
  CHECK(p->w[j][l] == (uint16_t)(raw[40 + 6 * j + 2 * l] | raw[41 + 6 * j + 2 * l] << 8), "read of a two dimensional array");
  CHECK(((unsigned char *)&p->a[k])[j] == raw[8 + 4 * k + j], "byte of an element");
  P3 *e = &p->h[k]; (&e->b[0])[j] = x; CHECK(p->h[k].b[j] == x && ((unsigned char *)p)[24 + 3 * k + j] == x, "write");
  p->h[k] = p->h[j]; CHECK(((unsigned char *)p->h)[3 * k + l] == ((unsigned char *)&p->h[j])[l], "element copy");
  uint16_t *r = p->w[j]; r[l] = 77; CHECK(p->w[j][l] == 77 && raw[8] == (unsigned char)p->a[0], "row");
  WITNESS(heap && k == 3 && j == 2, "last");
#elif MODE == 2
  char a[4], c[6]; for (int i = 0; i < 4; i++) a[i] = nd_u8(); for (int i = 0; i < 6; i++) c[i] = nd_u8();
  size_t i = nd_upto(3), j = nd_upto(5); bool w = nd_bool(), f = nd_bool();
  char *p = w ? a : c; if (f) p += w ? i : j;
  CHECK(*p == (w ? a[f ? i : 0] : c[f ? j : 0]), "pointer to the whole or to an element");
  *p = 1; CHECK((w ? a[f ? i : 0] : c[f ? j : 0]) == 1, "store"); WITNESS(w && f && i == 3, "inner");
#endif
}
