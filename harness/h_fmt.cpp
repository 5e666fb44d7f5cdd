#include "vp.h"
#include <coda/string.hpp>
#include <string.h>
/* C16: formatted appends. FN: 0 coda_strprintf, 1 coda_strappend, 2 coda_strnappend, 3 coda_strnprintf.
   The text is a number of fixed digits, the bytes of a string and a final mark, in formats that consume several arguments. */
static char text[MAX + 8]; static size_t tl;
static void put(char c) { text[tl++] = c; }
extern "C" void harness() {
  char s[MAX + 1]; size_t l = nd_u8(); vp_assume(l >= LO && l <= MAX);
  for (size_t i = 0; i < l; i++) { s[i] = (char)nd_u8(); vp_assume(s[i] != 0); } s[l] = 0;
  std::string o; char had[4]; size_t hl = nd_u8(); vp_assume(hl <= HAD);
  for (size_t i = 0; i < hl; i++) { had[i] = (char)nd_u8(); o.push_back(had[i]); }
#if FMT == 0
#define ARGS "%s", s
  for (size_t i = 0; i < l; i++) put(s[i]);
#elif FMT == 1
#define ARGS "%d%s%c", 42, s, '!'
  put('4'); put('2'); for (size_t i = 0; i < l; i++) put(s[i]); put('!');
#else
#define ARGS "%s%s%%%u", "-", s, 7u
  put('-'); for (size_t i = 0; i < l; i++) put(s[i]); put('%'); put('7');
#endif
#if FN == 0
  std::string r = coda_strprintf(ARGS);
  vp_assert(r.size() == tl, "coda_strprintf: length"); for (size_t i = 0; i < tl; i++) vp_assert(r[i] == text[i], "coda_strprintf: text");
  if (tl >= 8) vp_witness("longer than the buffer"); else vp_witness("short");
#else
  size_t num = (size_t)-1, pos = hl; int r;
#if FN == 1
  r = coda_strappend(o, ARGS);
#else
#if HUGE_
  static const size_t big[] = {0x7fffffff, 0x80000000u, 0x80000001u, 0xffffffffu, 0x100000000ull, 0x100000001ull, 0x7fffffffffffffffull, 0x8000000000000000ull, (size_t)-2, (size_t)-1};
  size_t k = nd_u8(); vp_assume(k < sizeof big / sizeof *big); for (size_t i = 0; i < sizeof big / sizeof *big; i++) if (k == i) num = big[i];
#else
  num = nd_u8(); vp_assume(num <= MAX + 6);
#endif
#if FN == 2
  r = coda_strnappend(o, num, ARGS);
#else
  pos = nd_u8(); vp_assume(pos <= HAD + 2);
#ifdef FARPOS
  if (pos > HAD) pos = (size_t)-1;
#endif
  r = coda_strnprintf(o, pos, num, ARGS);
  if (pos > hl) {
    vp_assert(r == -1, "coda_strnprintf: accepted a position beyond the end"); vp_assert(o.size() == hl, "coda_strnprintf: changed a string it refused"); for (size_t i = 0; i < hl; i++) vp_assert(o[i] == had[i], "coda_strnprintf: changed a string it refused");
    vp_witness("refused"); return;
  }
#endif
#endif
  size_t add = num < tl ? num : tl;
  vp_assert(r == (int)add, "wrong number of bytes reported");
  vp_assert(o.size() == hl + add, "wrong number of bytes added");
  for (size_t i = 0; i < pos; i++) vp_assert(o[i] == had[i], "the string before the position changed");
  for (size_t i = 0; i < add; i++) vp_assert(o[pos + i] == text[i], "wrong text");
  for (size_t i = pos; i < hl; i++) vp_assert(o[add + i] == had[i], "the string after the position changed");
  if (tl >= 8) vp_witness("longer than the buffer"); else vp_witness("short");
#if FN >= 2 && !HUGE_
  if (num < tl) vp_witness("cut");
#endif
#endif
}
