// C36: MODE 1 level names, 2 message threshold and text, 3 opening a log.
#define ON_OPEN { size_t i = 0; for (; p[i] && i < 15; i++) o_copy[i] = p[i]; o_copy[i] = 0; }
static char o_copy[16];
#include "sysfd.h"
#include <pthread.h>
#include "coda/logger.h"
#ifndef PLEN
#define PLEN 5
#endif
static struct timeval tv0; static struct tm tm0; static long asked;
int STUB(gettimeofday)(struct timeval *t, void *z) { *t = tv0; return 0; }
struct tm *STUB(localtime_r)(const time_t *t, struct tm *r) { asked = *t; *r = tm0; return r; }
time_t STUB(time)(time_t *t) { if (t) *t = tv0.tv_sec; return tv0.tv_sec; }
static char out[256]; static int nout; static FILE *outf;
int STUB(vfprintf)(FILE *f, const char *s, va_list ap) { outf = f; int n = vsnprintf(out + nout, sizeof out - nout, s, ap); nout += n; return n; }
int STUB(fprintf)(FILE *f, const char *s, ...) { va_list ap; va_start(ap, s); int n = STUB(vfprintf)(f, s, ap); va_end(ap); return n; }
int STUB(fputs)(const char *s, FILE *f) { return STUB(fprintf)(f, "%s", s); }
int STUB(fputc)(int c, FILE *f) { return STUB(fprintf)(f, "%c", c); }
size_t STUB(fwrite)(const void *p, size_t a, size_t b, FILE *f) { outf = f; for (size_t i = 0; i < a * b; i++) out[nout++] = ((const char *)p)[i]; out[nout] = 0; return b; }
int STUB(fflush)(FILE *f) { return 0; }
static const void *tnm; pthread_t STUB(pthread_self)(void) { return 140735; }
#ifndef VP_REPLAY
int pthread_once(pthread_once_t *o, void (*f)(void)) { if (!*o) { *o = 1; f(); } return 0; }
int pthread_key_create(pthread_key_t *k, void (*d)(void *)) { *k = 1; return 0; }
void *pthread_getspecific(pthread_key_t k) { return (void *)tnm; }
int pthread_setspecific(pthread_key_t k, const void *v) { tnm = v; return 0; }
#endif
static char orig[PLEN + 1]; static int at, nmk, mkfail;
int STUB(mkdir)(const char *p, mode_t m) { nmk++; CHECK(!mkfail, "goes on after a failure"); int j = at + 1; while (j < PLEN && orig[j] && orig[j] != '/') j++;
  CHECK(j < PLEN && orig[j] == '/', "creates a directory that was not asked for"); at = j; for (int i = 0; i < j; i++) CHECK(p[i] == orig[i], "creates another directory"); CHECK(p[j] == 0, "creates another directory");
  unsigned char k = nd_upto(2); if (!k) return 0; errno = k == 1 ? EEXIST : ENOTDIR; if (k == 2) { mkfail++; bad++; } return -1; }
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static char exp_[256]; static int ne; static void put(const char *s) { while (*s) exp_[ne++] = *s++; } static void num(unsigned v, int w) { char t[12]; int n = 0; do { t[n++] = '0' + v % 10; v /= 10; } while (v); while (n < w) t[n++] = '0'; while (n) exp_[ne++] = t[--n]; }
void harness(void) {
#if MODE == 1
  int n = nd_upto(3); char *p = (char *)vp_buf(n + 1); for (int i = 0; i < n; i++) { p[i] = (char)nd_u8(); ASSUME(p[i]); } p[n] = 0;
  int a = n > 0 ? low((unsigned char)p[0]) : 0, b = n > 1 ? low((unsigned char)p[1]) : 0;
  int want = a == 'a' && b == 'c' ? 0 : a == 'e' && b == 'm' ? 1 : a == 'a' && b == 'l' ? 2 : a == 'c' ? 3 : a == 'e' && b == 'r' ? 4 : a == 'w' ? 5 : a == 'n' ? 6 : a == 'i' ? 7 : a == 'd' ? 8 : 7;
  CHECK(log_levels(p) == want, "level"); for (int l = 0; l < 9; l++) { static const char *nm[] = {"access", "emerg", "alert", "crit", "error", "warn", "notice", "info", "debug"}; CHECK(log_levels(nm[l]) == l, "full name"); }
  WITNESS(n == 0, "empty"); WITNESS(want == 2, "alert"); WITNESS(want == 7 && a == 'a', "default");
#elif MODE == 2
  static const int hm[] = {9, 23}, mm[] = {0, 5, 59}, us[] = {0, 999, 1000, 9999, 10000, 99999, 100000, 999999};
#if TEXT
  int cur = 8, lv = nd_bool() ? 4 : 0; tm0.tm_mon = nd_upto(11); tm0.tm_mday = 1 + nd_upto(30); tm0.tm_hour = hm[nd_upto(1)]; tm0.tm_min = mm[nd_upto(2)]; tm0.tm_sec = mm[1 + nd_upto(1)]; tv0.tv_usec = us[nd_upto(7)];
#else
  int cur = (int)nd_upto(10) - 1, lv = nd_upto(8); tm0.tm_mon = 1; tm0.tm_mday = 3; tm0.tm_hour = 4; tm0.tm_min = 5; tm0.tm_sec = 6; tv0.tv_usec = 7000;
#endif
  log_level = cur; tv0.tv_sec = nd_u32(); tm0.tm_year = YEAR - 1900;
  int named = nd_bool(), arg = TEXT ? 5 : nd_u8(); if (named) log_thread_name_set("T1");
  switch (lv) { case 0: log_access("m%d", arg); break; case 1: log_emerg("m%d", arg); break; case 2: log_alert("m%d", arg); break; case 3: log_crit("m%d", arg); break; case 4: log_error("m%d", arg); break; case 5: log_warn("m%d", arg); break; case 6: log_notice("m%d", arg); break; case 7: log_info("m%d", arg); break; default: log_debug("m%d", arg); }
  if (lv > cur) CHECK(nout == 0, "a message above the level is written");
  else { static const char *nm[] = {"access", "emerg", "alert", "crit", "error", "warn", "notice", "info", "debug"};
    CHECK(outf == stderr, "written elsewhere"); CHECK(asked == tv0.tv_sec, "another time"); num(YEAR, 4); put("-"); num(tm0.tm_mon + 1, 2); put("-"); num(tm0.tm_mday, 2); put(" "); num(tm0.tm_hour, 2); put(":"); num(tm0.tm_min, 2); put(":"); num(tm0.tm_sec, 2); put("."); num(tv0.tv_usec / 1000, 3); put(" "); put(nm[lv]); put(" "); if (named) put("T1"); else put("140735"); put(" m"); num(arg, 1); put("\n");
    CHECK(nout == ne, "another text"); for (int i = 0; i < ne; i++) CHECK(out[i] == exp_[i], "another text"); }
  CHECK(log_level == cur, "the level changed");
  WITNESS(TEXT || lv > cur, "suppressed"); WITNESS(TEXT || (lv == cur && named), "at the level"); WITNESS(lv < cur && !named, "below");
#else
  table(nd_upto(7), 4); static char path[PLEN + 1]; int n = 1 + nd_upto(PLEN - 1); for (int i = 0; i < n; i++) { path[i] = orig[i] = nd_bool() ? '/' : 'a' + i; } path[n] = orig[n] = 0; int lv = nd_upto(8), l0 = nd_upto(8); log_level = l0;
  int r = log_create(path, lv);
  for (int i = 0; i <= n; i++) CHECK(path[i] == orig[i], "the caller's text changed");
  if (r < 0) { CHECK(bad, "failure without a failing step"); CHECK(log_level == l0, "the level is set although it failed"); noleak(2, "a descriptor is left open after a failure"); CHECK(!mkfail || !nopen, "opened although a directory is missing"); }
  else { int k = 0; for (int i = 1; i < n; i++) k += orig[i] == '/'; CHECK(nmk == k, "a directory is missing"); CHECK(!bad, "success although a step failed"); CHECK(r == 2 && fo[2] == nfile && nfile > 20 && nopen == 1, "standard error is not the log"); CHECK(log_level == lv, "the level is not set"); same(2, "another descriptor changed");
    for (int i = 0; i <= n; i++) CHECK(o_copy[i] == orig[i], "another file is opened"); CHECK((o_flags & O_APPEND) && (o_flags & O_CREAT) && (o_flags & O_ACCMODE) != O_RDONLY && !(o_flags & (O_TRUNC|O_EXCL)), "not opened for appending"); }
  WITNESS(r < 0 && mkfail, "no directory"); WITNESS(r < 0 && nopen, "fails"); WITNESS(r == 2 && nmk == 2, "opened");
#endif
}
