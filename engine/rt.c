/* Models of the C library functions the code under test calls.  All weak: a harness may supply its own. */
#include <stddef.h>
#include <stdint.h>
#define W __attribute__((weak))
void *malloc(size_t); void vp_assert(int, const char *); void vp_assume(int);
W void *memcpy(void *d, const void *s, size_t n) { char *a = d; const char *b = s; for (size_t i = 0; i < n; i++) a[i] = b[i]; return d; }
W void *memmove(void *d, const void *s, size_t n) {
  char *a = d; const char *b = s;
  if (a <= b || a >= b + n) { for (size_t i = 0; i < n; i++) a[i] = b[i]; }
  else { for (size_t i = n; i > 0; i--) a[i-1] = b[i-1]; }
  return d; }
W void *memset(void *d, int c, size_t n) { char *a = d; for (size_t i = 0; i < n; i++) a[i] = (char)c; return d; }
W int memcmp(const void *a, const void *b, size_t n) { const unsigned char *x = a, *y = b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
W void *memchr(const void *a, int c, size_t n) { const unsigned char *x = a; for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void *)(x + i); return 0; }
W void *memrchr(const void *a, int c, size_t n) { const unsigned char *x = a; for (size_t i = n; i > 0; i--) if (x[i-1] == (unsigned char)c) return (void *)(x + i - 1); return 0; }
W size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
W size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
W int strcmp(const char *a, const char *b) { size_t i = 0; while (a[i] && a[i] == b[i]) i++; return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : (unsigned char)a[i] > (unsigned char)b[i]; }
W int strncmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1; if (!a[i]) return 0; } return 0; }
static int lo(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
W int tolower(int c) { return lo(c); }
W int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
W int isdigit(int c) { return c >= '0' && c <= '9'; }
W int isxdigit(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
W int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
W int isalnum(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
W int isupper(int c) { return c >= 'A' && c <= 'Z'; }
W int islower(int c) { return c >= 'a' && c <= 'z'; }
W int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
W int isprint(int c) { return c >= 32 && c < 127; }
W int isgraph(int c) { return c > 32 && c < 127; }
W int ispunct(int c) { return c > 32 && c < 127 && !isalnum(c); }
W int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
W int isblank(int c) { return c == ' ' || c == '\t'; }
W int isascii(int c) { return c >= 0 && c < 128; }
W int strcasecmp(const char *a, const char *b) { size_t i = 0; while (a[i] && lo((unsigned char)a[i]) == lo((unsigned char)b[i])) i++; return lo((unsigned char)a[i]) - lo((unsigned char)b[i]); }
W int strncasecmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) { int x = lo((unsigned char)a[i]), y = lo((unsigned char)b[i]); if (x != y) return x - y; if (!a[i]) return 0; } return 0; }
W char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
W char *strchrnul(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return (char *)s; } }
W char *strrchr(const char *s, int c) { char *r = 0; for (;; s++) { if (*s == (char)c) r = (char *)s; if (!*s) return r; } }
W char *strstr(const char *s, const char *n) { for (;; s++) { size_t i = 0; while (n[i] && s[i] == n[i]) i++; if (!n[i]) return (char *)s; if (!*s) return 0; } }
W char *strpbrk(const char *s, const char *a) { for (; *s; s++) for (const char *x = a; *x; x++) if (*x == *s) return (char *)s; return 0; }
W size_t strspn(const char *s, const char *a) { size_t n = 0; for (; s[n]; n++) { const char *x = a; while (*x && *x != s[n]) x++; if (!*x) break; } return n; }
W size_t strcspn(const char *s, const char *a) { size_t n = 0; for (; s[n]; n++) { const char *x = a; while (*x && *x != s[n]) x++; if (*x) break; } return n; }
W char *strcpy(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
W char *stpcpy(char *d, const char *s) { size_t i = 0; for (; s[i]; i++) d[i] = s[i]; d[i] = 0; return d + i; }
W char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
W char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
W char *strncat(char *d, const char *s, size_t n) { size_t l = strlen(d), i = 0; for (; i < n && s[i]; i++) d[l+i] = s[i]; d[l+i] = 0; return d; }
W void *mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *)d + n; }
W char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); if (p) memcpy(p, s, n); return p; }
/* strtol family, bases 8/10/16 and 0 */
static int dig(char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'z') return c - 'a' + 10; if (c >= 'A' && c <= 'Z') return c - 'A' + 10; return 99; }
static unsigned long vp_strto(const char *s, char **e, int base, int sgn, int *negp, int *ovf) {
  const char *p = s; while (isspace((unsigned char)*p)) p++;
  int neg = 0; if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && dig(p[2]) < 16) { p += 2; base = 16; }
  else if (base == 0) base = p[0] == '0' ? 8 : 10;
  unsigned long v = 0; int any = 0;
  for (; dig(*p) < base; p++) { any = 1; unsigned __int128 w = (unsigned __int128)v * (unsigned)base + (unsigned)dig(*p); if (w >> 64) *ovf = 1; v = (unsigned long)w; }
  if (e) *e = (char *)(any ? p : s);
  *negp = neg; return v; }
W long strtol(const char *s, char **e, int b) { int n = 0, o = 0; unsigned long v = vp_strto(s, e, b, 1, &n, &o); unsigned long lim = n ? 1UL << 63 : (1UL << 63) - 1; if (o || v > lim) return (long)lim; return n ? (long)-v : (long)v; }
W long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
W unsigned long strtoul(const char *s, char **e, int b) { int n = 0, o = 0; unsigned long v = vp_strto(s, e, b, 0, &n, &o); if (o) return -1UL; return n ? -v : v; }
W unsigned long long strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
W long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
W unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
W long long __isoc23_strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
W unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
W int atoi(const char *s) { return (int)strtol(s, 0, 10); }
W long atol(const char *s) { return strtol(s, 0, 10); }
static int vp_errno_v;
W int *__errno_location(void) { return &vp_errno_v; }
W unsigned htonl(unsigned x) { return __builtin_bswap32(x); }
W unsigned ntohl(unsigned x) { return __builtin_bswap32(x); }
W unsigned short htons(unsigned short x) { return (unsigned short)(x << 8 | x >> 8); }
W unsigned short ntohs(unsigned short x) { return (unsigned short)(x << 8 | x >> 8); }
/* scanf/printf family for the conversions %d %i %u %x %X %o %c %s %% with l/ll/z/h/j lengths, flags 0 - +, width and precision */
#include <stdarg.h>
W int vsscanf(const char *s, const char *f, va_list ap) {
  int got = 0; const char *b = s;
  for (; *f; f++) {
    if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*s)) s++; continue; }
    if (*f != '%') { if (*s != *f) return (!*s && !got) ? -1 : got; s++; continue; }
    f++; int l = 0, sup = 0; if (*f == '*') { sup = 1; f++; }
    while (*f == 'l' || *f == 'z' || *f == 'j') { l = 2; f++; } while (*f == 'h') { l--; f++; }
    if (*f == 'n') { *va_arg(ap, int *) = (int)(s - b); continue; }
    if (*f == 'c') { if (!*s) return got ? got : -1; if (!sup) { *va_arg(ap, char *) = *s; got++; } s++; continue; }
    while (isspace((unsigned char)*s)) s++;
    if (!*s) return got ? got : -1;
    if (*f == 's') { char *d = sup ? 0 : va_arg(ap, char *); while (*s && !isspace((unsigned char)*s)) { if (d) *d++ = *s; s++; } if (d) { *d = 0; got++; } continue; }
    int base = *f == 'x' || *f == 'X' ? 16 : *f == 'o' ? 8 : *f == 'i' ? 0 : 10, ng = 0, ov = 0; char *e;
    if (*f != 'd' && *f != 'u' && base == 10) vp_assert(0, "UNMODELLED scanf conversion");
    unsigned long v = vp_strto(s, &e, base, 0, &ng, &ov); if (e == s) return got; s = e;
    if (*f == 'd' || *f == 'i') { unsigned long lim = ng ? 1UL << 63 : (1UL << 63) - 1; if (ov || v > lim) v = lim; else if (ng) v = -v; } else { if (ov) v = -1UL; else if (ng) v = -v; }
    if (sup) continue;
    if (l > 0) *va_arg(ap, unsigned long *) = v; else if (l == 0) *va_arg(ap, unsigned *) = (unsigned)v; else if (l == -1) *va_arg(ap, unsigned short *) = (unsigned short)v; else *va_arg(ap, unsigned char *) = (unsigned char)v;
    got++;
  }
  return got; }
W int sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
W int __isoc99_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
W int __isoc23_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
W int __isoc99_vsscanf(const char *s, const char *f, va_list ap) { return vsscanf(s, f, ap); }
W int __isoc23_vsscanf(const char *s, const char *f, va_list ap) { return vsscanf(s, f, ap); }
W int vsnprintf(char *o, size_t n, const char *f, va_list ap) {
  size_t k = 0;
#define OUT(c) do { if (k + 1 < n) o[k] = (char)(c); k++; } while (0)
  for (; *f; f++) {
    if (*f != '%') { OUT(*f); continue; }
    f++; int left = 0, zero = 0, plus = 0, sp = 0, alt = 0, w = 0, pr = -1, l = 0;
    for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == ' ') sp = 1; else if (*f == '#') alt = 1; else break; }
    if (*f == '*') { w = va_arg(ap, int); if (w < 0) { left = 1; w = -w; } f++; } else while (*f >= '0' && *f <= '9') w = w * 10 + (*f++ - '0');
    if (*f == '.') { f++; pr = 0; if (*f == '*') { pr = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') pr = pr * 10 + (*f++ - '0'); }
    while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') { l = 1; f++; } while (*f == 'h') { l--; f++; }
    if (*f == '%') { OUT('%'); continue; }
    if (*f == 'c') { char c = (char)va_arg(ap, int); if (!left) while (w > 1) { OUT(' '); w--; } OUT(c); while (w > 1) { OUT(' '); w--; } continue; }
    if (*f == 's') { const char *s = va_arg(ap, const char *); if (!s) s = "(null)"; size_t m = 0; while ((pr < 0 || m < (size_t)pr) && s[m]) m++;
      if (!left) for (size_t i = m; i < (size_t)w; i++) OUT(' '); for (size_t i = 0; i < m; i++) OUT(s[i]); if (left) for (size_t i = m; i < (size_t)w; i++) OUT(' '); continue; }
    if (*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x' || *f == 'X' || *f == 'o') {
      int sg = *f == 'd' || *f == 'i', ng = 0; unsigned long v;
      if (l > 0) v = va_arg(ap, unsigned long); else if (sg) { int x = va_arg(ap, int); if (l == -1) x = (short)x; if (l == -2) x = (signed char)x; v = (unsigned long)(long)x; } else { unsigned x = va_arg(ap, unsigned); if (l == -1) x = (unsigned short)x; if (l == -2) x = (unsigned char)x; v = x; }
      if (sg && (long)v < 0) { ng = 1; v = -v; }
      unsigned b = *f == 'o' ? 8 : *f == 'x' || *f == 'X' ? 16 : 10; char t[24]; int m = 0;
      if (l <= 0 && b == 10) { unsigned u = (unsigned)v; while (u) { t[m++] = (char)('0' + u % 10); u /= 10; } }
      else if (l <= 0) { unsigned u = (unsigned)v; while (u) { unsigned q = u % b; t[m++] = (char)(q < 10 ? '0' + q : (*f == 'X' ? 'A' : 'a') + (q - 10)); u /= b; } }
      else while (v) { unsigned q = (unsigned)(v % b); t[m++] = (char)(q < 10 ? '0' + q : (*f == 'X' ? 'A' : 'a') + (q - 10)); v /= b; }
      if (m == 0 && pr != 0) t[m++] = '0';
      if (alt && b != 10) vp_assert(0, "UNMODELLED printf #");
      int z = pr > m ? pr - m : 0, pre = ng || plus || sp; char pc = ng ? '-' : plus ? '+' : ' ';
      if (zero && !left && pr < 0 && w > m + pre) z = w - m - pre;
      int pad = w > m + z + pre ? w - m - z - pre : 0;
      if (!left) for (int i = 0; i < pad; i++) OUT(' '); if (pre) OUT(pc); for (int i = 0; i < z; i++) OUT('0'); for (int i = m; i > 0; i--) OUT(t[i - 1]); if (left) for (int i = 0; i < pad; i++) OUT(' ');
      continue; }
    vp_assert(0, "UNMODELLED printf conversion");
  }
  if (n) o[k < n ? k : n - 1] = 0;
#undef OUT
  return (int)k; }
W int snprintf(char *o, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(o, n, f, ap); va_end(ap); return r; }
W int sprintf(char *o, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(o, (size_t)-1 / 2, f, ap); va_end(ap); return r; }
W int vsprintf(char *o, const char *f, va_list ap) { return vsnprintf(o, (size_t)-1 / 2, f, ap); }

size_t vp_ghost_k;
