// abs FLAGS HEX | rel PFLAGS PHEX FLAGS HEX | copy SET HOW THEN FLAGS HEX: prints "rc empty allocated url domain" (hex) of the results
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "coda/url_parser.hpp"
extern "C" { void h_abs(const char *, size_t, unsigned, int *, char *, char *); void h_rel(const char *, size_t, unsigned, const char *, size_t, unsigned, int *, char *, char *, int *, char *, char *);
void h_copy(const char *, size_t, unsigned, int, int, int, int *, char *, char *, int *, char *, char *); }
static char *unhex(const char *h, size_t *n) { *n = !strcmp(h, "-") ? 0 : strlen(h) / 2; char *b = (char *)malloc(*n ? *n : 1); for (size_t i = 0; i < *n; i++) { unsigned x; sscanf(h + 2 * i, "%2x", &x); b[i] = x; } return b; }
static void hex(const char *b, int n) { if (n <= 0) printf(" -"); else { printf(" "); for (int i = 0; i < n; i++) printf("%02x", (unsigned char)b[i]); } }
static void show(int *o, char *u, char *d) { printf("%d %d %d", o[0], o[1], o[2]); if (!o[1]) { hex(u, o[3]); hex(d, o[4]); } printf("%s\n", (int)u[o[3]] || (int)d[o[4]] ? " unterminated" : ""); }
int main(int c, char **v) { size_t n, m; int o[5], p[5]; static char u[4096], d[4096], pu[4096], pd[4096];
  if (!strcmp(v[1], "abs")) { char *t = unhex(v[3], &n); h_abs(t, n, atoi(v[2]), o, u, d); show(o, u, d); free(t); }
  else if (!strcmp(v[1], "rel")) { char *t = unhex(v[5], &n), *q = unhex(v[3], &m); h_rel(q, m, atoi(v[2]), t, n, atoi(v[4]), o, u, d, p, pu, pd); show(o, u, d); show(p, pu, pd); free(t); free(q); }
  else { char *t = unhex(v[6], &n); h_copy(t, n, atoi(v[5]), atoi(v[2]), atoi(v[3]), atoi(v[4]), o, u, d, p, pu, pd); show(o, u, d); if (p[1] != 2) show(p, pu, pd); free(t); }
  return 0; }
