// enc CAP HEX | dec OUTCAP HEX | ea HEX | da HEX: prints the result and the output bytes in hex; buffers are exactly as large as stated
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "coda/base58.h"
static char *ib; static char *unhex(const char *h, size_t *n) { *n = strlen(h) / 2; char *b = ib = malloc(*n ? *n : 1); for (size_t i = 0; i < *n; i++) { unsigned x; sscanf(h + 2 * i, "%2x", &x); b[i] = x; } if (!*n) b++; return b; }
static void hex(const char *b, size_t n) { for (size_t i = 0; i < n; i++) printf("%02x", (unsigned char)b[i]); printf("\n"); }
int main(int c, char **v) { size_t n; 
  if (!strcmp(v[1], "enc")) { size_t cap = atoi(v[2]); char *in = unhex(v[3], &n), *o = malloc(cap); memset(o, 0xee, cap); coda_base58_encode(in, n, o, cap); hex(o, cap); free(o); }
  else if (!strcmp(v[1], "dec")) { size_t cap = atoi(v[2]); char *in = unhex(v[3], &n), *o = malloc(cap); memset(o, 0xee, cap); ssize_t r = coda_base58_decode(in, n, o); printf("%zd ", r); hex(o, cap); free(o); }
  else if (!strcmp(v[1], "ea")) { char *in = unhex(v[2], &n), *o = 0; coda_base58_encode_alloc(in, n, &o); hex(o, o ? strlen(o) : 0); free(o); }
  else { char *in = unhex(v[2], &n), *o = 0; ssize_t r = coda_base58_decode_alloc(in, n, &o); printf("%zd %d ", r, !!o); hex(o, r > 0 && o ? r : 0); free(o); }
  free(ib); return 0; }
