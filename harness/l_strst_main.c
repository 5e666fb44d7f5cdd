// KL K UD HEX: prints what h_strst stores
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
void h_strst(const char *keys, unsigned kl, unsigned k, size_t ud, int *r, char *ek, int *ev);
int main(int c, char **v) { unsigned kl = atoi(v[1]), k = atoi(v[2]); size_t ud = atoi(v[3]), n = strlen(v[4]) / 2; char *b = malloc(n), *ek = calloc(40, kl); int r[200] = {0}, ev[40] = {0};
  for (size_t i = 0; i < n; i++) { unsigned x; sscanf(v[4] + 2 * i, "%2x", &x); b[i] = x; }
  h_strst(b, kl, k, ud, r, ek, ev); for (unsigned i = 0; i < 4 * k + 2; i++) printf("%d ", r[i]);
  for (int i = 0; i < r[4 * k + 1] && i < 40; i++) { printf("| %d ", ev[i]); for (unsigned j = 0; ek[i * kl + j]; j++) printf("%02x", (unsigned char)ek[i * kl + j]); printf("- "); }
  printf("\n"); free(b); free(ek); return 0; }
