// entry point for engine E2: adds k keys (kl bytes each, NUL-terminated inside), writes every slot, then looks everything up and enumerates
#include <stddef.h>
#include <string.h>
#include "coda/stringstorage.h"
void *string_storage_find(string_storage *ss, const char *s);
struct env { void **slot; unsigned k, kl, n; char *ek; int *ev; };
static int same(const struct env *e, void *p) { for (unsigned i = 0; i < e->k; i++) if (p && e->slot[i] == p) return i; return p ? -2 : -1; }
static void cb(void *u, const char *key, void *value) { struct env *e = u; unsigned i = 0; if (e->n < 40) { while (key[i] && i + 1 < e->kl) { e->ek[e->n * e->kl + i] = key[i]; i++; } e->ek[e->n * e->kl + i] = key[i]; e->ev[e->n] = same(e, value); } e->n++; }
// r: for key j: r[4j] index of the first key with the same slot (-1: refused), r[4j+1] 1 if the slot was zero when new, r[4j+2] byte found in the slot at the end (-1: mixed), r[4j+3] 1 if find returns it; then the probe, then the enumeration count
static unsigned char pat[4096];
void h_strst(const char *keys, unsigned kl, unsigned k, size_t ud, int *r, char *ek, int *ev) {
  string_storage ss; void *slot[40]; struct env e = {slot, 0, kl, 0, ek, ev};
  string_storage_init(&ss, ud);
  for (unsigned j = 0; j < k; j++) {
    unsigned char *p = string_storage_add(&ss, keys + j * kl); slot[j] = p; e.k = j + 1; r[4 * j] = p ? same(&e, p) : -1; r[4 * j + 1] = 1;
    if (p) { memset(pat, 0, ud); r[4 * j + 1] = ud == 0 || memcmp(p, pat, ud) == 0; memset(p, j + 1, ud); } }
  for (unsigned j = 0; j < k; j++) { unsigned char *p = slot[j]; r[4 * j + 2] = p ? p[0] : -1; if (p) { memset(pat, p[0], ud); if (memcmp(p, pat, ud)) r[4 * j + 2] = -1; } r[4 * j + 3] = string_storage_find(&ss, keys + j * kl) == slot[j]; }
  r[4 * k] = same(&e, string_storage_find(&ss, keys + k * kl));
  string_storage_enumerate(&ss, cb, &e); r[4 * k + 1] = e.n;
  for (unsigned j = 0; j < k; j++) { unsigned char *p = slot[j]; if (p && p[0] != r[4 * j + 2]) r[4 * j + 2] = -1; }
  string_storage_free(&ss); }
