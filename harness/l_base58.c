#include "coda/base58.h"
void h_encode(const char *in, size_t n, char *out, size_t cap) { coda_base58_encode(in, n, out, cap); }
ssize_t h_decode(const char *in, size_t n, char *out) { return coda_base58_decode(in, n, out); }
size_t h_encode_alloc(const char *in, size_t n, char **out) { return coda_base58_encode_alloc(in, n, out); }
ssize_t h_decode_alloc(const char *in, size_t n, char **out) { return coda_base58_decode_alloc(in, n, out); }
ssize_t h_round(const char *in, size_t n, char *txt, size_t cap, char *back) { coda_base58_encode(in, n, txt, cap); size_t l = 0; while (txt[l]) l++; return coda_base58_decode(txt, l, back); }
