/* C01-C03: base64 (WEB=0) and web-safe base64 (WEB=1).  MODE 0 encode, 1 round trip, 2 decode, 3 alphabet, 4 allocation limits. */
#include "vp.h"
#include <stdlib.h>
#if WEB
#include "coda/web64.h"
#define ENC web64_encode
#define DEC web64_decode
#define PAD '.'
static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
#else
#include "coda/base64.h"
#define ENC coda_base64_encode
#define DEC coda_base64_decode
#define PAD '='
static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
#endif
static int val(char c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == A[62] ? 62 : c == A[63] ? 63 : -1; }
#define EL (((N) + 2) / 3 * 4)
#define DL ((N) / 4 * 3)
void harness(void) {
  unsigned char *in = vp_buf(N); nd_bytes(in, N);
#if MODE == 0
  char want[EL + 1];
  for (int g = 0; g * 3 < N; g++) {
    unsigned b0 = in[g*3], b1 = g*3+1 < N ? in[g*3+1] : 0, b2 = g*3+2 < N ? in[g*3+2] : 0, w = b0 << 16 | b1 << 8 | b2;
    want[g*4] = A[w >> 18]; want[g*4+1] = A[w >> 12 & 63]; want[g*4+2] = g*3+1 < N ? A[w >> 6 & 63] : PAD; want[g*4+3] = g*3+2 < N ? A[w & 63] : PAD;
  }
  char *out = vp_buf(EL + 2); char old[EL + 2]; nd_bytes(out, EL + 2); for (int i = 0; i < EL + 2; i++) old[i] = out[i];
  size_t cap = nd_upto(EL + 2);
  ENC((char *)in, N, out, cap);
  for (int i = 0; i < EL; i++) CHECK(out[i] == (i < cap ? want[i] : old[i]), "encoded character wrong or written past the capacity");
  CHECK(out[EL] == (cap > EL ? 0 : old[EL]), "terminator missing, or written past the capacity");
  CHECK(out[EL+1] == old[EL+1], "write past the terminator");
  WITNESS(cap == EL, "exact"); WITNESS(cap == 0, "none");
#elif MODE == 1
  char *out = vp_buf(EL + 1); ENC((char *)in, N, out, EL + 1);
  char *back = vp_buf(N + 2); size_t bl = N + 2;
  CHECK(DEC(out, EL, back, &bl), "encoded text rejected"); CHECK(bl == N, "decoded length differs");
  for (int i = 0; i < N; i++) CHECK((unsigned char)back[i] == in[i], "decoded byte differs");
#if !WEB
  char *o2 = 0; size_t l2 = coda_base64_encode_alloc((char *)in, N, &o2);
  CHECK(o2 != 0 && l2 == EL, "encode_alloc length"); for (int i = 0; i <= EL; i++) CHECK(o2[i] == out[i], "encode_alloc differs from encode");
  char *b2 = 0; size_t bl2 = 77; CHECK(coda_base64_decode_alloc(o2, l2, &b2, &bl2) && b2 != 0 && bl2 == N, "decode_alloc length");
  for (int i = 0; i < N; i++) CHECK((unsigned char)b2[i] == in[i], "decode_alloc byte differs");
  free(o2); free(b2);
#endif
  WITNESS(N == 0 || in[N-1] == 255, "any");
#elif MODE == 2
  char *out = vp_buf(DL + 3); char old[DL + 3]; nd_bytes(out, DL + 3); for (int i = 0; i < DL + 3; i++) old[i] = out[i];
  size_t cap = nd_upto(DL + 3), r = cap;
  bool ok = DEC((char *)in, N, out, &r);
  int lead = 0; while (lead < N && val(in[lead]) >= 0) lead++; /* leading alphabet characters */
  int pad = N - lead, good = N % 4 == 0 && (pad == 0 || (pad == 1 && in[N-1] == PAD) || (pad == 2 && in[N-1] == PAD && in[N-2] == PAD));
  CHECK(ok == good, "accepted malformed text or refused well-formed text");
  if (good) { int n = DL - pad; CHECK(r == (n < cap ? n : cap), "decoded length wrong"); }
  CHECK(r <= cap, "reports more than the capacity");
  for (int i = 0; i < DL + 3; i++) {
    if (i >= r) { CHECK(out[i] == old[i], "wrote more than it reports"); continue; }
    int k = i / 3 * 4 + i % 3; CHECK(k + 1 < lead, "reports bytes the text does not contain");
    int a = val(in[k]), b = val(in[k+1]); unsigned char e = i % 3 == 0 ? a << 2 | b >> 4 : i % 3 == 1 ? a << 4 | b >> 2 : a << 6 | b;
    CHECK((unsigned char)out[i] == e, "decoded byte wrong");
  }
#if !WEB
  int64_t live = vp_live_blocks(); char *o2 = (char *)1; size_t l2 = 77;
  int wantlen = nd_bool();
  bool ok2 = coda_base64_decode_alloc((char *)in, N, &o2, wantlen ? &l2 : 0);
  CHECK(ok2 == good, "decode_alloc verdict differs");
  if (good) { CHECK(o2 != 0 && (!wantlen || l2 == DL - pad), "decode_alloc length wrong"); if (cap >= DL) for (int i = 0; i < DL - pad; i++) CHECK(o2[i] == out[i], "decode_alloc byte differs"); free(o2); }
  else CHECK(o2 == 0, "decode_alloc output set after failure");
  CHECK(vp_live_blocks() == live, "decode_alloc leaks");
#endif
  WITNESS(N % 4 != 0 || ok, "accepted"); WITNESS(N == 0 || !ok, "refused");
#elif MODE == 3
  char c = (char)nd_u8(); CHECK(coda_isbase64(c) == (val(c) >= 0), "alphabet predicate wrong"); WITNESS(val(c) == 63, "slash"); WITNESS(val(c) < 0, "other");
#elif MODE == 4
  /* any length at all: the size arithmetic must not wrap (allocation refused, so nothing is encoded) */
  size_t n = nd_u64(); char *o = (char *)1; vp_set_nomem(2);
  size_t r = coda_base64_encode_alloc((char *)in, n, &o); CHECK(o == 0, "output set although nothing was allocated");
  int over = n > ((size_t)-1 - 1) / 4 * 3;
  if (n <= (size_t)-1 / 4 * 3 - 6) CHECK(r == ((n / 3) + (n % 3 != 0)) * 4 + 1 && vp_last_malloc() == r, "requested block size wrong");
  if (over) CHECK(r == 0, "too long input not refused");
  WITNESS(over, "too long"); WITNESS(!over && n > 1000, "long");
#endif
}
