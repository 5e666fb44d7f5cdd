// C23: coda::log_array<TY, N>.
#include "vp.h"
#include "coda/log_array.hpp"
extern "C" void harness(void) {
  coda::log_array<TY, N> a, b; const coda::log_array<TY, N> &ca = a;
  unsigned i = nd_u8(); ASSUME(i < N);
  CHECK(a.get_at(i) == 0 && ca.get_at(i) == 0, "fresh histogram is not zero");
  TY v1[N], v2[N];
  for (unsigned k = 0; k < N; k++) { v1[k] = (TY)nd_u8(); v2[k] = (TY)nd_u8(); a.get_at(k) = v1[k]; b.get_at(k) = v2[k]; }
  uint64_t v = nd_u64(); ASSUME(v); unsigned l = 0; for (unsigned k = 1; k < 64; k++) if (v >> k) l = k;
  if (l >= N) l = N - 1;
  TY *p = &a.get_by_value(v); unsigned at = ~0u; for (unsigned k = 0; k < N; k++) if (p == &a.get_at(k)) at = k;
  CHECK(at == l, "bucket of a value"); CHECK(&a.get_at(i) == &ca.get_at(i), "const and mutable access differ");
  for (unsigned k = 0; k < N; k++) CHECK(a.get_at(k) == v1[k], "cells overlap");
  a.swap(b);
  for (unsigned k = 0; k < N; k++) CHECK(a.get_at(k) == v2[k] && b.get_at(k) == v1[k], "swap does not exchange a cell");
  a.get_by_value(v) = 1; CHECK(a.get_at(l) == 1, "write through the bucket"); CHECK(i == l || a.get_at(i) == v2[i], "write to another bucket");
  a.swap(a); CHECK(i == l || a.get_at(i) == v2[i], "swap with itself");
  WITNESS(l == 0, "first");
#if N <= 64
  WITNESS(l == N - 1, "last"); WITNESS((v >> 63) && l == N - 1, "largest");
#endif
}
