// C27: histories of the shared pool (two attached objects on one memory) against the set of allocated slots; MODE 1 attaching to other layouts.
#include <string.h>
#include "vp.h"
#include <coda/shm_pool.hpp>
#ifndef TYPE
#define TYPE unsigned
#endif
typedef shm::pool<TYPE, N> pool_t;
static bool is[N + 1]; static int cnt; static bool full, again, cleared, freed, other;
static int took(uint32_t r) { CHECK((r == (uint32_t)-1) == (cnt == N), "allocation result"); if (cnt == N) { full = true; return -1; } CHECK(r < N, "allocated index beyond the capacity"); CHECK(!is[r], "slot handed out twice"); is[r] = true; cnt++; if (freed) again = true; return (int)r; }
extern "C" void harness(void) {
  pool_t a, b; unsigned char *h = (unsigned char *)vp_buf(a.header_size()), *s = (unsigned char *)vp_buf(a.stack_size()), *d = (unsigned char *)vp_buf(a.data_size());
  CHECK(a.data_size() >= sizeof(TYPE) * N, "room for the objects"); memset(h, 0, a.header_size()); memset(s, 0xa5, a.stack_size()); vp_guard(d, a.data_size(), 0);
  a.attach(h, s, d); b.attach(h, s, d); CHECK(a.allocated_objects() == 0, "new pool is not empty");
#if MODE == 0
  static const char pre[] = PRE;
  for (int i = 0; i < (int)sizeof pre - 1 + OPS; i++) {
    int op, who = 0, k = 0; bool fixed = i < (int)sizeof pre - 1;
    if (fixed) { op = pre[i] == 'a' ? 0 : pre[i] == 'c' ? 2 : 1; k = pre[i] - '0'; }
    else { op = nd_upto(2); if (WHO) who = nd_bool(); if (op == 1) { if (!cnt) op = 0; else { int m = nd_upto(N - 1), j; ASSUME(m < cnt); for (j = 0; j < N; j++) if (is[j] && m-- == 0) break; k = j; } } }
    pool_t &p = who ? b : a; if (who) other = true;
    if (op == 0) took(p.allocate());
    else if (op == 1) { CHECK(is[k], "history"); CHECK(p.free(k), "free fails"); is[k] = false; cnt--; freed = true; }
    else { p.clear(); memset(is, 0, sizeof is); cnt = 0; cleared = true; }
    CHECK(a.allocated_objects() == (size_t)cnt, "number of allocated objects"); CHECK(b.allocated_objects() == (size_t)cnt, "number seen by the other user"); }
  WITNESS(cnt == 0, "empty"); WITNESS(!W_FULL || full, "full"); WITNESS(again, "reused"); WITNESS(!WHO || other, "other");
  bool w2 = cnt == N; WITNESS(w2, "some");
  pool_t c; c.attach(h, s, d); CHECK(c.allocated_objects() == (size_t)cnt, "number after attaching again");
  for (int i = 0; i <= N + 1; i++) took(c.allocate());
  CHECK(cnt == N, "free slots that cannot be allocated"); CHECK(a.allocated_objects() == N, "number when exhausted");
  a.clear(); CHECK(a.allocated_objects() == 0, "clear"); cnt = 0; memset(is, 0, sizeof is); for (int i = 0; i < N + 1; i++) took(b.allocate());
#else
  int n = nd_upto(N), f = nd_bool(); for (int i = 0; i < n; i++) took(a.allocate()); if (f && n) { int k = nd_upto(N - 1); ASSUME(is[k]); a.free(k); is[k] = false; cnt--; }
  { shm::pool<TYPE, N + 1> o; bool t = false; try { o.attach(h, s, d); } catch (const std::exception &e) { t = true; } CHECK(t, "another capacity accepted"); }
  { shm::pool<TYPE[3], N> o; bool t = false; try { o.attach(h, s, d); } catch (const std::exception &e) { t = true; } CHECK(t, "another element size accepted"); }
  CHECK(a.allocated_objects() == (size_t)cnt, "a refused attachment changes the pool"); for (int i = 0; i <= N; i++) took(a.allocate());
  WITNESS(n == N && f, "all"); WITNESS(n == 0, "none");
#endif
}
