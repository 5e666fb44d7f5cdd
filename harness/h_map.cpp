// C24: histories of the shared hash map against a table of present keys.
#include <string.h>
#include <stdlib.h>
#include "sysipc.h"
#include <coda/shm_hash_map.hpp>
static void env(void) {} static void acquired(void) {}
typedef shm::hash_map<unsigned, OBJ, HASH> map_t;
static uint64_t mk[16]; static unsigned mv[16]; static int mp[16], mn;   // the present keys
static int find(uint64_t k) { for (int i = 0; i < mn; i++) if (mp[i] && mk[i] == k) return i; return -1; }
static int count() { int c = 0; for (int i = 0; i < mn; i++) c += mp[i]; return c; }
static bool minsert(uint64_t k, unsigned v) { int i = find(k); if (i >= 0) { mv[i] = v; return true; } if (count() == OBJ) return false; mk[mn] = k; mv[mn] = v; mp[mn++] = 1; return true; }
static bool merase(uint64_t k) { int i = find(k); if (i < 0) return false; mp[i] = 0; return true; }
static uint64_t nkey() { return (uint64_t)nd_u8() * 0x100000001ull; }
static bool ins_full, reused, upd;
extern "C" void harness(void) {
  map_t m; m.connect("f"); CHECK(m.is_connected(), "not connected"); CHECK(m.capacity() == OBJ, "capacity");
  bool erased = false;
  static const char pre[] = PRE; unsigned val = 100;
  for (int i = 0; i < (int)sizeof pre - 1 + NOPS; i++) {
    int op; val++;
    if (i < (int)sizeof pre - 1) { if (pre[i] <= '9') { uint64_t k = (pre[i] - '0') * 0x100000001ull; CHECK(m.insert(k, val) == minsert(k, val), "result of an insertion"); } else { uint64_t k = (pre[i] - 'a') * 0x100000001ull; CHECK(m.erase(k) == merase(k), "result of an erasure"); erased = true; } CHECK(m.size() == (size_t)count(), "size"); continue; }
    op = nd_upto(BATCH ? 4 : 2);
    if (op == 0) { uint64_t k = nkey(); bool was = find(k) >= 0, full = count() == OBJ; bool w = minsert(k, val), g = m.insert(k, val); CHECK(w == g, "result of an insertion"); if (!w) ins_full = true; if (w && !was && erased) reused = true; if (was) upd = true; }
    else if (op == 1) { uint64_t k = nkey(); bool w = merase(k), g = m.erase(k); CHECK(w == g, "result of an erasure"); if (w) erased = true; }
    else if (op == 2) { m.clear(); for (int j = 0; j < mn; j++) mp[j] = 0; }
    else if (op == 3) { map_t::pair p[2]; bool w = true; for (int j = 0; j < 2; j++) { p[j].key = nkey(); p[j].value = val * 10 + j; } for (int j = 0; j < 2; j++) if (!minsert(p[j].key, p[j].value)) w = false; CHECK(m.insert(p, 2) == w, "result of a batch insertion"); }
    else { uint64_t k[2]; bool w = true; for (int j = 0; j < 2; j++) k[j] = nkey(); for (int j = 0; j < 2; j++) if (!merase(k[j])) w = false; CHECK(m.erase(k, 2) == w, "result of a batch erasure"); }
    CHECK(m.size() == (size_t)count(), "size"); }
  for (int i = 0; i < mn; i++) { unsigned v = 7; int j = find(mk[i]); bool r = m.read(mk[i], v); CHECK(r == (j >= 0), "presence"); CHECK(r ? v == mv[j] : v == 7, "value"); }
  { uint64_t k = nkey(); unsigned v = 7; int j = find(k); bool r = m.read(k, v); CHECK(r == (j >= 0), "presence"); CHECK(r ? v == mv[j] : v == 7, "value"); }
  int seen[16] = {0}, n = 0; map_t::const_iterator it = m.begin();
  for (; it != m.end(); ++it) { CHECK(n++ < OBJ, "iteration does not end"); int j = find(it.key()); CHECK(j >= 0, "iteration visits an absent key"); CHECK(!seen[j], "iteration visits a key twice"); seen[j] = 1; CHECK(it.value() == mv[j], "iteration shows another value"); }
  CHECK(n == count(), "iteration misses a key");
  WITNESS(!W_FULL || ins_full, "full"); WITNESS(!W_REUSE || reused, "reused"); WITNESS(upd || W_NOUPD, "updated"); WITNESS(n == 0 || W_NOEMPTY, "empty"); WITNESS(n > 1, "two");
}
