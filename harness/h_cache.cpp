// C19/C20: NOPS symbolic operations on coda_cache against a reference model that keeps the elements in storing order.
#include "vp.h"
#include <string>
#include <time.h>
static unsigned long now;
extern "C" time_t STUB(time)(time_t *p) { if (p) *p = now; return now; }
struct val { unsigned id; unsigned sz; size_t estimate_capacity() const { return sz; } };
#include "coda/cache.hpp"
#ifndef PRE
#define PRE 0
#define PSIZES 0
#endif
#ifndef KEYS
#define KEYS 3
#endif
struct ref { bool in; unsigned id, sz; unsigned long t; unsigned ord; };
static ref R[KEYS]; static unsigned ord;
static unsigned long LIM, LIFE;
static unsigned long total() { unsigned long s = 0; for (int i = 0; i < KEYS; i++) if (R[i].in) s += R[i].sz; return s; }
static void evict() { for (int n = 0; n < KEYS; n++) if (total() > LIM) { int b = -1; for (int i = 0; i < KEYS; i++) if (R[i].in && (b < 0 || R[i].ord < R[b].ord)) b = i; for (int i = 0; i < KEYS; i++) if (i == b) R[i].in = false; } }
static bool old(const ref &r) { return LIFE && now > r.t && now - r.t > LIFE; }
extern "C" void harness(void) {
  unsigned char life = nd_u8(); LIFE = TIMED ? life : 0; LIM = SMALL ? (PRE ? 100 : nd_u8()) : 100000; now = 1000; ASSUME(LIFE < 200);
  coda_cache<int, val> c(LIM, LIFE); bool evicted = false, expired = false, updated = false, erased = false, reord = false;
  static const unsigned char ps[4] = {PSIZES};
  for (int i = 0; i < PRE; i++) { val v; v.id = nd_u8(); v.sz = SMALL ? ps[i] : 1; c.set(i, v, false); R[i].in = true; R[i].id = v.id; R[i].sz = v.sz; R[i].t = now; R[i].ord = ++ord; if (TIMED) now += 10 + i; }
  for (int o = 0; o < NOPS + KEYS; o++) {
    int op = o < NOPS ? (int)nd_upto(4) : 1; int k = o < NOPS ? (int)nd_upto(KEYS - 1) : o - NOPS;
    if (TIMED && o < NOPS) now += nd_u8();
    ref r; r.in = false; r.id = r.sz = 0; for (int i = 0; i < KEYS; i++) if (i == k) r = R[i];
    if (op == 0 || op == 4) {
      val v; v.id = nd_u8(); v.sz = SMALL ? nd_u8() : 1; bool fresh = op == 4;
      unsigned long before = 0; for (int i = 0; i < KEYS; i++) if (R[i].in) before++;
      c.set(k, v, fresh);
      if (r.in) { updated = true; if (r.ord != ord) reord = true; }
      if (!r.in || fresh) r.t = now; r.in = true; r.id = v.id; r.sz = v.sz; r.ord = ++ord;
      for (int i = 0; i < KEYS; i++) if (i == k) R[i] = r;
      evict(); unsigned long after = 0; for (int i = 0; i < KEYS; i++) if (R[i].in) after++; if (after < before) evicted = true;
    } else if (op == 1 || op == 2) {
      bool gone = !r.in || old(r);
      if (op == 1) { const val *p = c.get(k); if (gone) CHECK(!p, "an element that is absent, erased, evicted or too old is returned"); else { CHECK(p, "a stored element that is young enough is not returned"); CHECK(p && p->id == r.id && p->sz == r.sz, "another value than the last one stored"); } }
      else { val v; v.id = 777; v.sz = 777; c.get(k, v); if (gone) CHECK(v.id == 777 && v.sz == 777, "lookup of an absent element writes the output"); else CHECK(v.id == r.id && v.sz == r.sz, "copying lookup returns another value than the last one stored"); }
      if (r.in && gone) { expired = true; for (int i = 0; i < KEYS; i++) if (i == k) R[i].in = false; }
    } else {
      bool e = c.erase(k); CHECK(e == r.in, "result of erase"); if (r.in) erased = true; for (int i = 0; i < KEYS; i++) if (i == k) R[i].in = false;
    }
  }
  WITNESS(updated && reord, "update moves to the end"); WITNESS(erased, "erased"); WITNESS(!SMALL || evicted, "evicted"); WITNESS(!TIMED || expired, "expired"); WITNESS(!SMALL || (evicted && updated && reord), "eviction after update");
}
