// C25: every public operation of the shared map while other processes take and release the lock at every point.
// The other processes follow the protocol (rely): they write only when nobody else holds anything, they read only when nobody else writes.
#include <string.h>
#include <stdlib.h>
static int rd, live;
#define NOBLOCK (live && (rd ? sem[1] == 0 : sem[0] == 0 && sem[1] == 0))
#include "sysipc.h"
#include <coda/shm_hash_map.hpp>
static int acq, maxr, waited, rem, ein;
static void others() { int r, w; if (mine[1]) r = w = 0; else if (mine[0]) { w = 0; r = nd_upto(2); } else { int k = nd_upto(3); w = k == 3; r = k == 3 ? 0 : k; } sem[0] = r; sem[1] = w; if (r > maxr) maxr = r; }
static void env(void) { if (!live || !sem_exists) return; others(); if (MAYRM && !removed && nd_bool()) { removed = 1; rem = 1; } }
static void guard() { vp_guard(seg, segn, mine[1] > 0 ? 2 : mine[0] > 0 ? 1 : 0); }
static void acquired(void) {
  CHECK(mine[0] >= 0 && mine[0] <= 1 && mine[1] >= 0 && mine[1] <= 1, "claim counted twice or released twice");
  CHECK(mine[0] == undo[0] && mine[1] == undo[1], "claim that the system does not undo when the process dies");
  if (mine[1]) CHECK(sem[0] == 0 && sem[1] == 0, "writes while others read or write"); else if (mine[0]) CHECK(sem[1] == 0, "reads while another process writes");
  if (mine[0] || mine[1]) acq++;
  if (seg && live) guard(); }
typedef shm::hash_map<unsigned, 3, 2> map_t;
extern "C" void harness(void) {
#if CREATE
  { map_t m; live = 1; race = 1; faults = FAULTS; bool t = false; rd = 0; try { m.connect("f"); } catch (const std::exception &e) { t = true; } CHECK(t == (bad > 0), "failure"); if (!removed) CHECK(!mine[0] && !mine[1], "lock kept");
    bool o = created_sem && maxr, p = !created_sem && !t; WITNESS(o, "created"); WITNESS(p, "found"); if (!t) { map_t n; race = 0; faults = 0; n.connect("f"); n.insert((uint64_t)5, 50); unsigned v = 0; rd = 1; CHECK(m.read(5, v) && v == 50, "the two objects share the map"); } }
#else
  map_t m; m.connect("f"); m.insert((uint64_t)0, 10); m.insert(1, 11); m.insert(2, 12); m.erase((uint64_t)1); faults = FAULTS; live = 1; guard();
  if (OP0 == 8) { live = 0; faults = 0; vp_guard(seg, segn, 2); }
  map_t n; if (OP0 == 8) { n.connect("f"); live = 1; faults = FAULTS; guard(); }  bool ok1 = OP0 >= 0, connected2 = OP0 == 8;
  for (int i = 0; i < OPS; i++) {
    int op = i == 0 && OP0 >= 0 ? OP0 : nd_upto(8), b0 = bad, a0 = acq, s0 = soft; bool thrown = false; unsigned v = 7; uint64_t k = nd_upto(3); rd = op < 2;
    try {
      if (op == 0) { size_t r = m.size(); CHECK(r <= 3, "size"); }
      else if (op == 1) m.read(k, v);
      else if (op == 2) m.insert(k, 20 + i);
      else if (op == 3) m.erase(k);
      else if (op == 4) m.clear();
      else if (op == 5) { map_t::pair p[2]; p[0].key = k; p[1].key = 3; p[0].value = p[1].value = 30; m.insert(p, 2); }
      else if (op == 6) { uint64_t q[2] = {k, 0}; m.erase(q, 2); }
      else if (op == 7) { ASSUME(!connected2); n.connect("f"); connected2 = true; }
      else { n.disconnect(); connected2 = false; }
    } catch (const std::exception &e) { thrown = true; } catch (...) { CHECK(0, "another kind of exception"); }
    if (op < 7) CHECK(thrown == (bad > b0), "a lock failure and the reported error disagree");
    if (op < 7 && !thrown) CHECK(acq > a0, "no lock taken");
    if (!removed) CHECK(mine[0] == 0 && mine[1] == 0, "lock not left as it was found");
    if (op == 1 && thrown) CHECK(v == 7 || removed, "result although the lock was not taken");
    if (thrown && bad > b0) ein = 1; if (!thrown && op == 2 && maxr) ok1 = true; if (removed) break; }
  live = 0; vp_guard(seg, segn, 2); removed = 1;
  WITNESS(maxr, "readers"); WITNESS(ok1 || OPS == 1 && MAYRM, "done"); WITNESS(!FAULTS || ein, "interrupted"); WITNESS(!MAYRM || rem, "removed");
#endif
}
