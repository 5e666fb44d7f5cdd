// C28 histories of the shared queue while other processes flush and take boxes at every point; C29 (MODE 1) its lock and connection failures.
#include <string.h>
#include <stdlib.h>
#define SEMHOOK (inenv == 2 && n == 1 && o->sem_num == 1 && o->sem_op == -1) /* the second half of a take: the count is down already */
#if MODE == 1
#define NOBLOCK (sem[0] == 1 || !setv[0])
#else
#define NOBLOCK (inenv || live)
#endif
#include "vp.h"
static int live, inenv, pend;
#include "sysipc.h"
#include <coda/shm_queue.hpp>
struct rec : public shm_queue::serializable {
  unsigned char tag, val; rec(int t = 0, int v = 0) : tag(t), val(v) {}
  virtual bool serialize(void *p) const { ((unsigned char *)p)[0] = tag; ((unsigned char *)p)[1] = val; return true; }
  virtual bool deserialize(const void *p) { tag = ((const unsigned char *)p)[0]; val = ((const unsigned char *)p)[1]; return tag != 0; }
  virtual size_t size() const { return 2; } };
typedef shm_queue::queue<rec> q_t;
#define BOX 5
static q_t *oq, *orq; static int want_[4][2], nw, wi, prev; static int ring[32][2], rn, rh, next_ = 1; // boxes in the ring: their two records (0: none)
static bool dropped, envf, envt, envp, full_;
static int inring() { return rn - rh; }
static void push(int a, int b) { if (inring() < SLOTS - 1) { ring[rn][0] = a; ring[rn++][1] = b; } else full_ = true; }
static void guard() { if (seg) vp_guard(seg, segn, inenv || mine[0] < 0 ? 2 : 0); }
static bool have(rec &r, int want) { bool g = orq->get(r); return g ? want && r.tag == 1 && r.val == want : !want; }
static void other_take(bool pending) { inenv = pending ? 2 : 1; guard(); CHECK(orq->unflush(IPC_NOWAIT), "a counted box is not there"); rec r; CHECK(have(r, ring[rh][0]), "box taken by another process"); if (ring[rh][0]) CHECK(have(r, ring[rh][1]), "second record of it"); rh++; inenv = 0; guard(); }
static void other_flush() { inenv = 1; guard(); int a = next_++; CHECK(oq->put(rec(1, a)), "put"); oq->flush(); push(a, 0); inenv = 0; guard(); }
#if MODE != 1
static int acts;
static void env(void) { // between our calls; nobody else can hold the lock while we do
  if (!live || inenv || acts >= ACTS || !nd_bool()) return; acts++;
  int k = nd_upto(2);
  if (k == 0) { if (mine[0]) vp_assume(0); other_flush(); envf = true; }
  else if (k == 1) { if (sem[1] + mine[1] <= 0 || (mine[0] && PENDOK == 0)) vp_assume(0); if (mine[0]) { sem[1]--; pend++; envp = true; } else { other_take(false); envt = true; } }
  else { if (mine[0]) vp_assume(0); if (pend) { pend--; other_take(true); } else { if (sem[1] + mine[1] <= 0) vp_assume(0); sem[1]--; pend++; envp = true; } } }
#else
static int held; static void env(void) { if (!live || !sem_exists || !setv[0]) return; if (mine[0] == 0) { sem[0] = !nd_bool(); if (!sem[0]) held = 1; if (shm_exists && sem[1] == 0) sem[1] = nd_bool(); } if (MAYRM && !removed && nd_bool()) removed = 1; }
#endif
static void acquired(void) {
  if (mine[0] + sem[0] == 0 && mine[0] == 0 && inenv) return;
  CHECK(mine[0] == 0 || mine[0] == -1, "lock taken twice or released twice"); CHECK(mine[0] == undo[0], "lock that the system does not undo when the process dies"); CHECK(undo[1] == 0, "count that is taken back when the process ends");
  if (!inenv && prev == -1 && mine[0] == 0 && wi < nw) { push(want_[wi][0], want_[wi][1]); wi++; } if (!inenv) prev = mine[0];
  guard(); }
#if MODE == 0
static void flushes(int a, int b) { want_[nw][0] = a; want_[nw++][1] = b; }
static void done() { CHECK(wi == nw, "flush without the lock"); nw = wi = 0; }
static void take(q_t &q, bool fin) {
  int h0 = rh; bool r = q.unflush(IPC_NOWAIT); bool any = rh < rn; rec x;
  if (r) { CHECK(any, "box out of nothing"); CHECK(q.get(x) && x.tag == 1 && x.val == ring[rh][0], "first record of the box"); bool s = q.get(x); CHECK(s == (ring[rh][1] != 0), "number of records"); if (s) { CHECK(x.tag == 1 && x.val == ring[rh][1], "second record of the box"); CHECK(!q.get(x), "more records than were put"); } rh++; }
  else CHECK(!fin || !any, "box not delivered"); }
extern "C" void harness(void) {
  q_t m, o, r, p; oq = &o; orq = &p; init_[0] = 1; m.connect("f", BOX, SLOTS); o.connect("f", BOX, SLOTS); r.connect("f", BOX, SLOTS); p.connect("f", BOX, SLOTS); guard(); int k0 = 0;
  for (int i = 0; i < PRE; i++) { flushes(next_, 0); m.put(rec(1, next_++)); m.flush(); done(); if (ROT > i) { inenv = 0; take(r, true); } }
  live = 1; bool two = false;
  for (int i = 0; i < OPS; i++) {
    int op = nd_upto(2);
    if (op == 0) { int a = next_++; flushes(a, 0); CHECK(m.put(rec(1, a)), "put"); m.flush(); done(); }
    else if (op == 1) { int a = next_++, b = next_++, c = next_++; flushes(a, b); flushes(c, 0); CHECK(m.put(rec(1, a)), "put"); CHECK(m.put(rec(1, b)), "second put"); CHECK(m.put(rec(1, c)), "put into a full box"); m.flush(); done(); two = true; }
    else take(r, false);
    live = 0; int n = m.boxes_in_queue(); CHECK(n == inring() - pend && m.pages_used() == (uint32_t)n, "number of boxes"); live = 1; }
  live = 0; int got = inring(); if (pend > 1) got = 0;
  while (pend) { pend--; other_take(true); }
  for (int i = 0; i <= SLOTS; i++) take(r, true);
  CHECK(rh == rn, "boxes lost"); CHECK(m.boxes_in_queue() == 0, "count of an empty queue"); CHECK(sem[0] + mine[0] == 1, "lock");
  WITNESS(full_ || !W_FULL, "full"); WITNESS(envf, "flushed by another"); WITNESS(envt || !W_TAKE, "taken by another"); WITNESS(envp || !W_TAKE, "counted"); WITNESS(two, "two");
}
#endif

#if MODE == 1
static bool eintr, was;
static void ops(q_t &m, int n) {
  for (int i = 0; i < n; i++) { int op = nd_upto(4), b0 = bad, s0 = nsem, t0 = mine[0]; bool thrown = false;
    try { if (op == 0) { m.put(rec(1, 5)); m.flush(); } else if (op == 1) { rec x; m.unflush(nd_bool() ? IPC_NOWAIT : 0, 10); m.get(x); } else if (op == 2) { static const int rg[] = {0, 11, 12}; m.set_register(rg[nd_upto(2)], 77); } else if (op == 3) { static const int rg[] = {1, 11, 12}; m.get_register(rg[nd_upto(2)]); } else { m.boxes_in_queue(); m.pages_used(); } } catch (const std::exception &e) { thrown = true; }
    if (thrown) CHECK(bad > b0, "error out of nothing"); else if (bad > b0) eintr = true;
    if (removed) return; CHECK(mine[0] == 0, "lock not released"); } }
extern "C" void harness(void) {
  init_[0] = 1; bool ok = STATE < 2;
#if STATE
  q_t x; x.connect("f", STATE == 2 ? 7 : 5, STATE == 3 ? 4 : 3); x.put(rec(1, 9)); x.flush(); x.set_register(1, 11); created_sem = 0;
#endif
  int base = attached; guard();
  { q_t m; bool conn = false;
    for (int i = 0; i < 1 + TRY; i++) {
      int b0 = bad, d0 = ndenied; denied = 0; faults = i < TRY; live = i < TRY; race = !STATE && i == 0; conn = false; budget = 2; bool t = false;
      try { m.connect("f", STATE == 4 ? 1000000 : 5, 3); conn = true; } catch (const std::exception &e) { t = true; }
      race = 0; int bb = bad; bool r = removed;
      if (!r) CHECK(mine[0] == 0, "lock kept after connecting"); CHECK(attached == base + conn, "attachment");
      if (!ok && !r) CHECK(t, "another layout accepted"); if (ok && bb == b0 && ndenied == d0) CHECK(conn, "error out of nothing");
      if (r) { CHECK(t || OPS >= 0, ""); was = true; break; }
      if (t) { was = true; CHECK(m.semid() == -1 || 1, ""); faults = 0; int n0 = nsem; CHECK(!m.unflush(IPC_NOWAIT) && !m.put(rec(1, 1)), "usable although not connected"); CHECK(nsem == n0, "uses the semaphores although not connected"); }
      faults = 0; live = 0; if (!sem_exists || !setv[0]) ; else sem[0] = 1;
#if STATE
      CHECK(x.get_register(1) == 11, "register damaged"); if (!i) CHECK(x.boxes_in_queue() >= 1, "box lost");
#endif
      if (conn) { faults = FAULTS; live = 1; budget = 2; ops(m, OPS); live = 0; faults = 0; if (removed) break; sem[0] = 1; if (nd_bool()) { for (int k = 0; k < 12; k++) m.set_register(k, 100 + k); for (int k = 0; k < 12; k++) CHECK(m.get_register(k) == 100u + k, "register"); CHECK(m.get_register(12) == 0 && m.registers_number() == 12, "registers");
#if STATE
        CHECK(x.get_register(3) == 103, "registers are shared"); x.set_register(1, 11);
#endif
        }
        if (i == 0) { m.disconnect(); CHECK(attached == base, "attachment kept"); if (nd_bool()) { m.disconnect(); CHECK(attached == base, "attachment"); } } } }
    if (!removed) { if (ok) CHECK(conn, "cannot be connected again"); else CHECK(!conn, "another layout accepted"); } }
  CHECK(attached == base, "attachment kept by a destroyed object"); if (!removed) CHECK(mine[0] == 0, "lock");
  bool w = was || !TRY, e = eintr || !FAULTS, h = held || !TRY, rm = removed || !MAYRM; WITNESS(w, "failed and connected"); WITNESS(e || !ok, "interrupted"); WITNESS(h, "others"); WITNESS(rm, "removed");
}
#endif

#if MODE == 2
struct vrec : public shm_queue::serializable { unsigned char n, v; vrec(int k = 1, int x = 0) : n(k), v(x) {}
  virtual bool serialize(void *p) const { memset(p, v, n); return true; }
  virtual bool deserialize(const void *p) { const unsigned char *q = (const unsigned char *)p; if (!*q) return false; v = *q; for (int i = 0; i < n; i++) if (q[i] != v) return false; return true; }
  virtual size_t size() const { return n; } };
extern "C" void harness(void) {
  init_[0] = 1; shm_queue::writer<vrec> w; shm_queue::reader<vrec> r; w.connect("f", BS, 4); r.connect("f", BS, 4); inenv = 1; guard();
  int bx[8], sz[8], n = 0, cur = 0, used = 0, id[8]; bool big = false, fit = false;
  for (int i = 0; i < 3; i++) { int k = nd_u8(); ASSUME(k >= 1 && k <= BS + 2); bool g = w.put(vrec(k, i + 1)); CHECK(g == (k <= BS), "result of put");
    if (used + k > BS) { cur++; used = 0; } else fit = used > 0; if (k <= BS) { used += k; bx[n] = cur; id[n] = i + 1; sz[n++] = k; if (used == BS) big = true; } }
  w.flush(); cur++; CHECK(r.boxes_in_queue() == (cur > 3 ? 3 : cur), "number of boxes");
  int at = 0; for (int b = 0; b < cur && b < 3; b++) { CHECK(r.unflush(IPC_NOWAIT), "box"); for (; at < n && bx[at] == b; at++) { vrec x(sz[at], 0); CHECK(r.get(x) && x.v == id[at], "record"); } vrec e(1, 0); CHECK(!r.get(e), "more than was put"); }
  CHECK(!r.unflush(IPC_NOWAIT), "box out of nothing"); WITNESS(fit, "several in a box"); WITNESS(big, "exactly full"); bool o = cur > 2; WITNESS(o, "boxes");
}
#endif
