// C30: the in-process queue; other threads run whole operations wherever they can get the lock, consumers may be waiting.
#include "vp.h"
#include <new>
#include <exception>
#include <pthread.h>
#include <sys/types.h>
#include <deque>
#include "coda/synque.hpp"
struct el { int v; el(int x = 0) : v(x) {} el(const el &o) : v(o.v) { boom(); } el &operator=(const el &o) { boom(); v = o.v; return *this; } static void boom(); };
static bool thrown_; static int maythrow, inenv;
struct oops : public std::exception {};
void el::boom() { if (THROWS && maythrow && !inenv && nd_bool()) { thrown_ = true; throw oops(); } }
typedef coda::synque<el> q_t;
static q_t *q; static int owner, waiters, nsig, woken, acts, live; static bool sig, inwait; static pthread_mutex_t *mx; static pthread_cond_t *cv;
static int id[24], rn, rh, next_ = 1; static bool eadd, eget, spur, woke;
static int in() { return rn - rh; }
static void guard() { vp_guard(q, sizeof *q, owner || !live ? 2 : 0); }
static void env() {
  if (!live || inenv) return;
  for (int t = 0; t < 2; t++) { if (acts >= ACTS || !nd_bool()) return; acts++; inenv = 1; int k = nd_upto(3);
    if (k == 0) { int x = next_++; q->add(el(x)); id[rn++] = x; eadd = true; }
    else if (k == 1) { el e; int r = q->get(e, 0); CHECK(r == (in() ? 0 : -1), "another thread's get"); if (!r) { CHECK(e.v == id[rh], "another thread's element"); rh++; eget = true; } }
    else if (k == 2) { ASSUME(in() == 0 && waiters < 2); waiters++; }   /* a consumer starts waiting */
    else q->signal();
    inenv = 0; } }
extern "C" {
int STUB(pthread_mutex_init)(pthread_mutex_t *m, const pthread_mutexattr_t *a) { mx = m; return 0; }
int STUB(pthread_mutex_destroy)(pthread_mutex_t *m) { return 0; }
int STUB(pthread_cond_init)(pthread_cond_t *c, const pthread_condattr_t *a) { cv = c; return 0; }
int STUB(pthread_cond_destroy)(pthread_cond_t *c) { return 0; }
int STUB(pthread_mutex_lock)(pthread_mutex_t *m) { CHECK(m == mx, "another mutex"); CHECK(!owner, "locks a mutex it holds"); if (!inenv) env(); owner = 1; guard(); return 0; }
int STUB(pthread_mutex_trylock)(pthread_mutex_t *m) { CHECK(m == mx, "another mutex"); if (owner) return 16; owner = 1; guard(); return 0; }
int STUB(pthread_mutex_unlock)(pthread_mutex_t *m) { CHECK(m == mx && owner, "unlocks a mutex it does not hold"); owner = 0; guard(); return 0; }
static int wake(int all) { nsig++; if (inwait) sig = true; int n = all ? waiters : waiters > 0; if (!(inwait && !all && nd_bool())) { waiters -= n; woken += n; if (n && !all) { if (inwait) sig = false; } } return 0; }
int STUB(pthread_cond_signal)(pthread_cond_t *c) { CHECK(c == cv, "another condition"); return wake(0); }
int STUB(pthread_cond_broadcast)(pthread_cond_t *c) { CHECK(c == cv, "another condition"); return wake(1); }
int STUB(pthread_cond_wait)(pthread_cond_t *c, pthread_mutex_t *m) { CHECK(c == cv && m == mx && owner, "waits without the mutex"); CHECK(in() == 0, "waits although there is an element"); owner = 0; guard(); inwait = true; sig = false; int n0 = nsig; env(); inwait = false;
  if (!sig) { ASSUME(nd_bool()); spur = true; } else woke = true;
  owner = 1; guard(); return 0; }
}
extern "C" void harness(void) {
  q = new (vp_buf(sizeof(q_t))) q_t(); bool empty = false, part = false;
  for (int i = 0; i < PRE; i++) { q->add(el(next_)); id[rn++] = next_++; }
  live = 1; guard();
  for (int i = 0; i < OPS; i++) {
    int op = nd_upto(4); maythrow = 1; thrown_ = false; int s0 = nsig, w0, k0 = woken; spur = woke = false;
    try {
      if (op == 0) { int x = next_++; bool done = false; int n0 = 0; { el e(x); q->add(e); } id[rn++] = x; w0 = waiters; CHECK(w0 == 0 || woken > k0 || nsig > s0, "addition that wakes nobody"); }
      else if (op == 1) { el e; int cw = nd_bool(); int r = q->get(e, cw); CHECK(r == (in() ? 0 : -1), "result of get"); if (!r) { CHECK(e.v == id[rh], "element"); rh++; } else { empty = true; } }
      else if (op == 2) { std::deque<el> out; int cw = nd_bool(), mx_ = (int)nd_upto(4) - 1; int had, r; bool th = false; try { r = q->get(out, mx_, cw); } catch (const oops &) { th = true; }
        if (!th) { int n = in(), want = mx_ > 0 && mx_ < n ? mx_ : n; CHECK(r == (n ? 0 : -1), "result of a batch get"); CHECK((int)out.size() == want, "number of elements"); for (int j = 0; j < want; j++) CHECK(out[j].v == id[rh + j], "element of a batch"); rh += want; if (want < n) part = true; }
        else { CHECK((int)out.size() <= in(), "elements"); for (size_t j = 0; j < out.size(); j++) CHECK(out[j].v == id[rh + j], "element of a batch"); rh += out.size(); throw oops(); } }
      else if (op == 3) { int n = (int)q->size(); CHECK(n == in(), "size"); }
      else { int w = waiters; q->signal(); CHECK(nsig > s0, "signal that wakes nobody"); }
    } catch (const oops &) { }
    CHECK(!owner, "lock not released"); maythrow = 0; }
  acts = ACTS; int n = (int)q->size(); CHECK(n == in(), "elements lost or doubled");
  while (rh < rn) { el e; CHECK(q->get(e, 1) == 0 && e.v == id[rh], "element at the end"); rh++; }
  el e; CHECK(q->get(e, 0) == -1, "element out of nothing"); CHECK(!owner, "lock not released");
  WITNESS(!ACTS || eadd, "added by another"); WITNESS(!ACTS || eget, "taken by another"); WITNESS(empty || PRE >= OPS && !ACTS, "empty"); WITNESS(part || PRE < 2, "part"); WITNESS(!THROWS || thrown_ || OPS > 0, "thrown"); bool w = woken > 0 || !ACTS; WITNESS(w, "woken");
  live = 0; vp_guard(q, sizeof *q, 2); q->~q_t();
}
