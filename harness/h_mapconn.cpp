// C26: connecting and disconnecting with any call failing. STATE 0 nothing exists, 1 a compatible map with content, 2..7 another layout.
#include <string.h>
#include <stdlib.h>
#include "sysipc.h"
#include <coda/shm_hash_map.hpp>
static bool watch; static void env(void) { if (MAYRM && watch && !removed && nd_bool()) removed = 1; }
static void acquired(void) { CHECK(mine[0] >= 0 && mine[0] <= 1 && mine[1] >= 0 && mine[1] <= 1, "lock released twice"); if (seg) vp_guard(seg, segn, mine[1] > 0 ? 2 : mine[0] > 0 ? 1 : 0); }
typedef shm::hash_map<unsigned, OBJ, HASH> map_t;
struct big { unsigned a, b, c; };
#if STATE == 2
typedef shm::hash_map<unsigned, OBJ + 1, HASH> old_t; typedef unsigned oval;
#elif STATE == 3
typedef shm::hash_map<unsigned, OBJ, HASH + 1> old_t; typedef unsigned oval;
#elif STATE == 4
typedef shm::hash_map<big, OBJ, HASH> old_t; typedef big oval;
#elif STATE == 5
typedef shm::hash_map<unsigned, OBJ, (HASH > 1 ? HASH - 1 : 1)> old_t; typedef unsigned oval;
#elif STATE == 6
typedef shm::hash_map<unsigned long, OBJ, HASH> old_t; typedef unsigned long oval;
#elif STATE == 7
typedef shm::hash_map<unsigned short, OBJ, HASH> old_t; typedef unsigned short oval;
#else
typedef map_t old_t; typedef unsigned oval;
#endif
static oval val(unsigned v) { oval o; memset(&o, 0, sizeof o); memcpy(&o, &v, sizeof o < 4 ? sizeof o : 4); return o; }
static bool has[4]; // keys 0..3 hold 100 + key
template <class M, class V> static void exactly(M &m, V *, const char *what) {
  size_t n = 0; for (int k = 0; k < 4; k++) { V o; memset(&o, 0, sizeof o); bool r = m.read(k, o); unsigned v = 0; memcpy(&v, &o, sizeof o < 4 ? sizeof o : 4); CHECK(r == has[k], what); CHECK(!r || v == 100u + k, what); n += has[k]; }
  CHECK(m.size() == n, what); vp_guard(seg, segn, 1); size_t c = 0; typename M::const_iterator it = m.begin(); for (; it != m.end(); ++it) { CHECK(c < n, what); CHECK(it.key() < 4 && has[it.key()], what); c++; } CHECK(c == n, what); vp_guard(seg, segn, 0); }
static void locks(const char *what) { if (!removed) CHECK(mine[0] == 0 && mine[1] == 0, what); }
extern "C" void harness(void) {
  old_t x; bool ok = STATE < 2, was = false, third = false;
  if (STATE) { x.connect("f"); int n0 = nd_upto(3); for (int k = 0; k < 3; k++) { if (OBJ > k && k < n0) { x.insert((uint64_t)k, val(100 + k)); has[k] = true; third = k == 2; } } }
  int base = attached; if (STATE) { created_sem = 0; }
  { map_t m; bool conn = false;
    for (int i = 0; i < 3; i++) {
      faults = i < TRY; watch = i < TRY; int b0 = bad; bool t = false; conn = false;
      try { m.connect("f"); conn = true; } catch (const std::exception &e) { t = true; }
      watch = false;
      CHECK(m.is_connected() == conn, "connection state after connecting"); CHECK(attached == base + conn, "attachment"); locks("lock held after connecting");
      if (removed) { CHECK(t, "connected without the lock"); 
#if MAYRM
        WITNESS(1, "removed");
#endif
        return; }
      if (!ok) CHECK(t, "another layout accepted"); else CHECK(t == (bad > b0), "failure and reported error disagree");
      if (t && bad > b0) was = true;
      faults = 0; if (STATE) exactly(x, (oval *)0, "content damaged");
      if (conn) { exactly(m, (unsigned *)0, "content after connecting");
        for (int k = 0; k < OBJ && k < 4; k++) { CHECK(m.insert((uint64_t)k, 100 + k), "unusable map"); has[k] = true; }
        exactly(m, (unsigned *)0, "content after filling"); CHECK(!m.insert((uint64_t)77, 1), "more than the capacity");
        if (nd_bool()) { m.clear(); has[0] = has[1] = has[2] = has[3] = false; }
        if (i < 2) { m.disconnect(); CHECK(!m.is_connected(), "connected after disconnecting"); CHECK(attached == base, "attachment kept"); if (nd_bool()) { m.disconnect(); CHECK(attached == base, "attachment"); } } } }
    if (ok) CHECK(conn, "cannot be connected again"); else CHECK(!conn, "another layout accepted"); }
  CHECK(attached == base, "attachment kept by a destroyed object"); locks("lock");
  WITNESS(was, "failed and connected"); bool w = STATE == 0 || third; WITNESS(w, "content");
  bool none = STATE == 5 || !was; WITNESS(none, "no failure");
}
