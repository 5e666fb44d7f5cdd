/* System V semaphores and shared memory as one process sees them while others use the same set.
   sem[i] is the other processes' contribution to semaphore i, mine[i] this process's.  DISC names the locking discipline. */
#include "vp.h"
#include <errno.h>
#include <stdarg.h>
#include <string.h>
#include <time.h>
#include <sys/ipc.h>
#include <sys/sem.h>
#include <sys/shm.h>
static int bad, soft, sem[2], mine[2], undo[2], sem_exists, shm_exists, attached, nattach, semid_ = 5, shmid_ = 9, faults, created_sem, created_shm, nsem, nget, removed, denied, ndenied; static size_t segn, wantn; static unsigned char *seg;
static int race, init_[2], setv[2], budget = 99; /* race: others may create the set between two calls */
static void env(void);       /* what the other processes may do before a call on the semaphores */
static void acquired(void);  /* checks and effects after a successful change of the semaphores */
static int fails(int e) { if (!faults || budget <= 0 || !nd_bool()) return 0; budget--; errno = e; bad++; return 1; }
extern "C" {
key_t STUB(ftok)(const char *p, int id) { return fails(ENOENT) ? -1 : 0x51; }
int STUB(semget)(key_t k, int n, int f) { nget++; CHECK(k == 0x51, "another key"); CHECK(n == 2 || n == 0, "another number of semaphores"); if (race && !sem_exists && nd_bool()) { sem_exists = 1; sem[0] = init_[0]; sem[1] = init_[1]; setv[0] = setv[1] = 1; }
  if (!sem_exists && !(f & IPC_CREAT)) { errno = ENOENT; soft++; return -1; }
  if (sem_exists && (f & IPC_CREAT) && (f & IPC_EXCL)) { errno = EEXIST; soft++; return -1; }
  if (denied) { denied = 0; errno = EACCES; bad++; return -1; }
  if (!sem_exists) { if (fails(ENOSPC)) return -1; } else if (faults && nd_bool()) { errno = EACCES; if (f & IPC_CREAT) bad++; else soft++, denied = 1, ndenied++; return -1; }
  if (!sem_exists) { sem_exists = 1; created_sem = 1; sem[0] = sem[1] = 0; setv[0] = setv[1] = 0; } return semid_; }
int STUB(semctl)(int id, int num, int cmd, ...) { CHECK(id == semid_, "another semaphore set"); CHECK(num == 0 || num == 1, "no such semaphore");
  if (cmd == GETVAL) return sem[num] + mine[num];
  if (cmd == SETVAL) { va_list ap; va_start(ap, cmd); int v = va_arg(ap, int); va_end(ap); env(); if (fails(EACCES)) return -1; CHECK(created_sem, "resets semaphores that others use"); CHECK(sem[num] == 0, "wipes what another process did to a semaphore"); CHECK(v == init_[num], "initial value"); sem[num] = v; mine[num] = undo[num] = 0; setv[num] = 1; return 0; }
  if (cmd == IPC_RMID) { CHECK(created_sem && !setv[0] && init_[0], "removes semaphores that others use"); sem_exists = created_sem = 0; setv[0] = setv[1] = 0; } return 0; }
static int semdo(int id, struct sembuf *o, size_t n, int timed) {
  CHECK(id == semid_, "uses another semaphore set"); CHECK(n > 0 && n <= 4, "number of operations"); nsem++;
#ifdef SEMHOOK
  if (SEMHOOK) return 0;
#endif
  env(); if (removed) { errno = EIDRM; bad++; return -1; } 
  int v[2] = {sem[0] + mine[0], sem[1] + mine[1]}; bool nowait = false, ok = true;
  for (size_t i = 0; i < n; i++) { unsigned k = o[i].sem_num; CHECK(k < 2, "no such semaphore"); if (o[i].sem_flg & IPC_NOWAIT) nowait = true; if (o[i].sem_op == 0) { if (v[k]) ok = false; } else { v[k] += o[i].sem_op; if (v[k] < 0) ok = false; } }
  bool wt = !ok; for (size_t i = 0; i < n; i++) if (o[i].sem_op == 0) wt = true; /* only a call that may have to wait is interrupted */
  if (wt && fails(EINTR)) return -1;
  if (!ok) { if (nowait || timed) { errno = EAGAIN; soft++; return -1; }
#ifdef NOBLOCK
    CHECK(!NOBLOCK, "waits although nobody holds the lock");
#endif
    for (;;) vp_assume(0); }
  for (size_t i = 0; i < n; i++) if (o[i].sem_op) { unsigned k = o[i].sem_num; mine[k] += o[i].sem_op; if (o[i].sem_flg & SEM_UNDO) undo[k] += o[i].sem_op; }
  acquired(); return 0; }
int STUB(semop)(int id, struct sembuf *o, size_t n) { return semdo(id, o, n, 0); }
int STUB(semtimedop)(int id, struct sembuf *o, size_t n, const struct timespec *t) { return semdo(id, o, n, 1); }
int STUB(shmget)(key_t k, size_t n, int f) { CHECK(k == 0x51, "another key"); wantn = n;
  if (!shm_exists && !(f & IPC_CREAT)) { errno = ENOENT; soft++; return -1; }
  if (shm_exists && (f & IPC_CREAT) && (f & IPC_EXCL)) { errno = EEXIST; soft++; return -1; }
  if (shm_exists && n > segn) { errno = EINVAL; if (f & IPC_CREAT) bad++; else soft++; return -1; }
  if (denied) { denied = 0; errno = EACCES; bad++; return -1; }
  if (!shm_exists) { if (fails(ENOSPC)) return -1; } else if (faults && nd_bool()) { errno = EACCES; if (f & IPC_CREAT) bad++; else soft++, denied = 1, ndenied++; return -1; }
  if (!shm_exists) { shm_exists = 1; created_shm = 1; segn = n; seg = (unsigned char *)vp_buf(n); memset(seg, 0, n); } return shmid_; }
void *STUB(shmat)(int id, const void *a, int f) { CHECK(id == shmid_, "another segment"); if (fails(ENOMEM)) return (void *)-1; attached++; nattach++; return seg; }
int STUB(shmdt)(const void *p) { CHECK(p == seg, "detaches something that is not attached"); CHECK(attached > 0, "detached twice"); attached--; return 0; }
}
#ifndef VP_REPLAY
extern "C" char *strerror_r(int, char *b, size_t n) throw() { static char t[] = "error"; return t; }
#endif
