// C32: one process creating a pid file while any number of others do the same.
// The file is one inode: its content, its lock and what the others may do to it at any moment: lock and unlock it, and
// write it if they hold the lock and it is empty (the same rule this process is checked to follow).
#define ON_OPEN { int f = o_flags; if (f & O_CREAT && f & O_EXCL && exists) { errno = EEXIST; bad++; return -1; } if (!exists) { if (!(f & O_CREAT)) { errno = ENOENT; bad++; return -1; } exists = 1; size = 0; mine = 0; } if (f & O_TRUNC) { CHECK(size == 0 || mine, "empties a file that another process filled"); size = 0; } pfd = -1; }
#define ON_CLOSE { if (fd == lfd) lfd = -1; env(); }
static int exists, lfd = -1, pfd = -1, olock, mine, nstatd, wrote; static long size; static char data[64]; static void env(void);
#include "sysfd.h"
#include "coda/system.h"
static int others;   /* the others act at most OTHERS times */
static void env(void) {
  if (lfd < 0) { olock = nd_bool(); if (exists && size == 0 && !olock && nd_bool()) { size = 3; others++; mine = 0; } } }
int STUB(flock)(int fd, int op) { CHECK(isopen(fd), "locks a descriptor that is not open"); if (lfd < 0) env();
  if (op & LOCK_UN) { if (fails(EIO)) return -1; if (lfd == fd) lfd = -1; env(); return 0; }
  CHECK(op & LOCK_EX, "takes a shared lock");
  if (olock) { if (!(op & LOCK_NB)) { olock = 0; if (size == 0 && nd_bool()) { size = 3; others++; } } else { errno = EWOULDBLOCK; bad++; return -1; } }
  if (fails(ENOLCK)) return -1; lfd = fd; return 0; }
static void st_(struct stat *st) { memset(st, 0, sizeof *st); st->st_size = size; st->st_nlink = 1; }
int STUB(fstat)(int fd, struct stat *st) { CHECK(isopen(fd), "examines a descriptor that is not open"); env(); if (fails(EIO)) return -1; st_(st); return 0; }
int STUB(stat)(const char *p, struct stat *st) { env(); if (!exists) { errno = ENOENT; return -1; } if (fails(EIO)) return -1; st_(st); return 0; }
off_t STUB(lseek)(int fd, off_t o, int w) { CHECK(isopen(fd), "seeks a descriptor that is not open"); env(); if (fails(EIO)) return -1; return w == SEEK_END ? size + o : o; }
int STUB(ftruncate)(int fd, off_t n) { CHECK(isopen(fd), "resizes a descriptor that is not open"); env(); if (fails(EIO)) return -1; CHECK(lfd == fd && (size == 0 || mine), "resizes a file that another process filled or may fill"); size = n; return 0; }
int STUB(unlink)(const char *p) { CHECK(lfd >= 0 && (mine || size == 0), "removes a file that another process created"); exists = 0; size = 0; mine = 0; return 0; }
int STUB(fsync)(int fd) { return fails(EIO) ? -1 : 0; }
ssize_t STUB(write)(int fd, const void *b, size_t n) {
#ifdef VP_REPLAY
  if (fd == 1) return __real_write(fd, b, n);
#endif
  CHECK(isopen(fd), "writes to a descriptor that is not open"); env();
  CHECK(lfd == fd && !olock, "writes without holding the lock"); CHECK(size == 0 || mine, "writes a file that another process filled");
  CHECK((o_flags & O_ACCMODE) != O_RDONLY, "the file is not open for writing");
  if (fails(ENOSPC)) return -1; size_t k = n; if (n > 0 && fails(0)) { unsigned char m = nd_upto(PARTIAL); ASSUME(m < n); k = m; }
  for (size_t i = 0; i < k; i++) if (size + i < sizeof data) data[size + i] = ((const char *)b)[i];
  size += k; mine = 1; wrote++; return k; }
static unsigned pid; pid_t STUB(getpid)(void) { return (pid_t)pid; }
int STUB(gettimeofday)(struct timeval *t, void *z) { memset(t, 0, sizeof *t); return 0; }
struct tm *STUB(localtime_r)(const time_t *t, struct tm *r) { memset(r, 0, sizeof *r); return r; }
int STUB(fprintf)(FILE *f, const char *s, ...) { return 0; }
#ifndef VP_REPLAY
#include <pthread.h>
int pthread_once(pthread_once_t *o, void (*f)(void)) { if (!*o) { *o = 1; f(); } return 0; }
int pthread_key_create(pthread_key_t *k, void (*d)(void *)) { *k = 1; return 0; }
void *pthread_getspecific(pthread_key_t k) { return 0; }
pthread_t pthread_self(void) { return 5; }
#endif
void harness(void) {
  table(7, 4); exists = nd_bool(); size = exists ? nd_upto(2) : 0; olock = 0; char want[16]; int k = 0;
#if PIDW
  static const unsigned pm[] = {9, 10, 99, 100, 32767, 32768, 99999, 4194304, 999999999, 2147483647}; pid = pm[nd_upto(9)];
#else
  pid = nd_u8(); ASSUME(pid > 0);
#endif
  long s0 = size; for (int i = 0; i < size; i++) data[i] = 'x';
  int r = coda_mkpidf("/run/p");
  same(-1, "a descriptor is left open");
  if (r == 0) {
    CHECK(wrote && mine && others == 0 && s0 == 0, "success although another process has the file"); CHECK(exists, "success without a file");
    char t[16]; int n = 0; for (unsigned v = pid; v; v /= 10) t[n++] = '0' + v % 10; while (n) want[k++] = t[--n]; want[k++] = '\n';
    CHECK(size == k, "the file does not hold exactly the process id and a newline"); for (int i = 0; i < k; i++) CHECK(data[i] == want[i], "the file holds another process id"); }
  else CHECK(bad || s0 || others, "failure without a reason");
  WITNESS(r == 0 && exists && s0 == 0, "created"); WITNESS(r < 0 && others && !bad, "another was first"); WITNESS(r < 0 && wrote, "partial"); WITNESS(r < 0 && s0, "exists");
}
