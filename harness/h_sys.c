// C31, C33, C34, C40: descriptor helpers, path creation, mapping and sockets against a system whose calls may fail.
#include "sysfd.h"
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/socket.h>
#include <sys/ioctl.h>
#include "coda/system.h"
#include "coda/socket.h"
#include "coda/daemon.h"
#include "coda/logger.h"
#include "coda/random.h"
#define FDMOVE 1
#define FDOPEN 2
#define MKPIDF 3
#define MMAP 4
#define FORK 5
#define LISTEN 6
#define ACCEPT 7
#define CONNECT 8
#define RANDOM 9
#define LOGCREATE 10
#define MKPATH 11
#define RECV 12
#ifndef RCALLS
#define RCALLS 3
#endif
// ---- files
int STUB(flock)(int fd, int op) { CHECK(isopen(fd), "locks a descriptor that is not open"); if (fails(op & LOCK_UN ? EIO : EWOULDBLOCK)) return -1; return 0; }
static off_t fsize; static int nstat, ntrunc, tfd; static off_t tsize;
int STUB(fstat)(int fd, struct stat *st) { CHECK(isopen(fd), "examines a descriptor that is not open"); nstat++; if (fails(EIO)) return -1; memset(st, 0, sizeof *st); st->st_size = fsize; return 0; }
int STUB(ftruncate)(int fd, off_t n) { CHECK(isopen(fd), "resizes a descriptor that is not open"); ntrunc++; tfd = fd; tsize = n; if (n < 0) { errno = EINVAL; bad++; return -1; } if (fails(EFBIG)) return -1; fsize = n; return 0; }
ssize_t STUB(write)(int fd, const void *b, size_t n) {
#ifdef VP_REPLAY
  if (fd == 1) return __real_write(fd, b, n);
#endif
  CHECK(isopen(fd), "writes to a descriptor that is not open"); if (fails(ENOSPC)) return -1; if (n > 0 && fails(0)) return n - 1; return n; }
ssize_t STUB(read)(int fd, void *b, size_t n) { CHECK(isopen(fd), "reads a descriptor that is not open"); if (fails(EIO)) return -1; memset(b, 7, n); if (n > 0 && fails(0)) return n - 1; return n; }
static char mapped[4]; static int nmap, nunmap; static int m_ok; static void *m_addr; static size_t m_len; static int m_prot, m_flags, m_fd, m_file; static off_t m_off;
void *STUB(mmap)(void *a, size_t n, int prot, int flags, int fd, off_t off) { nmap++; m_addr = a; m_len = n; m_prot = prot; m_flags = flags; m_fd = fd; m_off = off; m_file = isopen(fd) ? fo[fd] : 0; if (n == 0) { errno = EINVAL; bad++; return MAP_FAILED; }
  if (!(flags & MAP_ANON)) CHECK(isopen(fd), "maps a descriptor that is not open"); if (fails(ENOMEM)) return MAP_FAILED; m_ok = 1; return mapped; }
int STUB(munmap)(void *a, size_t n) { CHECK(a == mapped && n == m_len, "unmaps something else"); nunmap++; return 0; }
// ---- processes
static int forked, sid;
pid_t STUB(fork)(void) { CHECK(!forked, "forks twice"); forked = 1; if (fails(EAGAIN)) return -1; return nd_bool() ? 4321 : 0; }
pid_t STUB(setsid)(void) { sid++; if (fails(EPERM)) return -1; return 77; }
mode_t STUB(umask)(mode_t m) { return 022; }
void STUB(exit)(int c) { CHECK(c == 0, "the parent ends with an error"); WITNESS(1, "parent ends"); for (;;) vp_assume(0); }
pid_t STUB(getpid)(void) { return 1234; }
void STUB(srandom)(unsigned s) { }
// ---- logging
static struct timeval tv0;
int STUB(gettimeofday)(struct timeval *t, void *z) { *t = tv0; return 0; }
struct tm *STUB(localtime_r)(const time_t *t, struct tm *r) { memset(r, 0, sizeof *r); return r; }
int STUB(fprintf)(FILE *f, const char *s, ...) { return 0; }
#ifndef VP_REPLAY
int pthread_once(pthread_once_t *o, void (*f)(void)) { if (!*o) { *o = 1; f(); } return 0; }
int pthread_key_create(pthread_key_t *k, void (*d)(void *)) { *k = 1; return 0; }
void *pthread_getspecific(pthread_key_t k) { return 0; }
int pthread_setspecific(pthread_key_t k, const void *v) { return 0; }
pthread_t pthread_self(void) { return 5; }
#endif
// ---- directories
#ifndef PLEN
#define PLEN 4
#endif
static char orig[PLEN + 1]; static int at, failedmk, nmk;
int STUB(mkdir)(const char *p, mode_t m) {
  nmk++;
#if MODE == MKPATH
  CHECK(!failedmk, "goes on after a failure");
  int j = at + 1; while (j < PLEN && orig[j] && orig[j] != '/') j++;
  CHECK(j < PLEN && orig[j] == '/', "creates a directory that was not asked for"); at = j;
  for (int i = 0; i < j; i++) CHECK(p[i] == orig[i], "creates another directory"); CHECK(p[j] == 0, "creates another directory");
#endif
  unsigned char k = nd_upto(2); if (!k) return 0; errno = EEXIST; if (k == 2) { unsigned char e = anyerr(); ASSUME(e != EEXIST); errno = e; failedmk++; bad++; } return -1; }
// ---- sockets
static int s_blk = -1, s_reuse = -1, s_bound, s_conn, s_lst, s_backlog, s_fam, s_typ, step; static struct sockaddr_in s_addr, peer; static int noblkcalls;
int STUB(socket)(int d, int t, int p) { s_fam = d; s_typ = t; if (fails(EMFILE)) return -1; return newfd(); }
int STUB(accept)(int fd, struct sockaddr *a, socklen_t *n) { CHECK(isopen(fd), "accepts on a descriptor that is not open"); if (fails(EAGAIN)) return -1; CHECK(*n >= sizeof peer, "no room for the peer's address"); memcpy(a, &peer, sizeof peer); *n = sizeof peer; return newfd(); }
int STUB(ioctl)(int fd, unsigned long r, ...) { va_list ap; va_start(ap, r); int *v = va_arg(ap, int *); va_end(ap); CHECK(isopen(fd), "configures a descriptor that is not open"); CHECK(fo[fd] > 20, "configures a descriptor of the caller's"); noblkcalls++; CHECK(r == FIONBIO, "another request"); if (fails(EIO)) return -1; s_blk = *v != 0; return 0; }
int STUB(fcntl)(int fd, int c, ...) { va_list ap; va_start(ap, c); int v = va_arg(ap, int); va_end(ap); CHECK(isopen(fd), "configures a descriptor that is not open"); if (fails(EIO)) return -1; if (c == F_GETFL) return s_blk == 1 ? O_RDWR|O_NONBLOCK : O_RDWR; if (c == F_SETFL) s_blk = !!(v & O_NONBLOCK); return 0; }
int STUB(setsockopt)(int fd, int l, int k, const void *v, socklen_t n) { CHECK(isopen(fd), "configures a descriptor that is not open"); if (fails(EIO)) return -1; if (l == SOL_SOCKET && k == SO_REUSEADDR && n == sizeof(int)) { CHECK(!s_bound, "address reuse asked for after binding"); s_reuse = *(const int *)v; } return 0; }
int STUB(bind)(int fd, const struct sockaddr *a, socklen_t n) { CHECK(isopen(fd), "binds a descriptor that is not open"); CHECK(n == sizeof s_addr, "address of another size"); if (fails(EADDRINUSE)) return -1; CHECK(!s_bound, "bound twice"); s_bound = 1; memcpy(&s_addr, a, sizeof s_addr); return 0; }
int STUB(listen)(int fd, int b) { CHECK(isopen(fd), "listens on a descriptor that is not open"); CHECK(s_bound, "listens before it is bound"); if (fails(EADDRINUSE)) return -1; s_lst = 1; s_backlog = b; return 0; }
static int inprog;
int STUB(connect)(int fd, const struct sockaddr *a, socklen_t n) { CHECK(isopen(fd), "connects a descriptor that is not open"); CHECK(n == sizeof s_addr, "address of another size"); memcpy(&s_addr, a, sizeof s_addr); s_conn = 1; unsigned char k = nd_upto(2); if (!k) return 0; errno = EINPROGRESS; if (k == 1) inprog = 1; else { unsigned char e = anyerr(); ASSUME(e != EINPROGRESS); errno = e; bad++; } return -1; }
static int rcalls, rexp; static int rfd; static void *rbuf; static size_t rsize;
ssize_t STUB(recv)(int fd, void *b, size_t n, int f) {
  CHECK(rexp == -2, "calls again after a result"); CHECK(fd == rfd && b == rbuf && n == rsize && f == 0, "asks for something else"); rcalls++;
  unsigned char k = nd_upto(rcalls > RCALLS ? 1 : 2);
  if (k == 2) { errno = EINTR; return -1; }
  if (k == 1) { unsigned char e = nd_u8(); ASSUME(e != EINTR && e > 0); errno = e; rexp = -1; return -1; }
  unsigned short m = nd_u16(); ASSUME(m <= n); rexp = m; return m; }
#ifndef VP_REPLAY
in_addr_t inet_addr(const char *s) { unsigned long a = 0, o = 0; int n = 0; for (;; s++) { if (*s >= '0' && *s <= '9') o = o * 10 + (*s - '0'); else { a = (a * 256 + o) & 0xffffffff; o = 0; n++; if (*s != '.') break; } } return n == 4 ? htonl(a) : INADDR_NONE; }
int inet_aton(const char *s, struct in_addr *r) { r->s_addr = inet_addr(s); return r->s_addr != INADDR_NONE; }
int inet_pton(int f, const char *s, void *r) { *(in_addr_t *)r = inet_addr(s); return *(in_addr_t *)r != INADDR_NONE; }
void _exit(int c) { STUB(exit)(c); __builtin_unreachable(); }
#endif
void harness(void) {
#if MODE == FDMOVE
  int t = nd_upto(6), nd = (int)nd_upto(7) - 1, fd = 3; table(7, 4); if (t == 5) fo[5] = f0[5] = 15; fd = 3 + nd_bool(); fo[fd] = f0[fd] = 13;
  int r = coda_fdmove(fd, nd);
  if (r < 0) { CHECK(bad, "failure without a failing step"); noleak(nd, "a descriptor is left open"); for (int i = 0; i < NFD; i++) if (i != nd && i != fd) CHECK(fo[i] == f0[i], "another descriptor changed"); }
  else { CHECK(!bad, "success although a step failed");
    if (nd < 0 || nd == fd) { CHECK(r == fd, "the descriptor itself is returned"); same(-1, "a descriptor changed"); }
    else { CHECK(r == nd, "the wrong descriptor is returned"); CHECK(fo[nd] == f0[fd], "the target does not refer to the file"); CHECK(!fo[fd], "the original stays open"); f0[fd] = 0; same(nd, "another descriptor changed"); } }
  WITNESS(r < 0, "fails"); WITNESS(r == nd && nd != fd, "moved"); WITNESS(r == fd && nd < 0, "kept");
#elif MODE == FDOPEN
  int std = nd_upto(7), fl = nd_bool() ? O_CREAT|O_APPEND|O_WRONLY : O_RDWR; int fd = (int)nd_upto(6) - 1; table(std, 4); const char *path = "/x/y";
  int r = coda_fdopen(fd, path, fl);
  if (r < 0) { CHECK(bad, "failure without a failing step"); noleak(fd, "a descriptor is left open after a failure"); same(fd, "another descriptor changed"); }
  else { CHECK(!bad, "success although a step failed"); CHECK(fd < 0 || r == fd, "the wrong descriptor is returned"); CHECK(fo[r] == nfile && nopen == 1 && o_path == path && o_flags == fl, "the descriptor does not refer to the file asked for"); CHECK(!(fl & O_CREAT) || (o_mode & 0400), "the file is created without access"); same(r, "another descriptor changed"); CHECK(fd >= 0 || !f0[r], "an open descriptor was taken"); }
  WITNESS(r < 0 && nopen && fd >= 0 && !f0[fd], "fails"); WITNESS(r == 2 && !f0[2], "lands there"); WITNESS(r == 1 && f0[1], "replaces"); WITNESS(r >= 0 && fd < 0, "any");
#elif MODE == MKPIDF
  table(nd_upto(7), 4); fsize = nd_bool(); int r = coda_mkpidf("/p");
  same(-1, r < 0 ? "a descriptor is left open after a failure" : "a descriptor is left open");
  if (r < 0) CHECK(bad || fsize, "failure without a failing step"); else CHECK(!bad, "success although a step failed");
  WITNESS(r < 0, "fails"); WITNESS(r == 0, "succeeds"); WITNESS(r < 0 && !bad, "exists");
#elif MODE == MMAP
  table(nd_upto(7), 4); coda_strt a; a.size = nd_u64(); size_t want = a.size; a.data = 0; fsize = nd_u32(); off_t cur = fsize; int prot = nd_upto(7), fl = nd_u8(), named = nd_bool(); ASSUME(named ? !(fl & MAP_ANON) : 1); const char *path = "/f";
  int r = coda_mmap(&a, prot, fl, named ? path : NULL);
  same(-1, r < 0 ? "a descriptor is left open after a failure" : "a descriptor is left open");
  if (r < 0) { CHECK(bad, "failure without a failing step"); CHECK(!m_ok || nunmap, "a failure leaves the region mapped"); }
  else { CHECK(!bad, "success although a step failed"); CHECK(nmap == 1 && !nunmap, "not mapped exactly once"); CHECK(a.data == mapped && m_off == 0 && m_addr == 0, "the region returned is not the mapped one"); CHECK(m_prot == prot, "protection changed"); CHECK(m_len == a.size, "another size is mapped");
    if (named) { CHECK(m_flags == fl, "flags changed"); CHECK(nopen == 1 && o_path == path, "another file is opened"); CHECK((o_flags & O_ACCMODE) == (prot & PROT_WRITE ? O_RDWR : O_RDONLY), "opened with the wrong access"); CHECK(!(o_flags & (O_TRUNC|O_CREAT|O_EXCL)), "the file is created or emptied"); CHECK(m_file == nfile, "another file is mapped");
      if (want) { CHECK(a.size == want, "another size than asked for"); CHECK(fsize == (off_t)want, "the file does not have the size asked for"); } else { CHECK(a.size == (size_t)cur, "not the file's length"); CHECK(ntrunc == 0, "the file is resized"); } }
    else { CHECK(nopen == 0, "a file is opened"); CHECK(m_flags == (fl | MAP_ANON) && m_fd == -1, "not an anonymous region"); CHECK(a.size == want, "another size than asked for"); } }
  WITNESS(r < 0, "fails"); WITNESS(r == 0 && named && want, "sized file"); WITNESS(r == 0 && named && !want, "whole file"); WITNESS(r == 0 && !named, "anonymous");
#elif MODE == FORK
  table(nd_upto(7), -1); int r = coda_daemon_fork();
  for (int i = 3; i < NFD; i++) CHECK(!fo[i], r < 0 ? "a descriptor is left open after a failure" : "a descriptor is left open");
  if (r < 0) CHECK(bad, "failure without a failing step");
  else { CHECK(!bad, "success although a step failed"); CHECK(forked && sid == 1, "not detached"); CHECK(fo[0] > 20 && fo[1] == fo[0] && (fo[2] == f0[2] || (!f0[2] && fo[2] == fo[0])), "standard descriptors"); CHECK(nopen == 1 && strcmp(o_path, "/dev/null") == 0 && (o_flags & O_ACCMODE) == O_RDWR, "not the null device"); }
  WITNESS(r < 0 && nopen, "fails late"); WITNESS(r == 0, "detached"); WITNESS(r == 0 && !f0[0], "stdin closed before");
#elif MODE == LISTEN || MODE == CONNECT
  table(7, 4); int nb = nd_bool(), bl = nd_u8(); char host[16], port[6]; unsigned long ip = 0, pt = 0; int k = 0;
#if HOSTS
  static const unsigned char hv[8][4] = {{127, 0, 0, 1}, {0, 0, 0, 0}, {10, 200, 3, 44}, {192, 168, 1, 1}, {255, 255, 255, 254}, {1, 2, 3, 4}, {99, 100, 9, 10}, {224, 0, 0, 251}}; int h = nd_upto(7);
  for (int i = 0; i < 4; i++) { unsigned char o = hv[h][i]; if (i) host[k++] = '.'; if (o > 99) host[k++] = '0' + o / 100; if (o > 9) host[k++] = '0' + o / 10 % 10; host[k++] = '0' + o % 10; ip = ip * 256 + o; } host[k] = 0;
#else
  for (int i = 0; i < 4; i++) { unsigned char o = nd_upto(9); if (i) host[k++] = '.'; host[k++] = '0' + o; ip = ip * 256 + o; } host[k] = 0;
#endif
  for (int i = 0; i < NPORT; i++) { unsigned char c = nd_upto(9); pt = pt * 10 + c; port[i] = '0' + c; } port[NPORT] = 0; ASSUME(pt < 65536);
#if MODE == LISTEN
  int r = coda_listen(host, port, bl, nb);
#else
  int r = coda_connect(host, port, nb);
#endif
  if (r < 0) { CHECK(bad, "failure without a failing step"); same(-1, "a descriptor is left open after a failure"); }
  else { CHECK(!bad, "success although a step failed"); CHECK(r >= 0 && r < NFD && !f0[r] && fo[r] > 20, "not the new socket"); same(r, "another descriptor is left open"); CHECK(s_fam == AF_INET && (s_typ & 15) == SOCK_STREAM, "not a stream socket"); CHECK((s_blk == 1) == nb, "blocking mode");
    CHECK(s_addr.sin_family == AF_INET, "address family"); CHECK(s_addr.sin_addr.s_addr == htonl(ip), "another address"); CHECK(s_addr.sin_port == htons((unsigned short)pt), "another port");
#if MODE == LISTEN
    CHECK(s_reuse > 0, "no address reuse"); CHECK(s_bound && s_lst && s_backlog == bl, "not listening as asked");
#else
    CHECK(s_conn, "not connected");
#endif
  }
  WITNESS(r < 0, "fails"); WITNESS(r >= 0 && nb, "non-blocking"); WITNESS(r >= 0 && !nb, "blocking"); WITNESS(MODE == LISTEN || (r >= 0 && inprog), "in progress");
#elif MODE == ACCEPT
  table(7, 4); int nb = nd_bool(); struct in_addr ip; ip.s_addr = 0; peer.sin_family = AF_INET; peer.sin_addr.s_addr = nd_u32();
  int r = coda_accept(4, &ip, nb);
  if (r < 0) { CHECK(bad, "failure without a failing step"); same(-1, "a descriptor is left open after a failure"); }
  else { CHECK(!bad, "success although a step failed"); CHECK(!f0[r] && fo[r] > 20, "not the new socket"); same(r, "another descriptor is left open"); CHECK(ip.s_addr == peer.sin_addr.s_addr, "another peer address"); CHECK((s_blk == 1) == nb, "blocking mode"); }
  WITNESS(r < 0, "fails"); WITNESS(r >= 0 && nb, "non-blocking"); WITNESS(r >= 0 && !nb, "blocking");
#elif MODE == RANDOM
  table(nd_upto(7), 4); int r = coda_random_init(); same(-1, r < 0 ? "a descriptor is left open after a failure" : "a descriptor is left open");
  if (r < 0) CHECK(bad, "failure without a failing step"); else CHECK(bad == 0 || nopen == 1, "");
  WITNESS(r < 0, "fails"); WITNESS(r == 0, "seeded");
#elif MODE == LOGCREATE
  table(nd_upto(7), 4); int lv = nd_upto(8), l0 = log_level; const char *path = "d/e/f";
  int r = log_create(path, lv);
  if (r < 0) { CHECK(bad, "failure without a failing step"); noleak(2, "a descriptor is left open after a failure"); same(2, "another descriptor changed"); }
  else { CHECK(!bad, "success although a step failed"); CHECK(r == 2 && fo[2] == nfile && nfile > 20, "standard error is not the log"); same(2, "another descriptor is left open"); }
  WITNESS(r < 0 && nopen, "fails"); WITNESS(r == 2, "opened"); WITNESS(r < 0 && !nopen, "no directory");
#elif MODE == MKPATH
  int n = nd_upto(PLEN); char *p = (char *)vp_buf(n + 1); for (int i = 0; i < n; i++) { unsigned char c = nd_u8(); ASSUME(c); p[i] = orig[i] = c; } p[n] = orig[n] = 0;
  int r = coda_mkpath(p);
  for (int i = 0; i <= n; i++) CHECK(p[i] == orig[i], "the caller's text changed");
  if (failedmk) CHECK(r < 0, "a failure is not reported");
  else { CHECK(r == 0, "failure without a failing step"); int k = 0; for (int i = 1; i < n; i++) k += orig[i] == '/'; CHECK(nmk == k, "a directory is missing"); }
  WITNESS(n == 0, "empty"); WITNESS(nmk == 2 && r == 0, "two"); WITNESS(r < 0, "fails");
#elif MODE == RECV
  static char data[8]; rfd = nd_upto(200); rbuf = data; rsize = nd_u16(); rexp = -2; errno = nd_bool() ? EINTR : 0;
  int r = coda_unix_recv(rfd, data, rsize);
  CHECK(rexp != -2, "gives up although it was only interrupted"); CHECK(r == rexp, "another result");
  WITNESS(rcalls > 2, "interrupted twice"); WITNESS(r < 0, "fails"); WITNESS(r == 0, "end"); WITNESS(r > 0, "data");
#endif
}
