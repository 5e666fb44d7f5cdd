// C35 (MODE 1 signal table, 2 the no-restart variant, 3 the mask), C39 (MODE 4 option parsing, 5 start, 6 stop).
#include "sysfd.h"
#include <signal.h>
#include <getopt.h>
#include "coda/daemon.h"
#include "coda/logger.h"
static const struct { int sig, act; } H[] = { {SIGHUP, 2}, {SIGINT, 1}, {SIGTERM, 1}, {SIGUSR1, 3}, {SIGUSR2, 4}, {SIGALRM, 0}, {SIGQUIT, 0}, {SIGPIPE, 0}, {SIGCHLD, 0}, {SIGCONT, 0}, {SIGTSTP, 0}, {SIGTTIN, 0}, {SIGTTOU, 0}, {SIGPROF, 0}, {SIGSYS, 0}, {SIGTRAP, 0}, {SIGURG, 0}, {SIGVTALRM, 0}, {SIGXCPU, 0}, {SIGXFSZ, 0}, {SIGWINCH, 0} };
#define NH (int)(sizeof H / sizeof *H)
static int handled(int s) { for (int i = 0; i < NH; i++) if (H[i].sig == s) return H[i].act; return -1; }
static void (*hand[65])(int); static struct sigaction old[65], neu[65]; static int set[65], nset, ev[64], nev; static int oldflags, oldact; static void otherhand(int s) { }
#define EV(x) (ev[nev++ & 63] = (x))
enum { SIG = 1, FORKED, SID, NUL, IN, OUT, PIDF, UNLINK };
typedef void (*sh_t)(int);
sh_t STUB(signal)(int s, sh_t h) { CHECK(s > 0 && s < 65, "no such signal"); if (!nev || ev[nev - 1] != SIG) EV(SIG); nset++; if (fails(EINVAL)) return SIG_ERR; CHECK(handled(s) >= 0, "a signal that is not to be handled is taken over"); hand[s] = h; set[s]++; return SIG_DFL; }
int STUB(sigaction)(int s, const struct sigaction *n, struct sigaction *o) { CHECK(s > 0 && s < 65, "no such signal"); if (o) memset(o, 0, sizeof *o); if (fails(EINVAL)) return -1; if (o) { o->sa_flags = oldflags; o->sa_handler = oldact == 0 ? SIG_DFL : oldact == 1 ? SIG_IGN : otherhand; }
  if (n) { CHECK(handled(s) >= 0, "a signal that is not to be handled is taken over"); hand[s] = n->sa_handler; neu[s].sa_flags = n->sa_flags; set[s]++; } return 0; }
static unsigned long sset; static int emptied; static int mcalls, mhow; static unsigned long mset; static int maskfail, addfail;
int STUB(sigemptyset)(sigset_t *s) { emptied = 1; sset = 0; return 0; }
int STUB(sigaddset)(sigset_t *s, int n) { CHECK(emptied, "adds to a set that was not emptied"); CHECK(n > 0 && n < 65, "no such signal"); if (fails(EINVAL)) { addfail = 1; return -1; } sset |= 1ul << n; return 0; }
int STUB(sigdelset)(sigset_t *s, int n) { sset &= ~(1ul << n); return 0; }
int STUB(sigismember)(const sigset_t *s, int n) { return sset >> n & 1; }
int STUB(sigprocmask)(int how, const sigset_t *s, sigset_t *o) { mcalls++; mhow = how; mset = sset; if (fails(EINVAL)) { maskfail = 1; return -1; } return 0; }
int STUB(pthread_sigmask)(int how, const sigset_t *s, sigset_t *o) { mcalls++; mhow = how; mset = sset; if (fails(0)) { maskfail = 1; return EINVAL; } return 0; }
// ---- processes and files
pid_t STUB(fork)(void) { CHECK(nset || MODE == 7, "detaches before the signals are set up"); EV(FORKED); if (fails(EAGAIN)) return -1; return nd_bool() ? 4321 : 0; }
pid_t STUB(setsid)(void) { EV(SID); if (fails(EPERM)) return -1; return 77; }
mode_t STUB(umask)(mode_t m) { return 022; }
void STUB(exit)(int c) { CHECK(nev && ev[nev - 1] == FORKED, "ends at another point"); CHECK(c == 0, "the parent ends with an error"); WITNESS(1, "parent ends"); for (;;) vp_assume(0); }
static const char *pidpath = "/run/x.pid", *unl; static long fsize;
int STUB(flock)(int fd, int op) { return fails(EWOULDBLOCK) ? -1 : 0; }
int STUB(fstat)(int fd, struct stat *st) { if (fails(EIO)) return -1; memset(st, 0, sizeof *st); st->st_size = fsize; return 0; }
static int wrote; ssize_t STUB(write)(int fd, const void *b, size_t n) {
#ifdef VP_REPLAY
  if (fd == 1) return __real_write(fd, b, n);
#endif
  CHECK(isopen(fd), "writes to a descriptor that is not open"); if (fails(ENOSPC)) return -1; CHECK(fo[fd] > 20 && o_path == pidpath, "writes to another file"); EV(PIDF); wrote++; return n; }
pid_t STUB(getpid)(void) { return 1234; }
int STUB(unlink)(const char *p) { EV(UNLINK); unl = p; return fails(ENOENT) ? -1 : 0; }
int STUB(remove)(const char *p) { return STUB(unlink)(p); }
int STUB(gettimeofday)(struct timeval *t, void *z) { memset(t, 0, sizeof *t); return 0; }
struct tm *STUB(localtime_r)(const time_t *t, struct tm *r) { memset(r, 0, sizeof *r); return r; }
int STUB(fprintf)(FILE *f, const char *s, ...) { return 0; }
#ifndef VP_REPLAY
int pthread_once(pthread_once_t *o, void (*f)(void)) { if (!*o) { *o = 1; f(); } return 0; }
int pthread_key_create(pthread_key_t *k, void (*d)(void *)) { *k = 1; return 0; }
void *pthread_getspecific(pthread_key_t k) { return 0; }
pthread_t pthread_self(void) { return 5; }
void _exit(int c) { STUB(exit)(c); __builtin_unreachable(); }
/* getopt_long: arguments are permuted, short options may be joined, long options are matched exactly or by a unique beginning */
char *optarg; int optind = 1, opterr = 1, optopt; static int gpos;
int getopt_long(int argc, char *const *argv, const char *os, const struct option *lo, int *li) {
  optarg = 0;
  if (!gpos) {
    while (optind < argc && (argv[optind][0] != '-' || !argv[optind][1])) optind++;
    if (optind >= argc) return -1;
    const char *a = argv[optind];
    if (a[1] == '-') { optind++; if (!a[2]) return -1;
      int m = -1, amb = 0; size_t l = 0; while (a[2 + l] && a[2 + l] != '=') l++;
      for (int i = 0; lo[i].name; i++) { if (strncmp(lo[i].name, a + 2, l)) continue; if (!lo[i].name[l]) { m = i; amb = 0; break; } if (m >= 0) amb = 1; else m = i; }
      if (m < 0 || amb) return '?';
      if (a[2 + l] == '=') { if (!lo[m].has_arg) return '?'; optarg = (char *)a + 3 + l; }
      else if (lo[m].has_arg == 1) { if (optind >= argc) return '?'; optarg = argv[optind++]; }
      if (li) *li = m; if (lo[m].flag) { *lo[m].flag = lo[m].val; return 0; } return lo[m].val; }
    gpos = 1; }
  const char *a = argv[optind]; char c = a[gpos++]; const char *q = c == ':' ? 0 : strchr(os, c);
  if (!q) { if (!a[gpos]) { optind++; gpos = 0; } return '?'; }
  if (q[1] == ':') { if (a[gpos]) optarg = (char *)a + gpos; else if (q[2] == ':') ; else if (optind + 1 >= argc) { optind++; gpos = 0; return '?'; } else optarg = argv[++optind]; optind++; gpos = 0; return c; }
  if (!a[gpos]) { optind++; gpos = 0; } return c; }
#endif
static void flags(int want) { CHECK((coda_terminate != 0) == (want == 1), "termination flag"); CHECK((coda_changecfg != 0) == (want == 2), "reload flag"); CHECK((coda_rotatelog != 0) == (want == 3), "rotation flag"); CHECK((coda_changebin != 0) == (want == 4), "upgrade flag"); }
#ifndef MENU
#define MENU 19
#endif
#ifndef NARG
#define NARG 3
#endif
void harness(void) {
  table(7, 4);
#if MODE == 1 || MODE == 2
  log_level = nd_bool() ? LOG_info : -1; oldflags = nd_u8() | (nd_bool() ? SA_RESTART : 0); oldact = nd_upto(2);
  int r = MODE == 1 ? coda_signal_init() : coda_signal_init_norestart();
  if (r < 0) CHECK(bad, "failure without a failing step");
  else { CHECK(!bad, "success although a step failed"); for (int i = 0; i < NH; i++) { CHECK(set[H[i].sig] > 0, "a signal is not handled"); CHECK(hand[H[i].sig] == hand[H[0].sig], "different handlers"); if (MODE == 2) { CHECK(!(neu[H[i].sig].sa_flags & SA_RESTART), "interrupted calls are restarted"); CHECK(!(neu[H[i].sig].sa_flags & ~oldflags), "other flags are set"); } }
    coda_terminate = coda_changecfg = coda_rotatelog = coda_changebin = 0;
    unsigned char k = nd_upto(NH - 1); CHECK(hand[H[k].sig] != SIG_DFL && hand[H[k].sig] != SIG_IGN, "no handler"); hand[H[k].sig](H[k].sig); flags(H[k].act);
    if (H[k].act) { coda_terminate = coda_changecfg = coda_rotatelog = coda_changebin = 1; hand[H[k].sig](H[k].sig); CHECK(coda_terminate && coda_changecfg && coda_rotatelog && coda_changebin, "a pending request is withdrawn"); }
    WITNESS(H[k].act == 0, "absorbed"); WITNESS(H[k].act == 1, "terminate"); WITNESS(H[k].act == 4, "upgrade"); }
  WITNESS(r < 0, "fails");
#elif MODE == 3
  unsigned mask = nd_u32(); int how = nd_upto(2); unsigned long want = 0; for (int i = 0; i < NH; i++) if (mask >> H[i].sig & 1) want |= 1ul << H[i].sig;
  int r = coda_signal_mask(how, mask);
  if (r < 0) CHECK(addfail || maskfail, "failure without a failing step"); else { CHECK(r == 0 && !addfail && !maskfail, "a failure is not reported"); CHECK(mcalls == 1 && mhow == how, "not applied as asked"); CHECK(mset == want, "another set of signals"); }
  CHECK(mcalls <= 1 && (!addfail || !mcalls), "applied although incomplete");
  WITNESS(r == 0 && want == 0, "none"); WITNESS(r == 0 && want && mask != 0xffffffff, "some"); WITNESS(r < 0, "fails");
#elif MODE == 4
  static char *const menu[] = {"-c", "-p", "-d", "-D", "--config", "--pid", "--daemon", "--no-daemon", "-cA", "-pA", "--config=A", "--pid=A", "-x", "A", "--bad", "-dD", "-Dd", "-dcA", "--"};
  char *av[NARG + 2]; int n = nd_upto(NARG), m[NARG + 1]; static char prog[] = "prog"; av[0] = prog;
  for (int i = 1; i <= n; i++) { unsigned char k = nd_upto(MENU - 1); m[i] = k; char *s = menu[0]; for (int j = 0; j < 19; j++) if (k == j) { s = menu[j]; m[i] = j; } av[i] = s; } av[n + 1] = 0; opterr = 0;
  const char *config = 0, *pid = 0; int daemon = 0, err = 0;
  for (int i = 1; i <= n && !err; i++) switch (m[i]) {
    case 0: case 4: if (i == n) err = 1; else config = av[++i]; break;
    case 1: case 5: if (i == n) err = 1; else pid = av[++i]; break;
    case 2: case 6: daemon = 1; break;
    case 3: case 7: daemon = 0; break;
    case 8: config = menu[8] + 2; break;
    case 9: pid = menu[9] + 2; break;
    case 10: config = menu[10] + 9; break;
    case 11: pid = menu[11] + 6; break;
    case 12: case 14: err = 1; break;
    case 13: break;
    case 15: daemon = 0; break;
    case 16: daemon = 1; break;
    case 17: daemon = 1; config = menu[17] + 3; break;
    case 18: i = n; break; }
  coda_getopt_t o; memset(&o, 0xff, sizeof o);
  int r = coda_getopt_parse(n + 1, av, &o);
  if (err) CHECK(r < 0, "a bad option is accepted");
  else { CHECK(r == 0, "options are rejected"); CHECK(o.config == config, "configuration path"); CHECK(o.pid == pid, "pid path"); CHECK(o.daemon == daemon, "detach choice"); }
  WITNESS(err, "rejected"); WITNESS(!err && config && pid, "both"); WITNESS(!err && daemon && n > 1, "detach"); WITNESS(n == 0, "none");
#elif MODE == 5
  coda_getopt_t o; memset(&o, 0, sizeof o); o.daemon = nd_bool(); o.pid = nd_bool() ? pidpath : 0; fsize = nd_bool(); log_level = -1;
  int r = coda_daemon_load(&o);
  int k = 0; CHECK(nev == 0 || ev[0] == SIG, "signals are not set up first");
  int f = 0, p = 0, s = 0; for (int i = 0; i < nev; i++) { if (ev[i] == SIG && i) CHECK(0, "signals are set up twice"); if (ev[i] == FORKED) { f++; CHECK(!p, "detaches after creating the pid file"); } if (ev[i] == SID) { s++; CHECK(f, "new session before detaching"); } if (ev[i] == PIDF) p++; }
  if (!o.daemon) CHECK(!f && !s, "detaches although not asked"); if (!o.pid) CHECK(!p, "creates a pid file although not asked");
  if (r < 0) CHECK(bad || (o.pid && fsize), "failure without a failing step");
  else { CHECK(r == 0 && !bad, "success although a step failed"); CHECK(f == o.daemon && s == o.daemon, "not detached once"); CHECK(p == (o.pid != 0), "pid file not created once"); for (int i = 0; i < NH; i++) CHECK(set[H[i].sig], "a signal is not handled");
    if (o.daemon) CHECK(fo[0] > 20 && fo[1] == fo[0] && fo[2] == f0[2], "standard descriptors"); else { CHECK(fo[0] == f0[0] && fo[1] == f0[1], "standard descriptors changed"); } }
  WITNESS(r == 0 && o.daemon && o.pid, "both"); WITNESS(r == 0 && !o.daemon && !o.pid, "neither"); WITNESS(r < 0 && f, "fails late"); WITNESS(r < 0 && nset == 1, "fails at once");
#elif MODE == 6
  coda_getopt_t o; memset(&o, 0, sizeof o); o.daemon = nd_bool(); o.pid = nd_bool() ? pidpath : 0; o.config = nd_bool() ? "c" : 0;
  int r = coda_daemon_stop(&o);
  if (o.pid) { CHECK(nev == 1 && unl == pidpath, "the pid file is not removed"); CHECK((r < 0) == (bad > 0), "result"); } else CHECK(nev == 0 && r == 0, "removes something");
  WITNESS(o.pid && r < 0, "fails"); WITNESS(o.pid && r == 0, "removed"); WITNESS(!o.pid, "none");
#elif MODE == 7
  table(nd_upto(7), -1); int r = coda_daemon_fork();
  if (r < 0) CHECK(bad, "failure without a failing step");
  else { CHECK(!bad, "success although a step failed"); CHECK(nev >= 2 && ev[0] == FORKED && ev[1] == SID, "not detached"); CHECK(fo[0] > 20 && fo[1] == fo[0] && (fo[2] == f0[2] || (!f0[2] && fo[2] == fo[0])), "standard descriptors"); CHECK(strcmp(o_path, "/dev/null") == 0 && (o_flags & O_ACCMODE) == O_RDWR, "not the null device"); }
  WITNESS(r < 0 && nopen, "fails late"); WITNESS(r == 0, "detached"); WITNESS(r == 0 && !f0[0], "stdin closed before");
#endif
}
