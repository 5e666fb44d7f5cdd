/* The operating system as the library sees it: a descriptor table and calls each of which may fail.
   A descriptor holds the number of the open file it refers to, 0 when it is closed. */
#define _GNU_SOURCE
#include "vp.h"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <sys/types.h>
#define NFD 12
static int fo[NFD], f0[NFD], nfile, bad, nopen, ncl, o_flags, o_mode, quietfail; static const char *o_path;
#ifdef VP_REPLAY
ssize_t __real_write(int, const void *, size_t);
#else
FILE *stderr, *stdout, *stdin;
#endif
static int anyerr(void) { unsigned char e = nd_u8(); ASSUME(e > 0 && e < 134); return e; }
static int fails(int e) { if (!nd_bool()) return 0; errno = e ? anyerr() : 0; if (!quietfail) bad++; return 1; }
static int isopen(int fd) { return fd >= 0 && fd < NFD && fo[fd]; }
static int newfd(void) { for (int i = 0; i < NFD; i++) if (!fo[i]) { fo[i] = ++nfile; return i; } errno = EMFILE; bad++; return -1; }
static void table(int std, int other) { nfile = 20; for (int i = 0; i < NFD; i++) fo[i] = i < 3 ? (std >> i & 1 ? 10 + i : 0) : (i == other ? 10 + i : 0); for (int i = 0; i < NFD; i++) f0[i] = fo[i]; bad = 0; }
static void same(int but, const char *m) { for (int i = 0; i < NFD; i++) if (i != but) CHECK(fo[i] == f0[i], m); }
static void noleak(int target, const char *m) { for (int i = 0; i < NFD; i++) if (i != target) CHECK(!fo[i] || f0[i], m); }
#define OPENFAIL EACCES
int STUB(open)(const char *p, int f, ...) { nopen++; o_path = p; o_flags = f; o_mode = 0; if (f & O_CREAT) { va_list ap; va_start(ap, f); o_mode = va_arg(ap, int); va_end(ap); } if (fails(OPENFAIL)) return -1;
#ifdef ON_OPEN
  ON_OPEN
#endif
  return newfd(); }
int STUB(close)(int fd) { CHECK(isopen(fd), "closes a descriptor that is not open"); ncl++;
#ifdef ON_CLOSE
  ON_CLOSE
#endif
  fo[fd] = 0; return fails(EIO) ? -1 : 0; }
int STUB(dup2)(int a, int b) { CHECK(isopen(a), "duplicates a descriptor that is not open"); if (b < 0 || b >= NFD) { errno = EBADF; bad++; return -1; } if (fails(EINTR)) return -1; fo[b] = fo[a]; return b; }
