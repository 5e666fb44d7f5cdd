from path import P
from core import T
ASSUMPTIONS = ['the handled signals and their flags are those of the table in coda/daemon.c; the handler is called with each handled signal', 'signal sets are the mathematical sets (sigemptyset, sigaddset and sigprocmask are stand-ins)']
W = 'open close dup2 signal sigaction sigemptyset sigaddset sigdelset sigismember sigprocmask pthread_sigmask fork setsid umask exit flock fstat write getpid unlink remove gettimeofday localtime_r fprintf'.split()
SRC = ['coda/daemon.c', 'coda/system.c', 'coda/logger.c']
def dm(name, mode, bounds, E=P, **d): return E(name, 'h_daemon.c', SRC, dict(MODE=mode, **d), wraps=W, rflags=['-U_FORTIFY_SOURCE'], bounds=bounds, timeout=800, **({} if E is P else dict(unwind=66)))
def tasks(tier): return [dm('table', 1, 'every registration may fail; every handled signal delivered, with logging and without'), dm('norestart', 2, 'every registration may fail, every previous flag set, every previous action; every handled signal delivered'), dm('mask', 3, 'every mask, every failing step', T)]
