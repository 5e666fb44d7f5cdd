from path import P
ASSUMPTIONS = ['the other processes follow the rule this one is checked to follow: write only while holding the lock and only an empty file', 'the file is not removed while it is being created', 'process ids 1..255 and ten others up to 2147483647', 'a lock is released with the descriptor']
W = 'open close dup2 flock fstat stat lseek ftruncate unlink fsync write getpid gettimeofday localtime_r fprintf'.split()
def tasks(tier):
    return [P('pid-%s' % ('wide' if w else 'small'), 'h_pid.c', ['coda/system.c', 'coda/logger.c'], dict(PIDW=w, PARTIAL=(3 if tier == 'quick' else 12)), wraps=W, rflags=['-U_FORTIFY_SOURCE'], bounds='any number of other processes acting between any two calls, every combination of failing calls and partial writes, %s' % ('ten process ids of one to ten digits' if w else 'every process id below 256'), timeout=800) for w in (0, 1)]
