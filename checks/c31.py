from path import P
W = 'open close dup2 flock fstat ftruncate write read mmap munmap fork setsid umask exit getpid srandom gettimeofday localtime_r fprintf mkdir socket accept ioctl fcntl setsockopt bind listen connect recv'.split()
ASSUMPTIONS = ['open and socket return the lowest free descriptor; close releases the descriptor even when it reports a failure', 'the table holds twelve descriptors; standard descriptors may be open or closed at the start', 'a target descriptor named by the caller may already have been replaced when a later step fails']
def sysm(name, mode, srcs, bounds, **d):
    return P(name, 'h_sys.c', srcs, dict(MODE=mode, **{k: v for k, v in d.items() if k != 'timeout'}), wraps=W, rflags=['-U_FORTIFY_SOURCE'], bounds=bounds, timeout=d.get('timeout', 400))
S, L, D = ['coda/system.c', 'coda/logger.c'], 'coda/logger.c', 'coda/daemon.c'
every = 'every combination of failing and succeeding calls'
def tasks(tier):
    return [sysm('fdmove', 'FDMOVE', S, every + ', every source and target among seven descriptors'), sysm('fdopen', 'FDOPEN', S, every + ', every target among six descriptors'),
        sysm('mkpidf', 'MKPIDF', S, every + ', file empty or not'), sysm('mmap', 'MMAP', S, every + ', every size and protection'), sysm('fork', 'FORK', S + [D], every + ', standard descriptors open or closed'),
        sysm('listen', 'LISTEN', S, every, NPORT=1, HOSTS=0), sysm('connect', 'CONNECT', S, every, NPORT=1, HOSTS=0), sysm('accept', 'ACCEPT', S, every), sysm('random', 'RANDOM', S + ['coda/random.c'], every), sysm('log', 'LOGCREATE', S, every)]
