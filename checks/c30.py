from path import P
ASSUMPTIONS = ['mutex and condition variable behave as POSIX says (spurious wake-ups included); critical sections of other threads are whole', 'waiting without anybody signalling is not an error']
W = 'pthread_mutex_init pthread_mutex_destroy pthread_cond_init pthread_cond_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_cond_signal pthread_cond_broadcast pthread_cond_wait'.split()
def mk(pre, ops, acts, throws=0): return P('p%d-%d-%d%s' % (pre, ops, acts, 't' if throws else ''), 'h_synque.cpp', [], dict(PRE=pre, OPS=ops, ACTS=acts, THROWS=throws), cdefs=dict(VP_DEQCAP=16), wraps=W, bounds='%d elements, then any %d of add, get, batch get (every maximum from -1 to 3), size, signal, waiting or not; up to %d actions of other threads (add, get, start waiting, signal) wherever the lock is free%s' % (pre, ops, acts, '; copying an element may throw' if throws else ''), timeout=800)
def tasks(tier):
    q = tier == 'quick'
    t = [mk(0, 1, 3), mk(0, 2, 2), mk(2, 2, 2), mk(3, 2, 1), mk(2, 1, 0, 1), mk(0, 2, 0, 1)]
    return t if q else t + [mk(0, 2, 3), mk(3, 3, 1), mk(1, 3, 2), mk(1, 2, 1, 1)]
