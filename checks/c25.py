from path import P
ASSUMPTIONS = ['the other processes follow the same protocol and the semaphores behave as semop(2) says; one call of semop is atomic', 'iterators, unprotected_* and the lock functions themselves are the caller\'s business', 'releasing is not interrupted (semop only fails with EINTR where it waits)']
W = 'ftok semget semctl semop semtimedop shmget shmat shmdt'.split()
def mk(ops, faults, rm, op0=-1): return P('lock-%d%s%s%s' % (ops, 'f' if faults else '', 'r' if rm else '', '' if op0 < 0 else '-%d' % op0), 'h_maplock.cpp', [], dict(OPS=ops, FAULTS=faults, MAYRM=rm, OP0=op0, CREATE=0), wraps=W, bounds='%s any %d of size, read, insert, erase, clear, batch insert, batch erase, connecting and disconnecting a second object; up to 2 other readers or another writer before every semaphore call%s%s' % ('' if op0 < 0 else 'first operation %d;' % op0, ops, '; any waiting call interrupted' if faults else '', '; semaphores removed at any point' if rm else ''), timeout=800)
CR = P('create', 'h_maplock.cpp', [], dict(OPS=0, FAULTS=1, MAYRM=0, OP0=-1, CREATE=1), wraps=W, bounds='connecting while another process creates the semaphores or uses the ones just created, any call failing', timeout=800)
def tasks(tier):
    return [CR] + [mk(2, 1, 1, i) for i in range(9)] if tier == 'quick' else [CR] + [mk(2, 1, 1, i) for i in range(9)] + [mk(3, 0, 0, i) for i in range(9)]
