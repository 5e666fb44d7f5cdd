from path import P
ASSUMPTIONS = ['one object is used for writing or for reading', 'one call of semop is atomic; the others\' critical sections are whole (the lock is C29)', 'queues below 4 GiB']
W = 'ftok semget semctl semop semtimedop shmget shmat shmdt'.split()
def mk(slots, pre, rot, ops, acts, full=1, take=1): return P('q%d-%d-%d-%d-%d' % (slots, pre, rot, ops, acts), 'h_queue.cpp', [], dict(MODE=0, SLOTS=slots, PRE=pre, ROT=rot, OPS=ops, ACTS=acts, PENDOK=1, W_FULL=full, W_TAKE=take, MAYRM=0), wraps=W, bounds='%d slots, %d boxes flushed and %d of them taken, then any %d of flush, filling flush, take; at every semaphore call up to %d actions of others (flush, take, first half of a take)' % (slots, pre, rot, ops, acts), timeout=800)
def tasks(tier):
    q = tier == 'quick'
    t = [mk(3, 0, 0, 2, 2), mk(2, 1, 1, 2, 2), mk(3, 2, 1, 2, 2), mk(3, 2, 0, 2, 2), mk(1, 0, 0, 2, 1, take=0)]
    t += [P('sizes-%d' % b, 'h_queue.cpp', [], dict(MODE=2, BS=b, SLOTS=4, PENDOK=1, ACTS=0), wraps=W, bounds='three records of every size up to %d in boxes of %d bytes' % (b + 2, b)) for b in ((4,) if q else (2, 4, 7))]
    return t if q else t + [mk(3, 0, 0, 3, 3), mk(4, 3, 2, 3, 2), mk(3, 2, 1, 3, 3)]
