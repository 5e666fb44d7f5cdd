from path import P
ASSUMPTIONS = ['keys are 256 multiples of 2^32+1; values distinct per operation; element type unsigned', 'one process at a time (the lock is C25)']
W = 'ftok semget semctl semop semtimedop shmget shmat shmdt'.split()
def mk(obj, hash, pre, nops, batch=0, **w):
    d = dict(OBJ=obj, HASH=hash, PRE='"%s"' % pre, NOPS=nops, BATCH=batch, W_FULL=0, W_REUSE=0, W_NOUPD=0, W_NOEMPTY=0); d.update(w)
    return P('m%d-%d-%s%d%s' % (obj, hash, pre, nops, 'b' if batch else ''), 'h_map.cpp', [], d, wraps=W, bounds='capacity %d, %d buckets; history %s, then %d operations (insert, erase, clear%s) with any keys' % (obj, hash, pre or 'empty', nops, ', batches of two' if batch else ''), timeout=800)
def tasks(tier):
    q = tier == 'quick'
    t = [mk(2, 1, '', 2), mk(2, 1, '01', 3, W_FULL=1, W_REUSE=1), mk(3, 1, '012b', 2, W_REUSE=1), mk(3, 2, '0213', 2, W_NOEMPTY=1 if 0 else 0), mk(3, 2, '024ac', 2, W_REUSE=1), mk(2, 1, '0', 1, 1, W_NOUPD=1), mk(3, 3, '013', 2)]
    return t if q else t + [mk(2, 1, '', 4), mk(3, 2, '', 3), mk(4, 2, '0246ce', 2, W_REUSE=1), mk(4, 3, '0369', 2), mk(3, 1, '012abc', 3, W_REUSE=1), mk(3, 2, '021b', 3), mk(2, 1, '01', 2, 1), mk(3, 2, '02', 2, 1), mk(5, 2, '01234db56', 2)]
