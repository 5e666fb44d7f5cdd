from path import P
ASSUMPTIONS = ['no other process creates the semaphores or the segment at the same time; a process that dies while it initialises the header is outside the check', 'new segments are zeroed (shmget(2))', 'a call denied once stays denied when it is repeated with IPC_CREAT']
W = 'ftok semget semctl semop semtimedop shmget shmat shmdt'.split()
def mk(state, obj, hash, tries, rm=0): return P('s%d-%d-%d-%d%s' % (state, obj, hash, tries, 'r' if rm else ''), 'h_mapconn.cpp', [], dict(STATE=state, OBJ=obj, HASH=hash, TRY=tries, MAYRM=rm), wraps=W, bounds='%s; capacity %d, %d buckets; three connections in turn, any call failing in the first %d%s' % (['nothing exists', 'a compatible map with any subset of 3 keys', 'a map with another capacity', 'a map with more buckets', 'a map of larger elements', 'a map with fewer buckets', 'a map of elements of 8 bytes, with nodes as large as ours', 'a map of elements of 2 bytes, with nodes as large as ours'][state], obj, hash, tries, ', semaphores removed at any point' if rm else ''), timeout=800)
def tasks(tier):
    q = tier == 'quick'
    t = [mk(0, 3, 2, 1), mk(1, 3, 2, 1), mk(2, 3, 2, 1), mk(3, 3, 2, 1), mk(4, 3, 2, 1), mk(5, 3, 2, 1), mk(6, 3, 2, 1), mk(7, 3, 2, 1), mk(1, 3, 2, 1, 1)]
    return t if q else t + [mk(0, 3, 2, 2), mk(1, 3, 2, 2), mk(0, 2, 300, 1)]
