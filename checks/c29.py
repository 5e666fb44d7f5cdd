from path import P
ASSUMPTIONS = ['the other processes follow the same protocol and the semaphores behave as semop(2) says; new sets are zero', 'a process that dies between creating the semaphores and setting them is outside the check', 'at most two failing calls per connection or operation sequence', 'queues below 4 GiB; memory for the box is available']
W = 'ftok semget semctl semop semtimedop shmget shmat shmdt'.split()
NAMES = ['nothing exists', 'the same queue exists', 'a queue with another box size exists', 'a queue with more boxes exists', 'the segment is smaller than asked for']
def mk(state, tries, ops, faults=0, rm=0): return P('s%d-%d-%d%s%s' % (state, tries, ops, 'f' if faults else '', 'r' if rm else ''), 'h_queue.cpp', [], dict(MODE=1, SLOTS=3, STATE=state, TRY=tries, OPS=ops, FAULTS=faults, MAYRM=rm), wraps=W, bounds='%s; connections in turn, any call failing in the first %d, others creating, holding and releasing at every call; then %d operations (flush, unflush, registers, counts)%s%s' % (NAMES[state], tries, ops, ' with interrupted calls' if faults else '', ', semaphores removed at any point' if rm else ''), timeout=800)
def tasks(tier):
    q = tier == 'quick'
    t = [mk(0, 1, 0), mk(1, 1, 0), mk(2, 1, 0), mk(3, 1, 0), mk(4, 1, 0), mk(1, 0, 1, 1), mk(1, 0, 1, 1, 1), mk(0, 1, 0, 0, 1)]
    return t if q else t + [mk(1, 0, 2, 1)]
