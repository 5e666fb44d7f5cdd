from path import P
ASSUMPTIONS = ['only slots that are allocated are freed', 'one process at a time (the callers hold a lock, see C25)']
def mk(n, ops, pre='', who=0, full=1): return P('n%d-%s%d%s' % (n, pre, ops, 'w' if who else ''), 'h_pool.cpp', [], dict(MODE=0, N=n, OPS=ops, PRE='"%s"' % pre, WHO=who, W_FULL=full), bounds='capacity %d; history %s, then %d operations (allocate, free any allocated slot, clear)%s, then everything allocated' % (n, pre or 'empty', ops, ' through either of two attached objects' if who else ''), timeout=800)
def tasks(tier):
    q = tier == 'quick'
    m = [P('mismatch-%d' % n, 'h_pool.cpp', [], dict(MODE=1, N=n), bounds='capacity %d, every fill level and one freed slot; attaching with capacity %d or another element size' % (n, n + 1)) for n in ((1, 3) if q else (1, 2, 3, 4))]
    t = [mk(1, 5), mk(2, 5), mk(3, 5), mk(3, 4, 'aa1a'), mk(4, 4, 'aaaa20', full=0), mk(2, 4, who=1), mk(5, 3, 'aaaaa041', full=0)]
    return m + (t if q else t + [mk(1, 9), mk(2, 7), mk(3, 7), mk(4, 6), mk(4, 5, 'aaaa31'), mk(2, 5, who=1), mk(5, 5, 'aaaaa2'), mk(8, 3, 'aaaaaaaa7605', full=0)])
