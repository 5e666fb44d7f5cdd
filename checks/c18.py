from core import T
ASSUMPTIONS = ['the alphabet is not empty', 'open, read, close, random and srandom are replaced by stubs whose results are symbolic']
def tasks(tier):
    q = tier == 'quick'; ts = []
    W = ['random', 'srandom', 'open', 'read', 'close']
    for n, a in ([(0, 1), (1, 1), (2, 3), (4, 2), (1, 62)] if q else [(n, a) for n in range(0, 9) for a in (1, 2, 3, 5, 7, 16, 62, 255)]):
        ts.append(T('string-%d-%d' % (n, a), 'h_random.cpp', ['coda/string.cpp', 'coda/random.c'], dict(MODE=0, NLEN=n, ALEN=a), unwind=max(n, a, 8) + 3, wraps=W, bounds='size %d, every alphabet of %d characters, every generator result' % (n, a)))
    ts.append(T('init', 'h_random.cpp', ['coda/random.c'], dict(MODE=1), unwind=10, cdefs=dict(VP_GHOST=1), wraps=W, bounds='two calls, every outcome of open, read (short, failed, complete) and close'))
    return ts
