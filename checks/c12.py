from core import T
ASSUMPTIONS = ['C locale: only ASCII letters fold', 'needles are NUL-terminated texts']
NAMES = ['strnchr', 'strxchr', 'revnchr', 'revxchr', 'strnchp', 'strxchp', 'stristr', 'strnstr', 'strxstr']
def tasks(tier):
    q = tier == 'quick'; ts = []
    for fn in range(9):
        if fn < 6: sz = [(n, 0) for n in ((0, 1, 2, 5) if q else (0, 1, 2, 3, 4, 5, 6, 8, 12, 16))]
        else: sz = [(n, m) for n in ((0, 1, 2, 4, 5) if q else range(0, 9)) for m in ((0, 1, 2, 3) if q else range(0, 5))]
        for n, m in sz:
            if fn == 6 and n == 0: continue
            ts.append(T('%s-n%d-m%d' % (NAMES[fn], n, m), 'h_search.c', ['coda/string.c'], dict(FN=fn, N=n, M=m), unwind=max(n, m) + 3,
                bounds='%s: every haystack of exactly %d bytes, every needle of %d non-NUL bytes' % (NAMES[fn], n, m)))
    return ts
