from core import T
ASSUMPTIONS = ['C locale: only ASCII letters fold', 'alphabets are NUL-terminated texts']
def tasks(tier):
    q = tier == 'quick'; ts = []
    for fn, zt, ic, rev, comp in [('strispn',1,1,0,0),('strnspn',0,0,0,0),('strxspn',0,1,0,0),('revnspn',0,0,1,0),('revxspn',0,1,1,0),
                                  ('strispc',1,1,0,1),('strnspc',0,0,0,1),('strxspc',0,1,0,1),('revnspc',0,0,1,1),('revxspc',0,1,1,1)]:
        for n in ((0, 1, 2, 4, 6) if q else range(0, 11)):
            for m in ((0, 1, 2) if q else range(0, 4)):
                if zt and n == 0: continue
                ts.append(T('%s-n%d-m%d' % (fn, n, m), 'h_span.c', ['coda/string.c'], dict(FN=fn, N=n, M=m, ZT=zt, ICASE=ic, REV=rev, COMP=comp), unwind=max(n, m) + 3,
                    bounds='%s: every text of exactly %d bytes, every alphabet of %d non-NUL bytes' % (fn, n, m)))
    return ts
