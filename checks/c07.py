from core import T
ASSUMPTIONS = ['the destination has at least one byte', 'results within a few bytes of the capacity may be cut at a whole piece', '%u escapes other than four hex digits below U+0800 are only checked for memory safety and termination']
FN = [('escape', 'coda_url_escape', 3), ('unescape', 'coda_url_unescape', 3), ('preunescape', 'coda_url_preunescape', 5)]
def tasks(tier):
    q = tier == 'quick'; ts = []
    for k, (nm, fn, mg) in enumerate(FN):
        for n, cap in ([(0, 1), (1, 1), (1, 2), (2, 3), (3, 4), (4, 5), (4, 6), (4, 8), (4, 12), (6, 7), (6, 12)] + {'escape': [(2, 4), (2, 5)], 'unescape': [(6, 2), (6, 3), (7, 3), (7, 4)], 'preunescape': [(5, 6), (6, 8)]}[nm] if q else [(n, c) for n in range(0, 9) for c in (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 24)]):
            ts.append(T('%s-n%d-c%d' % (nm, n, cap), 'h_urlesc.cpp', ['coda/url.cpp'], dict(FN=k, N=n, CAP=cap, FUN=fn, MARGIN=mg), unwind=max(4 * n + 6, cap + 2, 9), uw={'coda_url': n, 'vp_strto.0': 1, 'vp_strto.1': max(3, n)}, bounds='every text of %d bytes, capacity %d' % (n, cap)))
    return ts
