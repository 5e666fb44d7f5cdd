import itertools
from core import T
ASSUMPTIONS = ['precomposed letters and their bases come from the Unicode composition tables (harness/viet_table.h); U+00D0 and U+00F0 count as variants of U+0110 and U+0111', 'over-long encodings are unspecified beyond memory safety and length']
def tasks(tier):
    q = tier == 'quick'; ts = []
    L = [(1,), (2,), (3,), (4,), (1, 3), (2, 1), (2, 2)] if q else [l for k in (1, 2, 3) for l in itertools.product((1, 2, 3, 4), repeat=k)]
    for l in L:
        ts.append(T('chars-' + ''.join(map(str, l)), 'h_viet.cpp', ['coda/vietnam.cpp'], dict(MODE=0, LENS=','.join(map(str, l))), unwind=sum(l) + 2, cdefs=dict(VP_GHOST=1), bounds='every text of characters of %s bytes' % (l,)))
    for n in ([0, 1, 2, 3, 4] if q else range(0, 10)):
        ts.append(T('bytes-%d' % n, 'h_viet.cpp', ['coda/vietnam.cpp'], dict(MODE=1, N=n), unwind=n + 2, cdefs=dict(VP_GHOST=1), bounds='every string of %d bytes' % n))
    return ts
