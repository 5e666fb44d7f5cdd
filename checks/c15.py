from core import T
ASSUMPTIONS = ['texts contain no NUL before their end', 'items mixing digits with other characters, signs and blanks inside numeric sets are unspecified', 'std::string, vector and set are fixed-capacity models on the solver side; counterexamples are replayed with libstdc++']
def tasks(tier):
    q = tier == 'quick'; ts = []
    for sz in (0, 1):
        for ign in (0, 1):
            for n, m in ([(0, 1), (1, 1), (3, 0), (3, 2), (5, 1)] if q else [(n, m) for n in range(0, 8) for m in (0, 1, 2, 3)]):
                ts.append(T('split-s%d-i%d-n%d-m%d' % (sz, ign, n, m), 'h_split.cpp', ['coda/string.cpp'], dict(MODE=0, N=n, M=m, SIZED=sz, IGN=ign), unwind=n + 4, cdefs=dict(VP_STRCAP=n + 1, VP_VECCAP=n + 2),
                    bounds='every text of %d bytes, every set of %d delimiters' % (n, m)))
    for n in ((0, 1, 2, 4) if q else range(0, 7)):
        ts.append(T('stringset-%d' % n, 'h_split.cpp', ['coda/string.cpp'], dict(MODE=1, N=n), unwind=n + 5, cdefs=dict(VP_STRCAP=n + 2, VP_MAPCAP=n + 2), bounds='every text of %d bytes' % n))
    for n in ((0, 1, 3, 4) if q else range(0, 7)):
        ts.append(T('uint64set-%d' % n, 'h_split.cpp', ['coda/string.cpp'], dict(MODE=2, N=n), unwind=n + 5, cdefs=dict(VP_STRCAP=n + 2, VP_MAPCAP=n + 2), bounds='every text of %d digits, letters and commas' % n))
    for n in ((0, 1, 2, 4, 6) if q else range(0, 11)):
        ts.append(T('words-%d' % n, 'h_split.cpp', ['coda/easy_parsing.cpp'], dict(MODE=3, N=n), unwind=n + 6, bounds='every text of %d bytes' % n))
    return ts
