from core import T
ASSUMPTIONS = ['values that do not fit the result type, and empty octets, are unspecified', 'htonl is byte reversal']
def tasks(tier):
    q = tier == 'quick'; ts = []
    for n in ([0, 1, 2, 3, 5, 10, 20] if q else range(0, 23)):
        ts.append(T('atou-%d' % n, 'h_num.c', [], dict(MODE=0, N=n), unwind=n + 24, solver="cadical", bounds='every %d-byte text' % n))
    for n in ([0, 1, 2, 3, 5, 8, 12] if q else range(0, 22)):
        for g in ((0, 1) if n else (0,)):
            ts.append(T('atoi-%d-%d' % (n, g), 'h_num.c', [], dict(MODE=1, N=n, NEG=g), unwind=n + 24, solver='cadical', bounds='every %d-byte text %s' % (n, 'starting with -' if g else 'not starting with -')))
    for n in ([0, 1, 6, 7, 8, 11, 15, 16] if q else range(0, 19)):
        ts.append(T('inet-%d' % n, 'h_num.c', [], dict(MODE=2, N=n, LONGF=0), unwind=n + 4, bounds='every %d-byte text' % n))
    for n in ([26] if q else range(19, 30)):
        ts.append(T('inet-long-%d' % n, 'h_num.c', [], dict(MODE=2, N=n, LONGF=1), unwind=n + 4, bounds='every %d-byte text that starts with %d digits' % (n, n - 6)))
    return ts
