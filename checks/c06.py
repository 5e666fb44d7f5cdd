from core import T
ASSUMPTIONS = ['the value of an escape with a non-hexadecimal digit is unspecified (its length is not)', 'std::string is a fixed-capacity model on the solver side']
def tasks(tier):
    q = tier == 'quick'; ts = []
    for n in ([0, 1, 2, 3] if q else range(0, 7)):
        for v in (0, 1, 2):
            ts.append(T('encode-%s-%d' % (('noplus', 'string', 'buffer')[v], n), 'h_urlenc.cpp', ['coda/url.cpp'], dict(MODE=0, PLUS=v, N=n), unwind=3 * n + 3, cdefs=dict(VP_STRCAP=3 * n + 1), bounds='every string of %d bytes' % n))
    for n in ([0, 1, 2, 3, 4, 5] if q else range(0, 11)):
        for v in (0, 1):
            ts.append(T('decode-%s-%d' % (('buffer', 'string')[v], n), 'h_urlenc.cpp', ['coda/url.cpp'], dict(MODE=1, PLUS=v, N=n), unwind=n + 4, cdefs=dict(VP_STRCAP=n + 1), bounds='every string of %d bytes' % n))
    for n in ([0, 1, 2] if q else range(0, 5)):
        ts.append(T('agree-%d' % n, 'h_urlenc.cpp', ['coda/url.cpp'], dict(MODE=2, PLUS=0, N=n), unwind=3 * n + 3, cdefs=dict(VP_STRCAP=3 * n + 1), bounds='every string of %d bytes' % n))
    return ts
