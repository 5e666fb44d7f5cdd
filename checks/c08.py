from core import T
ASSUMPTIONS = ['std::string and std::map are fixed-capacity models on the solver side']
def tasks(tier):
    q = tier == 'quick'; ts = []
    for mode in (0, 1):
        for c in (0, 1):
            for n in (([0, 2, 4] if c else [0, 1, 2, 3, 4] + [5] * mode) if q else range(0, 8)):
                k = (n + 1) // (2 + mode) + 1
                ts.append(T('%s-%s-%d' % (('query', 'header')[mode], ('buf', 'text')[c], n), 'h_params.cpp', ['coda/url.cpp', 'coda/string.c'], dict(MODE=mode, N=n, CSTR=c), unwind=n + 3, cdefs=dict(VP_STRCAP=n + 1, VP_MAPCAP=k + 1), bounds='every %s of %d bytes' % (('query string', 'header block')[mode], n)))
    return ts
