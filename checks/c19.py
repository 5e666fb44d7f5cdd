from path import P as T
ASSUMPTIONS = ['up to three stores of new keys followed by the stated number of arbitrary operations on up to three keys', 'element sizes are 0..255 and the limit is 100 (or 0..255 without a prefix of stores); the clock does not run backwards', 'std::unordered_map is the model in models/cxx (one cell per insertion, poisoned when erased)']
def mk(n, timed, small, keys=3, pre=0, sizes='0'):
    return T('ops%d-k%d%s%s%s' % (n, keys, '-life' if timed else '', '-limit' if small else '', '-after' + sizes.replace(',', '_') if pre else ''), 'h_cache.cpp', ['coda/string.cpp', 'coda/random.c'], dict(NOPS=n, TIMED=timed, SMALL=small, KEYS=keys, PRE=pre, PSIZES=sizes), unwind=max(n + keys, 8) + 1, cdefs=dict(VP_MAPCAP=n + pre), wraps=['time'], bounds='%s%d operations (store, store and refresh, pointer lookup, copying lookup, erase) on %d keys, every element size and %s' % ('%d stores of new keys, then ' % pre if pre else '', n, keys, 'limit up to 255' if small else 'no effective limit'), timeout=800)
def tasks(tier):
    q = tier == 'quick'
    return [mk(n, 0, 1, 3, p, s) for n in ((2,) if q else (2, 3)) for p, s in ((1, '40'), (2, '0,70'), (2, '60,20'), (3, '10,20,30'), (3, '50,0,50'))] + [mk(2, 1, 1, 2, 2, '60,20')] + ([] if q else [mk(n, 0, 1) for n in (3, 4, 5)])
