from path import P
ASSUMPTIONS = ['the internal buffer of 32768 bytes is scaled to 8', 'formatting itself is the C library (replaced by a model of vsnprintf over these formats); a text it cannot format is outside', 'the formatted text has no NUL', 'allocation succeeds']
def mk(fn, fmt, mx, had=2, huge=0, lo=0, far=0):
    nm = ('strprintf', 'strappend', 'strnappend', 'strnprintf')[fn]
    return P('%s-%d-%d-%d%s%s' % (nm, fmt, lo, mx, '-huge' if huge else '', '-far' if far else ''), 'h_fmt.cpp', ['coda/string.cpp'], dict(FN=fn, FMT=fmt, MAX=mx, HAD=had, HUGE_=huge, LO=lo, **(dict(FARPOS=None) if far else {})), cdefs=dict(VP_STRCAP=mx + 8), subs=((r'\b32768\b', '8'),),
             bounds='coda_%s with %s, %d to %d symbolic characters (internal buffer scaled to 8), %s%s' % (nm, ('"%s"', '"%d%s%c"', '"%s%s%%%u"')[fmt], lo, mx, 'onto a string of up to %d bytes' % had if fn else 'as a string', (', bound ' + ('2^31-1 to the largest' if huge else '0 to %d' % (mx + 6)) if fn > 1 else '') + (', every position to %s' % ('the largest' if far else had + 2) if fn == 3 else '')), timeout=800)
def tasks(tier):
    q = tier == 'quick'; m = 11 if q else 20
    t = [mk(0, f, m, 0) for f in (0, 1, 2)] + [mk(1, f, m) for f in (0, 1, 2)] + [mk(2, f, m) for f in (0, 1, 2)] + [mk(3, f, m) for f in (0, 1, 2)]
    t += [mk(2, 0, 10, 1, 1), mk(2, 1, 10, 1, 1), mk(3, 1, 10, 1, 1), mk(3, 0, 9, 1, 0, 0, 1)]
    if not q: t += [mk(2, 1, 34, 1), mk(3, 1, 34, 3)]
    return t
