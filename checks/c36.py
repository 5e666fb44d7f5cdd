from path import P
ASSUMPTIONS = ['the C library formats numbers as documented (a model of the used conversions; replays use the C library)', 'time fields: every month and day, hours 9 and 23, minutes 0, 5, 59, seconds 5 and 59, eight microsecond values', 'the C library converts the time to local time']
W = 'open close dup2 mkdir gettimeofday localtime_r time vfprintf fprintf fputs fputc fwrite fflush pthread_self'.split()
def lg(name, mode, bounds, **d): return P(name, 'h_logger.c', ['coda/logger.c', 'coda/system.c'], dict(MODE=mode, **d), wraps=W, rflags=['-U_FORTIFY_SOURCE'], bounds=bounds, timeout=800)
def tasks(tier):
    q = tier == 'quick'
    return [lg('levels', 1, 'every text of up to three bytes and every full name'), lg('open', 3, 'every failing step, paths of up to %d bytes, every level' % (5 if q else 8), PLEN=5 if q else 8)] + [lg('threshold', 2, 'every current level -1..9, every message level, every value printed below 256', TEXT=0, YEAR=2026)] + [lg('text%d' % y, 2, 'two levels, every time of the menu, year %d' % y, YEAR=y, TEXT=1) for y in ((2026,) if q else (1970, 2026, 9999))]
