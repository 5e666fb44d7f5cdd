from checks.c31 import sysm, S
ASSUMPTIONS = ['a creation succeeds, reports that the directory exists, or fails with any other error number up to 133']
def tasks(tier): return [sysm('path%d' % n, 'MKPATH', S, 'every path text of up to %d bytes in a block of exactly its size, every outcome of every creation' % n, PLEN=n, timeout=840) for n in ((7,) if tier == 'quick' else (9, 10))]
