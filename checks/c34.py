from checks.c31 import sysm, S, every
ASSUMPTIONS = ['descriptors as for C31; a mapping of no bytes fails']
def tasks(tier): return [sysm('mmap', 'MMAP', S, every + ', every size, file length and protection, flags 0..255, with and without a file', timeout=840)]
