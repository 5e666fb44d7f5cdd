from core import T
ASSUMPTIONS = ['element types char, unsigned short, int, long, float and double', 'value 0 has no defined bucket']
def tasks(tier):
    q = tier == 'quick'
    ty = [('char', 'char'), ('uchar', 'unsigned char'), ('short', 'short int'), ('ushort', 'unsigned short int'), ('int', 'int'), ('uint', 'unsigned int'), ('long', 'long int'), ('ulong', 'unsigned long int'), ('float', 'float'), ('double', 'double')]
    ns = {'int': (1, 2, 8, 20), 'ulong': (1, 8, 33, 64, 70)} if q else {}
    return [T('%s-%d' % (nm, n), 'h_log.cpp', [], dict(TY=t, N=n), unwind=max(n, 66) + 1, bounds='%d buckets of %s, every value, every content' % (n, t)) for nm, t in ty for n in ns.get(nm, (8,) if q else (1, 2, 3, 5, 8, 16, 32, 63, 64, 65, 80))]
