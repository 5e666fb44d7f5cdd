from path import P as T
from checks.c19 import mk
ASSUMPTIONS = ['operations up to the stated count on two or three keys', 'lifetime 0..199 seconds, clock advances 0..255 seconds before each operation and never backwards', 'std::unordered_map is the model in models/cxx']
def tasks(tier):
    q = tier == 'quick'
    return [mk(2, 1, 0, 3, p, '1,1,1') for p in (1, 2, 3)] + [mk(2, 1, 1, 2, 2, '60,20'), mk(2, 1, 0, 2, 2, '1,1')] + ([] if q else [mk(n, 1, 0, 2) for n in (3, 4, 5)] + [mk(3, 1, 1, 3, 2, '60,20')])
