from checks.c35 import dm
ASSUMPTIONS = ['getopt_long behaves as documented (a model in the harness; replays use the C library)', 'options come from a menu of nineteen arguments']
def tasks(tier): return [dm('options%d-%d' % (n, k), 4, 'every sequence of up to %d arguments out of %d' % (n, k), NARG=n, MENU=k) for n, k in (((2, 19), (3, 14)) if tier == 'quick' else ((3, 19), (4, 13)))] + [dm('start', 5, 'every failing step, detach and pid file or not'), dm('stop', 6, 'every failing step, pid file or not'), dm('detach', 7, 'every failing step, standard descriptors open or closed')]
