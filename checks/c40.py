from checks.c31 import sysm, S, every
ASSUMPTIONS = ['addresses are well-formed dotted decimals: every address of one-digit octets, and eight others; ports are decimal numbers below 65536', 'all error numbers below 256 other than EINTR are alike']
def tasks(tier):
    q = tier == 'quick'; t = []
    for m in ('LISTEN', 'CONNECT'):
        for np, h in ((5, 0), (4, 1)) if q else ((1, 0), (2, 0), (3, 0), (4, 0), (5, 0), (1, 1), (5, 1)):
            t.append(sysm('%s-%d%s' % (m.lower(), np, '-hosts' if h else ''), m, S, every + ', every port of %d digits, %s' % (np, 'eight addresses' if h else 'every address of one-digit octets'), NPORT=np, HOSTS=h))
    return t + [sysm('accept', 'ACCEPT', S, every + ', every peer address'), sysm('recv', 'RECV', S, 'up to %d interruptions, every other result' % (6 if q else 100), RCALLS=6 if q else 100)]
