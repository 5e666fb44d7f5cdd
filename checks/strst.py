"""Shared by C21 and C22: string storage on engine E2.  A key is a list of ints (concrete bytes) and None (symbolic bytes, 0 included)."""
import lia
from lia import K, V
def body(keys, ud, prop, nz=False):
    """keys: the added ones and, last, the probe"""
    kl = max(len(k) for k in keys) + 1; n = len(keys) - 1
    def run(x):
        st = x.base; x.scope = [[]]; b = x.new(st, kl * len(keys), 'the keys'); ks = []
        for j, k in enumerate(keys):
            t = []
            for i, c in enumerate(k): v = K(c) if c is not None else x.small('k%d_%d' % (j, i), 1 if nz else 0, 255); t.append(v)
            t += [K(0)] * (kl - len(t)); ks.append(t)
            for i, v in enumerate(t): st.mem[b.o].cells[j * kl + i] = (1, v)
        r, ek, ev = x.new(st, 16 * n + 8, 'results'), x.new(st, 40 * kl, 'keys found'), x.new(st, 160, 'slots found')
        def done(st, ret):
            x.must(not st.info.get('live'), 'memory not released')
            def g(k):
                v = x.norm(x.cell(st.mem[r.o], 4 * k, 4), 32, True); x.must(not v.l, 'result not decided by the path'); return v.c
            def f(dec):
                T = []
                for t in ks:
                    w = []
                    for c in t:
                        if dec(x.cmp('eq', c, K(0))): break
                        w.append(c)
                    T.append(w)
                eq = lambda a, b: len(a) == len(b) and all(dec(x.cmp('eq', p, q)) for p, q in zip(a, b))
                ok = [len(t) + 2 + ud <= 4096 for t in T]; first = [next(i for i in range(j + 1) if eq(T[i], T[j])) if ok[j] else -1 for j in range(n)]
                if prop == 'C21':
                    for j in range(n):
                        x.must(g(4 * j) == first[j], 'same string, other slot' if g(4 * j) == j else 'string refused' if g(4 * j) == -1 else 'different strings share a slot' if ok[j] else 'string that does not fit accepted')
                        if first[j] == j: x.must(g(4 * j + 1) == 1, 'new slot is not zero')
                        if ok[j]: x.must(g(4 * j + 2) == max(i for i in range(n) if first[i] == first[j]) + 1, 'slot content changed'); x.must(g(4 * j + 3) == 1, 'added string not found')
                    p = next((first[i] for i in range(n) if ok[i] and eq(T[i], T[n])), -1)
                    x.must(g(4 * n) == p, 'probe %s' % ('not found' if p >= 0 else 'found although never added')); x.seen.add('probe present' if p >= 0 else 'probe absent')
                    if len(set(first)) < n: x.seen.add('repeated')
                    else: x.seen.add('all different')
                else:
                    own = [j for j in range(n) if first[j] == j]; cnt = g(4 * n + 1); x.must(cnt == len(own), 'enumeration lists %d of %d strings' % (cnt, len(own))); seen = set()
                    for q in range(min(cnt, 40)):
                        v = x.norm(x.cell(st.mem[ev.o], 4 * q, 4), 32, True).c; x.must(v in own and v not in seen, 'slot enumerated twice, or not a slot'); seen.add(v)
                        if len(T[v]) <= 255:
                            for i, c in enumerate(T[v] + [K(0)]): x.equal(x.norm(x.cell(st.mem[ek.o], q * kl + i, 1), 8, False), c, 'enumerated under another key')
                            x.seen.add('key')
            x.explore(f); x.sample = x.example()
        x.run(st, 'h_strst', [b, K(kl), K(n), K(ud), r, ek, ev], done)
    return run
def replay(t, keys, ud, prop):
    kl = max(len(k) for k in keys) + 1; n = len(keys) - 1
    def go(R, m):
        ks = [bytes(c if c is not None else m.get('k%d_%d' % (j, i), 65) for i, c in enumerate(k)) for j, k in enumerate(keys)]; T = [k.split(b'\0')[0] for k in ks]
        rc, o, e = t.execute(R, 'l_strst_main.c', [str(kl), str(n), str(ud), b''.join(k.ljust(kl, b'\0') for k in ks).hex()], 1)
        if rc != 0: return True, 'exit %s %s' % (rc, e[:6000])
        p = o.split('|'); g = [int(v) for v in p[0].split()]; ok = [len(t) + 2 + ud <= 4096 for t in T]
        first = [min(i for i in range(j + 1) if T[i] == T[j]) if ok[j] else -1 for j in range(n)]; bad = []
        if prop == 'C21':
            for j in range(n):
                if g[4 * j] != first[j]: bad.append('add %r gives the slot of %s, expected %d' % (T[j], g[4 * j], first[j]))
                elif first[j] == j and g[4 * j + 1] != 1: bad.append('slot not zero')
                elif ok[j] and (g[4 * j + 2] != max(i for i in range(n) if first[i] == first[j]) + 1 or g[4 * j + 3] != 1): bad.append('slot of %r changed or not found' % T[j])
            w = next((first[i] for i in range(n) if ok[i] and T[i] == T[n]), -1)
            if g[4 * n] != w: bad.append('probe %r gives %d, expected %d' % (T[n], g[4 * n], w))
        else:
            own = [j for j in range(n) if first[j] == j]; en = [(int(q.split()[0]), bytes.fromhex(q.split()[1][:-1])) for q in p[1:]]
            if g[4 * n + 1] != len(own) or sorted(v for v, _ in en) != own: bad.append('enumerates slots %s, expected %s' % ([v for v, _ in en], own))
            else: bad += ['%r enumerated as %r' % (T[v], k) for v, k in en if len(T[v]) <= 255 and T[v] != k]
        return bool(bad), '%s: %s' % ([bytes(t[:40]) for t in T], '; '.join(bad))
    return go
S = lambda t: [ord(c) if c != '?' else None for c in t]
def shapes(tier):
    q = tier == 'quick'; b9, b12 = 'b' * 9, 'b' * 12
    yield 'flat-2', [S('??'), S('??'), S('??')], 3, 0
    yield 'flat-3', [S('?'), S('?'), S('?'), S('?')], 1, 0
    yield 'flat-3x2', [S('??'), S('?'), S('??'), S('?')], 2, 0
    yield 'near-8', [S('b' * 8 + '??'), S('b' * 8 + '??'), S('b' * 8 + '?')], 4, 0
    yield 'near-9', [S(b9 + '?'), S(b9 + '??'), S(b9 + '?'), S('?' + b9[1:])], 4, 0
    yield 'change-at-9', [S('b' * 8 + '?b'), S('b' * 8 + '?b'), S('b' * 8 + '?b'), S(b9)], 4, 0
    yield 'nested', [S(b9 + 'c' * 9 + '?'), S(b9 + 'c' * 9 + '?'), S(b9 + '?'), S(b9 + 'c' * 9 + '?')], 4, 0
    yield 'prefix-of', [S(b12), S('b' * 10 + '?'), S('b' * 11 + '??'), S('b' * 10 + '?')], 4, 0
    yield 'two-depths', [S(b12), S(b12 + 'c' * 15 + '?'), S('b' * 10 + 'c' * 11 + '?'), S(b12 + 'c' * 9 + '?'), S('b' * 10 + '?')], 4, 0
    yield 'two-depths-2', [S(b12), S('b' * 10 + 'c' * 10 + '?'), S('b' * 11 + 'c' * 10 + '?'), S('b' * 10 + 'c' * 10 + '?'), S('b' * 11 + 'c' * 10 + '?')], 4, 0
    yield 'two-depths-3', [S(b12), S('b' * 10 + '?' + 'c' * 10), S('b' * 11 + '?' + 'c' * 9), S('b' * 10 + '?' + 'c' * 10), S('b' * 11 + '?' + 'c' * 9)], 4, 0
    yield 'grow', [S('%c' % (98 + 2 * i)) for i in range(0, 34, 2)] + [S('?'), S('d')], 1, 0
    yield 'grow-36', [S('%c' % (40 + 5 * i)) for i in range(18)] + [S('%c' % (42 + 5 * i)) for i in range(17)] + [S('?'), S('|')], 1, 0
    yield 'grow-deep', [S('b' * 9 + '%c' % (40 + 5 * (11 * i % 36))) for i in range(36)] + [S('b' * 9 + '?'), S('b' * 9 + 'e')], 1, 0
    for L in (250, 255, 256, 264) if q else range(246, 270): yield 'long-%d' % L, [S('b' * L + '?'), S('b' * L + '?'), S('b' * (L - 1) + '?'), S('b' * L + '?')], 4, 1
    yield 'long-split', [S('b' * 300 + '1'), S('b' * 258 + 'c?'), S('b' * 300 + '?'), S('b' * 258 + '??')], 4, 1
    yield 'long-two', [S('b' * 200), S('b' * 200 + 'c' * 200), S('b' * 190 + 'c' * 66 + '?'), S('b' * 200 + 'c' * 56 + '?'), S('b' * 200 + 'c' * 57 + '?')], 4, 1
    for ud in (4089, 4090, 4091, 4094, 4095): yield 'full-%d' % ud, [S('????'), S('?'), S('??')], ud, 0
    yield 'blocks', [S('?'), S('?'), S('?'), S('?')], 2044, 0
    yield 'blocks-2', [S('?'), S('????'), S('?'), S('?')], 1361, 0
    yield 'blocks-edge', [S('??'), S('??'), S('?')], 2045, 0
    yield 'blocks-edge-3', [S('?'), S('??'), S('?'), S('?')], 1363, 0
    if not q:
        yield 'flat-4', [S('?'), S('?'), S('?'), S('?'), S('?')], 1, 0
        yield 'flat-3x3', [S('??'), S('??'), S('??'), S('?')], 2, 0
        yield 'deep', [S('b' * 9), S('b' * 18 + '?'), S('b' * 27 + '?'), S('b' * 20 + '?'), S('b' * 18 + '?')], 2, 0
        yield 'nested-4', [S(b9 + '?'), S(b9 + '?'), S(b9 + '?'), S(b9 + 'c?'), S(b9 + '?')], 2, 0
def tasks(tier, prop):
    ts = []
    for nm, keys, ud, lng in shapes(tier):
        if prop == 'C22' and (nm.startswith('full') and ud > 4091 or tier == 'quick' and nm in ('long-256', 'long-264', 'long-split')): continue
        ds = ['"%s"' % ''.join('?' if c is None else chr(c) for c in k) if len(k) < 30 else '%d characters' % len(k) for k in keys]
        t = lia.Task(nm, ['l_strst.c', 'coda/stringstorage.c'], body(keys, ud, prop, lng), None, 'keys %s (? any byte%s), looked up %s, %d bytes of data' % (' '.join(ds[:-1]), ' but 0' if lng else ', 0 ends the key', ds[-1], ud), timeout=700 if tier == 'quick' else 3000, witness=('probe absent',) if prop == 'C21' and nm not in ('full-4094', 'full-4095') else ())
        t.rsrcs = ['l_strst.c']; t.limit = 400000000; t.replayf = replay(t, keys, ud, prop); ts.append(t)
    return ts
