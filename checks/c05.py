import lia
from lia import z3, K, V
from checks.b58 import *
from checks.c04 import cap_body, alloc_body, bound, replay as enc_replay
ASSUMPTIONS = ['texts up to the stated length, every byte value 0..255 in every position', 'the working buffer allocation may fail where stated', 'the code is executed over integers with exact wrap-around (engine E2); that an integer has one representation by digits below the base is used as a fact']
def text_pool(n):
    import random
    r = random.Random(2); out = [[ord(AL[d]) for d in v] for v in pool(n, 58, 256)]
    for v in list(out[:40]):
        for i in range(n): w = list(v); w[i] = r.choice([0, 48, 73, 79, 108, 255, 128, 200]); out.append(w)
    return out
def oracle_decode(x, st, o, ret, cs, r):
    """cs: the characters; o: output object; ret: the result"""
    D = [x.lookup(c, INV) for c in cs]
    def valid(i):
        if i == len(D):
            x.must(x.cmp('le', K(0), ret), 'valid text refused'); rc = ret.const(); x.must(rc is not None, 'result not decided by the path')
            bytes_ok(x, o, rc, [V(d.l, d.c, max(0, d.lo), d.hi) for d in D], 'decoding'); x.seen.add('valid'); return
        c = x.cmp('le', K(0), D[i])
        for cc, f in ((c, lambda: valid(i + 1)), (x.neg(c), lambda: invalid(i))):
            if cc is False or not x.feasible(cc): continue
            p = x.pool, x.eqs; x.sol.push(); x.scope.append([]); x.assume(cc)
            try: f()
            finally:
                for q in x.scope.pop(): x.ddiv.pop(q, None)
                x.sol.pop(); x.pool, x.eqs = p
    def invalid(i): x.must(x.cmp('eq', ret, K(-1 - i)), 'failure value is not the position of the first invalid character'); x.seen.add('invalid')
    valid(0)
def dec_body(n, oom=False, alloc=False):
    def run(x):
        cs = [x.input('c%d' % i, 0, 255) for i in range(n)]; x.candidates(text_pool(n)); st = x.base; x.scope = [[]]; i = buf(x, st, cs, 'the text'); cap = n * 733 // 1000 + n + 1 if False else max_out(n)
        b = x.new(st, 8 if alloc else cap, 'the result pointer' if alloc else 'the output')
        def done(st, ret):
            ret = x.norm(ret, 64, True)
            if not alloc: x.must(not st.info.get('live'), 'memory not released')
            if st.info.get('failed'):
                x.seen.add('no memory'); 
                if not alloc: x.must(x.cmp('lt', ret, K(0)), 'success without memory')
                else: p = st.mem[b.o].cells[0][1]; x.must(p.o is None and not st.info.get('live'), 'result or leak without memory')
                return
            if alloc:
                p = st.mem[b.o].cells[0][1]; neg = ret.hi < 0
                if p.o is None: x.must(x.cmp('lt', ret, K(0)), 'no result although it succeeded'); x.must(not st.info.get('live'), 'memory not released'); o = None
                else: x.must(x.cmp('le', K(0), ret), 'result although it failed'); x.must(st.info.get('live') == (p.o,), 'memory not released'); o = st.mem[p.o]
            else: o = st.mem[b.o]
            oracle_decode(x, st, o, ret, cs, ret)
            if x.pool: x.sample = {'c%d' % i: x.cv(v, x.pool[-1]) for i, v in enumerate(cs)}
        if alloc: x.run(st, 'h_decode_alloc', [i, K(n), b], done)
        else: x.run(st, 'h_decode', [i, K(n), b], done)
    return run
def max_out(n): return n  # one byte per leading 1, fewer for the rest
def replay(t, n, alloc):
    def go(R, m):
        c = bytes(m.get('c%d' % i, 49) for i in range(n)); pos, b = dec(c)
        a = ['da', c.hex()] if alloc else ['dec', str(n), c.hex()]
        rc, o, e = t.execute(R, 'l_base58_main.c', a, 1)
        if rc != 0: return True, 'exit %s %s' % (rc, e[:6000])
        if pos is not None: bad = int(o.split()[0]) != -1 - pos or (alloc and o.split()[1] != '0'); return bad, '%r gives %s, expected failure at %d' % (c, o.strip(), pos)
        w = '%d 1 %s' % (len(b), b.hex()) if alloc else '%d %s' % (len(b), (b + b'\xee' * n)[:n].hex())
        return o.strip() != w.strip(), '%r gives %s, expected %s' % (c, o.strip(), w)
    return go
def tasks(tier):
    q = tier == 'quick'; ts = []
    def mk(nm, body, n, alloc, b, oom=False, wit=()): t = lia.Task(nm, ['l_base58.c', 'coda/base58.c'], body, None, b, timeout=700 if q else 3000, oom=oom, witness=wit); t.replayf = replay(t, n, alloc); ts.append(t)
    for n in ((0, 1, 2, 3, 5, 8, 10, 12) if q else tuple(range(0, 17)) + (20, 24, 28, 32, 44)): mk('decode-%d' % n, dec_body(n), n, False, 'every text of %d bytes' % n, wit=('valid', 'invalid') if n else ())
    for n in ((1, 3) if q else range(1, 8)): mk('decode-nomem-%d' % n, dec_body(n, True), n, False, 'every text of %d bytes, allocation succeeds or fails' % n, True, ('no memory',))
    for n in ((0, 1, 2, 4) if q else range(0, 12)): mk('alloc-%d' % n, dec_body(n, True, True), n, True, 'every text of %d bytes, allocating decoder, each allocation succeeds or fails' % n, True, ('valid', 'no memory'))
    for n, c in (((2, 2), (4, 6), (4, 0)) if q else [(n, c) for n in range(0, 7) for c in range(0, bound(n) + 1)]):
        t = lia.Task('encode-capacity-%d-%d' % (n, c), ['l_base58.c', 'coda/base58.c'], cap_body(n, c), None, 'every %d bytes into %d bytes of output' % (n, c), witness=('number',)); t.replayf = enc_replay(t, n, c); ts.append(t)
    for n in ((3,) if q else range(0, 8)):
        t = lia.Task('encode-alloc-%d' % n, ['l_base58.c', 'coda/base58.c'], alloc_body(n), None, 'every %d bytes, allocating encoder' % n, witness=('number',)); t.replayf = enc_replay(t, n, None); ts.append(t)
    return ts
