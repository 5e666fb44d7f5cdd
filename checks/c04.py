import lia
from core import T
from lia import z3, K
from checks.b58 import *
ASSUMPTIONS = ['inputs up to the stated length', 'calloc and malloc succeed', 'the code is executed over integers with exact wrap-around (engine E2); that an integer has one representation by digits below the base is used as a fact']
def bound(n): return n * 138 // 100 + 2
def round_body(n):
    def run(x):
        bs = [x.input('b%d' % i, 0, 255) for i in range(n)]; x.candidates(pool(n, 256, 58)); st = x.base; x.scope = [[]]; i = buf(x, st, bs, 'the input'); t = x.new(st, bound(n) + n, 'the text'); b = x.new(st, n, 'the decoded bytes')
        def done(st, ret):
            o = st.mem[t.o]; L = next((k for k in range(o.size) if k in o.cells and o.cells[k][1].const() == 0), None)
            x.must(L is not None, 'terminator missing'); text_ok(x, o, L, bs, 'encoding')
            x.must(x.cmp('eq', x.norm(ret, 64, True), K(n)), 'decoded length'); x.must(not st.info.get('live'), 'memory not released')
            bk = [byte(x, st.mem[b.o], k) for k in range(n)]
            for v in bk: x.must(z3.And(x.z(v) >= 0, x.z(v) <= 255), 'byte range')
            x.must(x.same(number(x, bk, 256), number(x, bs, 256)), 'decoding does not return the bytes'); sample(x, ['b%d' % i for i in range(n)], bs)
        x.run(st, 'h_round', [i, K(n), t, K(bound(n) + n), b], done)
    return run
def cap_body(n, cap):
    def run(x):
        bs = [x.input('b%d' % i, 0, 255) for i in range(n)]; x.candidates(pool(n, 256, 58)); st = x.base; x.scope = [[]]; i = buf(x, st, bs, 'the input'); t = x.new(st, cap, 'an output of %d bytes' % cap)
        def done(st, ret):
            o = st.mem[t.o]; x.must(not st.info.get('live'), 'memory not released'); x.seen.add('number')
            L = next((k for k in range(cap) if k not in o.cells or o.cells[k][1].const() == 0), cap); x.must(L == cap or L in o.cells, 'neither full nor terminated')
            if L < cap: text_ok(x, o, L, bs, 'encoding')
            else: # the first cap characters: the number without its last digits
                D = [x.lookup(byte(x, o, k), INV) for k in range(cap)]
                def cont(z):
                    for k in range(min(z, cap)): x.must(x.cmp('eq', D[k], K(0)), 'leading 1 missing')
                    if cap <= z: return
                    P = number(x, D[z:], 58); N = number(x, bs[z:], 256); x.must(x.cmp('lt', K(0), D[z]), 'not minimal')
                    ok = [z3.And(x.z(P) * 58 ** m <= x.z(N), x.z(N) < (x.z(P) + 1) * 58 ** m) for m in range(0, bound(n) + 1)]
                    x.must(z3.Or(ok), 'not a prefix of the encoding')
                split(x, None, bs, 0, cont)
            sample(x, ['b%d' % i for i in range(n)], bs)
        x.run(st, 'h_encode', [i, K(n), t, K(cap)], done)
    return run
def alloc_body(n):
    def run(x):
        bs = [x.input('b%d' % i, 0, 255) for i in range(n)]; x.candidates(pool(n, 256, 58)); st = x.base; x.scope = [[]]; i = buf(x, st, bs, 'the input'); pp = x.new(st, 8, 'the result pointer')
        def done(st, ret):
            p = st.mem[pp.o].cells[0][1]; x.must(isinstance(p, lia.Ptr) and p.o is not None and st.info.get('live') == (p.o,), 'memory not released, or no result'); o = st.mem[p.o]
            L = next((k for k in range(o.size) if k in o.cells and o.cells[k][1].const() == 0), None); x.must(L is not None, 'terminator missing'); text_ok(x, o, L, bs, 'encoding')
            sample(x, ['b%d' % i for i in range(n)], bs)
        x.run(st, 'h_encode_alloc', [i, K(n), pp], done)
    return run
def replay(t, n, cap):
    def go(R, m):
        b = bytes(m.get('b%d' % i, 0) for i in range(n)); w = enc(b)
        if cap is None: a = ['ea', b.hex()]
        else: a = ['enc', str(cap), b.hex()]
        rc, o, e = t.execute(R, 'l_base58_main.c', a, 1)
        if rc != 0: return True, 'exit %s %s' % (rc, e[:6000])
        g = bytes.fromhex(o.strip()); x = w.encode() if cap is None else (w.encode() + b'\0' + b'\xee' * cap)[:cap]
        if g != x: return True, '%s encodes to %r, expected %r' % (b.hex(), g, x)
        rc, o, e = t.execute(R, 'l_base58_main.c', ['da', w.encode().hex()], 1); want = '%d 1 %s' % (n, b.hex())
        return rc != 0 or o.strip() != want.strip(), '%s decodes to %s, expected %s' % (w, o.strip(), want)
    return go
def tasks(tier):
    q = tier == 'quick'; ts = []
    def mk(nm, body, n, cap, b): t = lia.Task(nm, ['l_base58.c', 'coda/base58.c'], body, None, b, timeout=700 if q else 3000, witness=('number',) if n else ()); t.replayf = replay(t, n, cap); ts.append(t)
    for n in ((0, 1, 2, 3, 4, 5, 8, 12, 16) if q else tuple(range(0, 13)) + (14, 16, 18, 20, 22, 25, 28, 32)): mk('round-%d' % n, round_body(n), n, bound(n) + n, 'every %d bytes: encoding is the exact number, decoding returns them' % n)
    for n in ((0, 1, 3, 6) if q else range(0, 12)): mk('alloc-%d' % n, alloc_body(n), n, None, 'every %d bytes, allocating encoder' % n)
    for n, cs in (((1, (0, 1)), (3, (0, 1, 3, 5)), (5, (2, 6, 7))) if q else [(n, range(0, bound(n) + 1)) for n in range(0, 9)]):
        for c in cs: mk('capacity-%d-%d' % (n, c), cap_body(n, c), n, c, 'every %d bytes into %d bytes of output' % (n, c))
    # the sizes of the working buffers, for every length: the allocators are stand-ins that examine the request
    subs = ((r'\A', 'void *vp_calloc(unsigned long, unsigned long); void *vp_malloc(unsigned long);\n'), (r'\bcalloc\b', 'vp_calloc'), (r'\bmalloc\b', 'vp_malloc'))
    for m, w in enumerate(('encoder', 'allocating encoder', 'decoder', 'allocating decoder')): ts.append(T('room-%d' % m, 'h_b58size.c', ['coda/base58.c'], dict(MODE=m), unwind=3, subs=subs, bounds='the working buffer of the %s for every length from 1 to 65536' % w))
    return ts
