"""Shared by C04 and C05: base58 over engine E2 (linear integer arithmetic)."""
import lia
from lia import z3, K, V
AL = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
INV = {i: -1 for i in range(256)}
INV.update({ord(c): i for i, c in enumerate(AL)})
def enc(b):
    z = len(b) - len(b.lstrip(b'\0')); n = int.from_bytes(b, 'big'); s = ''
    while n: n, r = divmod(n, 58); s = AL[r] + s
    return '1' * z + s
def dec(t):
    """-> (position of the first invalid character or None, bytes)"""
    for i, c in enumerate(t):
        if INV[c] < 0: return i, None
    z = len(t) - len(t.lstrip(b'1')); n = 0
    for c in t: n = 58 * n + INV[c]
    return None, b'\0' * z + n.to_bytes((n.bit_length() + 7) // 8, 'big')
def buf(x, st, vals, kind): p = x.new(st, len(vals), kind); [st.mem[p.o].cells.__setitem__(i, (1, v)) for i, v in enumerate(vals)]; return p
def byte(x, o, i): return x.norm(x.cell(o, i, 1), 8, False)
def decided(x, v, k):
    """is v == k on this path? (None: the path does not decide it)"""
    c = x.cmp('eq', v, K(k))
    if isinstance(c, bool): return c
    if not x.feasible(c): return False
    if not x.feasible(z3.Not(c)): return True
    return None
def pool(n, base, other):
    """candidate digit strings that make the usual branches feasible without a solver call"""
    import random
    r = random.Random(1); nums = [0, base ** n - 1]
    for z in range(n + 1):
        top = base ** (n - z); nums += [r.randrange(top) for _ in range(3)] + [top - 1, top // base]
    k = 0
    while other ** k < base ** n: nums += [other ** k, other ** k - 1, other ** k + 1]; k += 1
    return [[x // base ** (n - 1 - i) % base for i in range(n)] for x in nums if 0 <= x < base ** n]
def split(x, st, vals, k, cont):
    """forks on the number of leading elements equal to k, then continues"""
    def go(i):
        if i == len(vals): return cont(i)
        d = decided(x, vals[i], k)
        if d is True: return go(i + 1)
        if d is False: return cont(i)
        for c, f in ((x.cmp('eq', vals[i], K(k)), lambda: go(i + 1)), (x.neg(x.cmp('eq', vals[i], K(k))), lambda: cont(i))):
            p = x.pool, x.eqs; x.sol.push(); x.scope.append([]); x.assume(c)
            try: f()
            finally:
                for q in x.scope.pop(): x.ddiv.pop(q, None)
                x.sol.pop(); x.pool, x.eqs = p
    go(0)
def number(x, vs, base):
    r = K(0)
    for v in vs: r = x.add(x.scale(r, base), v)
    return r
def val(x, v):
    m = x.known[-1] if x.known else None
    return 0 if m is None else m.eval(x.z(v), model_completion=True).as_long()
def sample(x, names, vs):
    if x.pool: x.sample = {n: x.cv(v, x.pool[-1]) for n, v in zip(names, vs)}
def text_ok(x, out, L, bs, what):
    """out[0..L) is the encoding of the bytes bs"""
    D = []
    for k in range(L):
        c = byte(x, out, k); d = x.lookup(c, INV) if c.lo >= 0 and c.hi <= 255 else None
        x.must(x.cmp('le', K(0), d), what + ': character outside the alphabet'); D.append(V(d.l, d.c, max(d.lo, 0), d.hi))
    def cont(z):
        x.must(L >= z, what + ': too short'); 
        for k in range(z): x.must(x.cmp('eq', D[k], K(0)), what + ': leading 1 missing')
        if z == len(bs): x.must(L == z, what + ': more characters than leading zeros'); x.seen.add('all zero'); return
        x.must(L > z, what + ': digits missing'); x.must(x.cmp('lt', K(0), D[z]), what + ': not minimal')
        x.must(x.same(number(x, D[z:], 58), number(x, bs[z:], 256)), what + ': not the number of the bytes'); x.seen.add('number')
    split(x, None, bs, 0, cont)
def bytes_ok(x, out, N, ds, what):
    """out[0..N) are the bytes of the digits ds"""
    B = [byte(x, out, k) for k in range(N)]
    def cont(z):
        x.must(N >= z, what + ': too short')
        for k in range(z): x.must(x.cmp('eq', B[k], K(0)), what + ': leading zero missing')
        if z == len(ds): x.must(N == z, what + ': more bytes than leading ones'); return
        x.must(N > z, what + ': bytes missing'); x.must(x.cmp('lt', K(0), B[z]), what + ': not minimal')
        x.must(x.same(number(x, B[z:], 256), number(x, ds[z:], 58)), what + ': not the number of the text'); x.seen.add('number')
    split(x, None, ds, 0, cont)
