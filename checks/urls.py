"""Shared by C09, C10, C11: URL objects over engine E2 (one path per way the code classifies the bytes)."""
import lia
from lia import K, V
HOST = set(range(97, 123)) | set(range(48, 58)) | {ord(c) for c in '.:-_'}
low = lambda c: c + 32 if 65 <= c <= 90 else c
# ---- the reference; chars are ints or symbolic values; `is_(c, set)` answers membership (forking the exploration where open)
class Ref:
    def __init__(s, x, dec): s.x, s.dec = x, dec
    def is_(s, c, S):
        if not isinstance(c, int) and not c.l: c = c.c
        if isinstance(c, int): return c in S
        r = s.x.root(c); return s.dec(s.x.cond(r[0], sum(1 << k for k, y in enumerate(r[1]) if y in S)))
    def lower(s, c):
        if not isinstance(c, int) and not c.l: c = c.c
        if isinstance(c, int): return low(c)
        r = s.x.root(c); return s.x.mk(r[0], [low(y) for y in r[1]])
    def prefix(s, u, p): return len(u) >= len(p) and all(s.is_(c, {ord(d), ord(d) - 32} if d.isalpha() else {ord(d)}) for c, d in zip(u, p))
    def find(s, u, ch): return next((i for i, c in enumerate(u) if s.is_(c, {ord(ch)})), len(u))
    def norm(s, p, flags):
        """p begins with '/': normalised path and query"""
        q = s.find(p, '?'); segs = [[]]
        for c in p[1:q]:
            if s.is_(c, {47}): segs.append([])
            else: segs[-1].append(c)
        out = []; trail = False
        for g in segs:
            dots = len(g) <= 2 and all(s.is_(c, {46}) for c in g); trail = dots
            if not dots: out.append(g)
            elif len(g) == 2 and out: out.pop()
        r = []
        for g in out: r += [47] + g
        if trail and (not out or s.dec(s.flag(flags, 1))): r.append(47)
        return r + p[q:]
    def flag(s, fl, bit):
        if not isinstance(fl, int) and not fl.l: fl = fl.c
        if isinstance(fl, int): return bool(fl & bit)
        r = s.x.root(fl); return s.x.cond(r[0], sum(1 << k for k, y in enumerate(r[1]) if y & bit))
    def absolute(s, u, flags):
        """-> (scheme and host, host, path and query)"""
        k = 8 if s.prefix(u, 'https://') else 7 if s.prefix(u, 'http://') else 0
        sch = list(u[:k]) if k else [ord(c) for c in 'http://']
        u = u[k:]; u = u[:s.find(u, '#')]; e = 0
        while e < len(u) and s.is_(s.lower(u[e]), HOST): e += 1
        h = [s.lower(c) for c in u[:e]]
        while h and s.is_(h[0], {46}): h.pop(0)
        while h and s.is_(h[-1], {46}): h.pop()
        rest = list(u[e:])
        if not rest or not s.is_(rest[0], {47}): rest = [47] + rest
        return sch, h, s.norm(rest, flags)
    def relative(s, u, flags, par):
        """-> None (refused) or like absolute"""
        sch, h, path = par
        if s.prefix(u, 'mailto:') or s.prefix(u, 'javascript:') or s.is_(u[0], {35}): return None
        full = u; u = u[:s.find(u, '#')]
        if not s.is_(full[0], {47}):
            p = path[:s.find(path, '?')]; k = max(i for i, c in enumerate(p) if s.is_(c, {47})); u = path[:k + 1] + list(u)
        return sch, h, s.norm(list(u), flags)
    def domain(s, h):
        """-> (domain, the host has an empty label)"""
        d = [i for i, c in enumerate(h) if s.is_(c, {46})]; odd = any(b - a == 1 for a, b in zip(d, d[1:]))
        return h[d[-2] + 1:] if len(d) >= 2 else h, odd
def rd(x, st, p, k, size): return x.cell(st.mem[p.o], k, size)
class Out:
    def __init__(s, x, st, cap): s.x = x; s.o, s.u, s.d = x.new(st, 20, 'the results'), x.new(st, cap, 'the copied URL'), x.new(st, cap, 'the copied domain')
    def args(s): return [s.o, s.u, s.d]
    def get(s, st, k): v = s.x.norm(rd(s.x, st, s.o, 4 * k, 4), 32, True); s.x.must(not v.l, 'result not decided by the path'); return v.c
    def same(s, st, R, ref, parent=False):
        """the object shows the URL ref = (scheme, host, path)"""
        x = s.x; sch, h, path = ref; w = list(sch) + h + path
        x.must(s.get(st, 1) == 0 and s.get(st, 2) == 1, 'created URL is empty'); x.must(s.get(st, 3) == len(w), 'URL has another length')
        for i, c in enumerate(w + [0]): x.equal(x.norm(rd(x, st, s.u, i, 1), 8, True), c if not isinstance(c, int) or c < 128 else c - 256, 'URL is not the normalised one')
        d, odd = R.domain(h); n = s.get(st, 4)
        if odd: x.must(n <= len(h), 'domain longer than the host'); d = h[len(h) - n:]; x.seen.add('empty label')
        x.must(n == len(d), 'domain has another length')
        for i, c in enumerate(d + [0]): x.equal(x.norm(rd(x, st, s.d, i, 1), 8, True), c, 'domain is not the last two labels')
    def blank(s, st): s.x.must(s.get(st, 1) == 1 and s.get(st, 2) == 0 and s.get(st, 3) == 0 and s.get(st, 4) == 0 and all(rd(s.x, st, p, 0, 1).const() == 0 for p in (s.u, s.d)), 'failed creation leaves an object that is not empty')
def text(x, st, pfx, n, first=None, cases=False):
    cs = [x.small('k%d' % i, 0, 1) for i, c in enumerate(pfx) if c.isalpha()] if cases else []; k = 0; u = []
    for c in pfx:
        if cases and c.isalpha(): u.append(x.add(K(ord(c)), cs[k], -32)); k += 1
        else: u.append(ord(c))
    for i in range(n): u.append(x.small('c%d' % i, -128, 127))
    if first is not None and n:
        i = next(iter(u[len(pfx)].l)); x.dom[i] &= sum(1 << k for k, y in enumerate(x.bvals[i]) if first(y))
    b = x.new(st, len(u), 'the text')
    for i, c in enumerate(u): st.mem[b.o].cells[i] = (1, K(c) if isinstance(c, int) else c)
    return u, b
def flags(x): return x.small('flags', 0, 3)
def cst(x, st, t):
    b = x.new(st, len(t), 'the parent text')
    for i, c in enumerate(t): st.mem[b.o].cells[i] = (1, K(ord(c)))
    return b
FIRST = {'host': lambda c: low(c) in HOST and c != 46, 'dot': lambda c: c == 46, 'slash': lambda c: c == 47, 'other': lambda c: low(c) not in HOST and c != 47}
PASSES = 'lowerinvoke,function(sroa,mem2reg,simplifycfg<bonus-inst-threshold=8>,early-cse,simplifycfg<bonus-inst-threshold=8>,instsimplify)'
def mk(name, body, bounds, replay, wit=(), timeout=700):
    t = lia.Task(name, ['l_url.cpp', 'coda/url_parser.cpp', 'coda/string.c'], body, None, bounds, timeout=timeout, witness=wit); t.passes = PASSES; t.limit = 400000000; t.rsrcs = ['l_url.cpp']; t.replayf = replay(t); return t
# ---- concrete oracle for replays: the same reference on integers
class C(Ref):
    def __init__(s): s.x = None; s.dec = lambda c: c
def conc(m, pfx, n, cases):
    t = []; k = 0
    for c in pfx:
        if cases and c.isalpha(): t.append(ord(c) - 32 * m.get('k%d' % k, 0)); k += 1
        else: t.append(ord(c))
    return t + [m.get('c%d' % i, 97) & 255 for i in range(n)]
def show(ref):
    if ref is None: return '-1 1 0'
    sch, h, p = ref; d, odd = C().domain(h); return '0 0 1 %s %s' % (bytes(sch + h + p).hex() or '-', '*' if odd else bytes(d).hex() or '-')
def agree(got, want):
    g, w = got.split(), want.split(); return "unterminated" not in g and len(g) >= len(w) and all(a == b or b == "*" for a, b in zip(g, w))
