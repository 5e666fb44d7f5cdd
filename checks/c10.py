from checks.urls import *
ASSUMPTIONS = ['allocation succeeds', 'letters as in the C locale', 'parents: the listed texts, normalised by the code itself (the parent is checked too)', 'under the same-domain flag nothing is claimed when the host of the reference has an empty label']
PARENTS = ['http://h/', 'https://a.b.c/d/e?f/g', 'HTTPS://X.y/p/', 'http://q?/']
def expect(R, u, fl, par, dom, x=None):
    """-> (accepted or None if nothing is claimed, the URL)"""
    if not u: return False, None
    if R.prefix(u, 'http://') or R.prefix(u, 'https://'):
        ref = R.absolute(u, fl)
        if R.dec(R.flag(fl, 2)):
            d, odd = R.domain(ref[1])
            if odd: return None, None
            if len(d) != len(dom) or not all(R.is_(c, {e}) for c, e in zip(d, dom)): return False, None
        return True, ref
    ref = R.relative(u, fl, par); return ref is not None, ref
def body(par, pfx, n, first=None, cases=False):
    pc = [ord(c) for c in par]; pr = C().absolute(pc, 1); dom = C().domain(pr[1])[0]
    def run(x):
        st = x.base; x.scope = [[]]; fl = flags(x); u, b = text(x, st, pfx, n, first, cases); cap = len(u) + len(par) + 12; out, po = Out(x, st, cap), Out(x, st, cap); pb = cst(x, st, par)
        def done(st, ret):
            x.must(not st.info.get('live'), 'memory not released')
            def f(dec):
                R = Ref(x, dec); rc = out.get(st, 0); x.must(po.get(st, 0) == 0, 'parent refused'); po.same(st, R, pr)
                ok, ref = expect(R, u, fl, pr, dom)
                if ok is None: return
                x.must(rc == (0 if ok else -1), 'reference %s' % ('refused' if ok else 'accepted'))
                if ok: out.same(st, R, ref); x.seen.add('resolved')
                else: out.blank(st); x.seen.add('refused')
            x.explore(f); x.sample = x.example()
        x.run(st, 'h_rel', [pb, K(len(par)), K(1), b, K(len(u)), fl] + out.args() + po.args(), done)
    return run
def replay(par, pfx, n, cases):
    pc = [ord(c) for c in par]; pr = C().absolute(pc, 1); dom = C().domain(pr[1])[0]
    def mkr(t):
        def go(R, m):
            u = conc(m, pfx, n, cases); f = m.get('flags', 0) & 3
            rc, o, e = t.execute(R, 'l_url_main.cpp', ['rel', '1', bytes(pc).hex(), str(f), bytes(u).hex() or '-'], 1)
            if rc != 0: return True, 'exit %s %s' % (rc, e[:6000])
            ok, ref = expect(C(), u, f, pr, dom)
            if ok is None: return False, 'nothing claimed'
            w = show(ref if ok else None); l = o.split('\n')
            return not agree(l[0], w) or not agree(l[1], show(pr)), '%r flags %d against %s gives %s, expected %s' % (bytes(u), f, par, o.strip(), w)
        return go
    return mkr
def tasks(tier):
    q = tier == 'quick'; ts = []
    def add(par, pfx, n, cases=False, k=None, wit=('resolved',)): ts.append(mk('%d-%s-%d%s' % (PARENTS.index(par), pfx or 'raw', n, '-' + k if k else ''), body(par, pfx, n, FIRST[k] if k else None, cases), '"%s"%s followed by every %d bytes%s, every flag, against the parent "%s"' % (pfx, ' in any letter case' if cases else '', n, ', the first one: %s' % k if k else '', par), replay(par, pfx, n, cases), wit))
    for par in PARENTS:
        for n in ((0, 1, 4) if q else range(0, 5)): add(par, '', n, wit=() if n == 0 else ('resolved', 'refused') if n > 3 else ())
        for k in FIRST: add(par, '', 6 if q else 8, False, k)
    for par in PARENTS[:2 if q else 4]:
        add(par, 'mailto', 2, True); add(par, 'javascript', 2, True)
        for n in ((0, 3) if q else range(0, 6)): add(par, 'http://', n, n < 2); add(par, 'https://', n)
    for pfx in ('../..', 'a/b/..', '/a/b/../..'):
        for par in PARENTS[1:3]: add(par, pfx, 3 if q else 5)
    for pfx in ('http://b.', 'http://z.b.'): add(PARENTS[1], pfx, 3 if q else 4, wit=('resolved', 'refused'))
    return ts
