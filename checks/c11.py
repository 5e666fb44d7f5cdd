from checks.urls import *
import checks.c10 as c10
ASSUMPTIONS = ['allocation succeeds', 'the copied URL is built from a short text; copying does not depend on the content']
OPS = ['copy construction', 'assignment to an empty object', 'assignment over another URL', 'assignment to itself', 'copy, self-assignment and back', 'assignment of an empty object, then of the URL']; THEN = ['destroyed', 'reassigned', 'created again (refused)']
V = [ord(c) for c in 'http://Q.v/z']
def expect(fl, s, then, dec=None, x=None):
    """what the object that was changed afterwards shows: ref, None (empty) or 'gone'"""
def body(n, s, how, then):
    def run(x):
        st = x.base; x.scope = [[]]; fl = flags(x); u, b = text(x, st, 'http://', n); cap = len(u) + 24; out, po = Out(x, st, cap), Out(x, st, cap)
        def done(st, ret):
            x.must(not st.info.get('live'), 'memory not released')
            def f(dec):
                R = Ref(x, dec); v = R.absolute(V, fl)
                if s: out.same(st, R, R.absolute(u, fl)); x.seen.add('copied')
                else: out.blank(st); x.seen.add('copied')
                if then // 2 == 1: po.same(st, R, v)
                elif then // 2 == 2:
                    x.must(po.get(st, 0) == (-1 if s else 0), 'object in use accepted' if s else 'URL refused')
                    if s: po.blank(st)
                    else: po.same(st, R, v)
            x.explore(f); x.sample = x.example()
        x.run(st, 'h_copy', [b, K(len(u)), fl, K(s), K(how), K(then)] + out.args() + po.args(), done)
    return run
def replay(n, s, how, then):
    def mkr(t):
        def go(R, m):
            u = conc(m, 'http://', n, False); f = m.get('flags', 0) & 3
            rc, o, e = t.execute(R, 'l_url_main.cpp', ['copy', str(s), str(how), str(then), str(f), bytes(u).hex()], 1)
            if rc != 0: return True, 'exit %s %s' % (rc, e[:6000])
            w = [show(C().absolute(u, f)) if s else '0 1 0']
            if then // 2 == 1: w.append(show(C().absolute(V, f)))
            elif then // 2 == 2: w.append(show(None) if s else show(C().absolute(V, f)))
            l = o.strip().split('\n'); return len(l) != len(w) or not all(agree(a, b) for a, b in zip(l, w)), '%r flags %d %s: %s, expected %s' % (bytes(u), f, OPS[how], l, w)
        return go
    return mkr
def tasks(tier):
    ts = []
    for how in range(6):
        for then in range(6):
            for s in (1, 0):
                n = (2 if tier == 'quick' else 4) if s else 0
                ts.append(mk('%s-%s-%s' % ('set' if s else 'empty', how, then), body(n, s, how, then), 'http:// followed by every %d bytes, every flag: %s, then the %s is %s' % (n, OPS[how], 'copy' if then & 1 else 'original', THEN[then // 2]), replay(n, s, how, then), ('copied',)))
    # failed creation leaves the object empty (same encoding as C10: the refused references)
    def failed(name, par, pfx, n, cases=False): ts.append(mk('failed-' + name, c10.body(par, pfx, n, None, cases), 'create_relative of "%s"%s followed by every %d bytes, every flag, against "%s": refused references leave the object empty' % (pfx, ' in any letter case' if cases else '', n, par), c10.replay(par, pfx, n, cases), ('refused',)))
    p = c10.PARENTS
    failed('other-domain', p[1], 'http://b.', 2 if tier == 'quick' else 4); failed('other-host', p[0], 'https://', 2 if tier == 'quick' else 3)
    failed('schemes', p[1], '', 4 if tier == 'quick' else 5)
    return ts
