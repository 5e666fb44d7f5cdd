from checks.urls import *
ASSUMPTIONS = ['allocation succeeds', 'letters as in the C locale', 'for hosts with an empty inner label only the memory safety of the domain is required']
def body(pfx, n, first=None, cases=False):
    def run(x):
        x.sol.set('timeout', 20000); st = x.base; x.scope = [[]]; fl = flags(x); u, b = text(x, st, pfx, n, first, cases); out = Out(x, st, len(u) + 12)
        def done(st, ret):
            x.must(not st.info.get('live'), 'memory not released')
            def f(dec):
                R = Ref(x, dec); rc = out.get(st, 0)
                if not u: x.must(rc == -1, 'empty text accepted'); out.blank(st); x.seen.add('empty'); return
                x.must(rc == 0, 'URL refused'); ref = R.absolute(u, fl); out.same(st, R, ref); x.seen.add('created')
                if len(sum(ref, [])) < len(u): x.seen.add('shortened')
            x.explore(f); x.sample = x.example()
        x.run(st, 'h_abs', [b, K(len(u)), fl] + out.args(), done)
    return run
def replay(pfx, n, cases):
    def mkr(t):
        def go(R, m):
            u = conc(m, pfx, n, cases); f = m.get('flags', 0) & 3
            rc, o, e = t.execute(R, 'l_url_main.cpp', ['abs', str(f), bytes(u).hex() or '-'], 1)
            if rc != 0: return True, 'exit %s %s' % (rc, e[:6000])
            w = show(C().absolute(u, f)) if u else show(None)
            return not agree(o.strip(), w), '%r flags %d gives %s, expected %s' % (bytes(u), f, o.strip(), w)
        return go
    return mkr
def tasks(tier):
    q = tier == 'quick'; ts = []
    def add(nm, pfx, n, cases=False, k=None, wit=('created',)): ts.append(mk('%s-%d%s' % (nm, n, '-' + k if k else ''), body(pfx, n, FIRST[k] if k else None, cases), '"%s"%s followed by every %d bytes%s, every flag' % (pfx, ' in any letter case' if cases else '', n, ', the first one: %s' % k if k else ''), replay(pfx, n, cases), wit if n or pfx else ('empty',)))
    for n in ((0, 1, 3) if q else range(0, 5)): add('raw', '', n)
    for n in ((4,) if q else (5,)):
        for k in FIRST: add('raw', '', n, False, k)
    for n in ((0, 2) if q else range(0, 4)): add('http', 'http://', n, True); add('https', 'https://', n, True)
    for n in ((5,) if q else (6,)):
        for k in FIRST: add('http', 'http://', n, False, k)
    for p in ('http://a.b', 'https://h/', 'http://h/a/b'):
        for n in ((4 if p == 'http://a.b' else 6,) if q else (5, 6 if p == 'http://a.b' else 8)):
            for k in FIRST: add(p, p, n, False, k)
    for p, n in (('http://h/a/b/..', 5), ('http://h/a/b/c/../..', 4), ('http://h/a/./b//../..', 3), ('http://h/a/../..', 4)): # several segments to resolve in a row
        for k in FIRST: add(p, p, n if q else n + 2, False, k)
    return ts
