"""Engine E2: path-wise symbolic execution of LLVM IR over linear integer arithmetic (z3), for arithmetic the
bit-blasting engine cannot decide (long division chains).

Integers are linear forms over integer variables with an interval; every machine integer is kept as ANY integer congruent to
it modulo 2^width and is brought into the unsigned or signed range only where an instruction depends on it, so wrap-around is
exact.  Division and remainder by a constant introduce quotient and remainder variables with their defining equation.
Branches whose condition is not decided fork the path (both sides checked for feasibility); loads from constant tables with a
symbolic index become lookups, lookups of lookups are composed.  Anything else raises Unsupported: the task is undecided."""
import os, sys, re, time, json
try: import z3
except ImportError: z3 = None  # the parent process only schedules; tasks run under python3-vt
import llir

class Unsupported(Exception): pass
class Bug(Exception):
    def __init__(s, what): s.what = what

class D:
    """condition on one small input: the set of its values (bit mask over its range) that satisfy it"""
    __slots__ = ('i', 'm')
    def __init__(s, i, m): s.i, s.m = i, m
class R:
    """a condition on two small inputs: the order of i and j is one of the bits of m (1: <, 2: =, 4: >)"""
    __slots__ = ('i', 'j', 'm')
    def __init__(s, i, j, m): s.i, s.j, s.m = i, j, m
class V:  # integer value: linear form + interval
    __slots__ = ('l', 'c', 'lo', 'hi')
    def __init__(s, l, c, lo, hi): s.l, s.c, s.lo, s.hi = l, c, lo, hi
    def const(s): return s.c if not s.l else None
    def key(s): return (tuple(sorted(s.l.items())), s.c)
def K(n): return V({}, n, n, n)
class Ptr:
    __slots__ = ('o', 'f')
    def __init__(s, o, f): s.o, s.f = o, f   # object id (None: null), offset V
class Obj:
    __slots__ = ('size', 'cells', 'kind', 'ro', 'dead', 'fill', 'guard', 'sh')
    def __init__(s, size, kind, fill=None, ro=False): s.size, s.cells, s.kind, s.ro, s.dead, s.fill = size, {}, kind, ro, False, fill; s.guard = 0; s.sh = False
    def copy(s):
        o = Obj(s.size, s.kind, s.fill, s.ro); o.cells = s.cells; s.sh = o.sh = not s.ro; o.dead = s.dead; o.guard = s.guard; return o
    def w(s):  # the cells, before changing them
        if s.sh: s.cells = dict(s.cells); s.sh = False
        return s.cells
class State:
    def __init__(s): s.mem = {}; s.frames = []; s.info = {}; s.nid = 0
    def copy(s):
        t = State(); t.mem = {k: (o if o.ro else o.copy()) for k, o in s.mem.items()}; t.frames = [f.copy() for f in s.frames]; t.info = dict(s.info); t.nid = s.nid; return t
class Frame:
    __slots__ = ('fn', 'blk', 'prev', 'ip', 'env', 'dst', 'al', 'va')
    def copy(s):
        f = Frame(); f.fn, f.blk, f.prev, f.ip, f.env, f.dst, f.al, f.va = s.fn, s.blk, s.prev, s.ip, dict(s.env), s.dst, list(s.al), s.va; return f

class X:
    def __init__(s, text, deadline, steps=400000):
        s.m = llir.parse(text); s.lay = llir.Layout(s.m); s.vars = []; s.zv = []; s.bnd = []; s.links = {}; s.lk = {}; s.ddiv = {}
        s.sol = z3.Solver(); s.sol.set('timeout', 20000); s.deadline = deadline; s.queries = 0; s.solver_s = 0.0; s.paths = 0; s.steps = 0; s.limit = steps; s.fns = set(); s.unknown = 0
        s.base = State(); s.globs = {}; s.known = []; s.defs = {}; s.pool = []; s.ids = {}; s.rsub = {}; s.eqof = {}; s.eqs = []; s.dom = {}; s.off = {}; s.drv = {}; s.drvk = {}; s.bvals = {}; s.rc = {}; s.batch = []; s.ords = {}; s.ndset = set(); s.nd = None; s.wide = {}
    # ---- small inputs: values that depend on one input only are tables over its range, conditions on it are sets
    def small(s, name, lo, hi):
        v = s.input(name, lo, hi); i = next(iter(v.l)); s.dom[i] = (1 << (hi - lo + 1)) - 1; s.off[i] = lo; s.bvals[i] = list(range(lo, hi + 1)); return v
    def root(s, v):
        """-> (input, its value at every value of the input) if v depends on one small input only"""
        if not v.l: return None
        k = (frozenset(v.l.items()), v.c); r = s.rc.get(k)
        if r is not None: return r
        b = None
        for i in v.l:
            j = s.drv[i][0] if i in s.drv else i if i in s.dom else None
            if j is None or b is not None and j != b: return None
            b = j
        t = [v.c] * len(s.bvals[b])
        for i, c in v.l.items():
            w = s.drv[i][1] if i in s.drv else s.bvals[b]
            t = [x + c * y for x, y in zip(t, w)]
        s.rc[k] = (b, t); return s.rc[k]
    def same_root(s, *vs):
        """all constant or functions of the same small input -> (input, tables)"""
        b = None; rs = []
        for v in vs:
            if not isinstance(v, V): return None
            r = None
            if v.l:
                r = s.root(v)
                if r is None or b is not None and r[0] != b: return None
                b = r[0]
            rs.append(r)
        if b is None: return None
        n = len(s.bvals[b]); return b, [r[1] if r else [v.c] * n for r, v in zip(rs, vs)]
    def mk(s, b, t):
        """the value that is t[x] when input b has its x-th value (values outside its current set do not matter)"""
        d = s.dom[b]; live = [x for x in range(len(t)) if d >> x & 1]; x0 = live[0]; vs = s.bvals[b]
        if all(t[x] == t[x0] for x in live): return K(t[x0])
        off = t[x0] - vs[x0]
        if all(t[x] - vs[x] == off for x in live): return V({b: 1}, off, min(t[x] for x in live), max(t[x] for x in live))
        t = [y if d >> x & 1 else 0 for x, y in enumerate(t)]; k = (b, tuple(t)); i = s.drvk.get(k)
        if i is None:
            i = len(s.vars); s.vars.append('f'); s.bnd.append((min(t), max(t))); s.zv.append(None); s.drv[i] = (b, t); s.drvk[k] = i
        return V({i: 1}, 0, min(t[x] for x in live), max(t[x] for x in live))
    def drvz(s, i):
        b, t = s.drv[i]; vs = s.bvals[b]; z = s.zv[b]; runs = []
        for x, y in enumerate(t):
            o = y - vs[x]
            if runs and (runs[-1][2] == y or runs[-1][3] == o):
                if runs[-1][2] != y: runs[-1][2] = None
                if runs[-1][3] != o: runs[-1][3] = None
                if runs[-1][2] is not None or runs[-1][3] is not None: runs[-1][1] = vs[x]; continue
            runs.append([vs[x], vs[x], y, o])
        e = None
        for lo, hi, y, o in reversed(runs):
            w = z + o if o is not None else z3.IntVal(y); e = w if e is None else z3.If(z <= hi, w, e)
        s.zv[i] = e; return e
    def maskz(s, b, m):
        vs = s.bvals[b]; z = s.zv[b]; r = []; x = 0; n = len(vs)
        while x < n:
            if m >> x & 1:
                y = x
                while y + 1 < n and m >> (y + 1) & 1: y += 1
                r.append(z == vs[x] if x == y else z3.And(z >= vs[x], z <= vs[y])); x = y
            x += 1
        return z3.BoolVal(False) if not r else r[0] if len(r) == 1 else z3.Or(r)
    # ---- order of two small inputs; the relations on a path are <, <=, = only (a 'different' is split), so narrowing the ranges decides them exactly
    def narrow(s, dom, ords, todo):
        """removes from the ranges the values without support; None if one becomes empty"""
        todo = set(todo)
        while todo:
            i, j = k = todo.pop(); m = ords[k]; a, b = dom[i] << s.off[i], dom[j] << s.off[j]; a0, b0 = a, b
            if m == 2: a = b = a & b
            elif m in (1, 3): # i < j (or =)
                e = m == 3; h = b.bit_length() - 1; a &= (1 << (h + e)) - 1; l = (a & -a).bit_length() - 1; b &= ~((1 << (l + (not e))) - 1) if a else 0
            elif m in (4, 6):
                e = m == 6; h = a.bit_length() - 1; b &= (1 << (h + e)) - 1; l = (b & -b).bit_length() - 1; a &= ~((1 << (l + (not e))) - 1) if b else 0
            if not a or not b: return None
            for v, x, x0 in ((i, a, a0), (j, b, b0)):
                if x != x0: dom[v] = x >> s.off[v]; todo |= {q for q in ords if v in q}
            if (a, b) != (a0, b0): todo.add(k)
        return dom
    def order(s, i, j, m):
        """the bits of m possible on this path"""
        r = s.ords.get((i, j), 7) & m; k = (i, j); o = 0
        for b in (1, 2, 4):
            if r & b and s.narrow(dict(s.dom), {**s.ords, k: b}, [k]) is not None: o |= b
        return o
    def rel2(s, i, j, m):
        if i == j: return bool(m & 2)
        if i > j: i, j, m = j, i, (m & 2) | (m & 1) << 2 | (m & 4) >> 2
        f = s.order(i, j, 7); m &= f
        return False if not m else True if m == f else R(i, j, m)
    def split(s, c):
        """conditions that together are c, each of which the path can record"""
        return [R(c.i, c.j, 1), R(c.i, c.j, 4)] if isinstance(c, R) and c.m == 5 else [c]
    def cond(s, b, m):
        d = s.dom[b]; m &= d
        return False if not m else True if m == d else D(b, m)
    def zb(s, c): return z3.BoolVal(c) if isinstance(c, bool) else s.maskz(c.i, c.m) if isinstance(c, D) else s.relz(c.i, c.j, c.m) if isinstance(c, R) else c
    def relz(s, i, j, m): x, y = s.zv[i], s.zv[j]; return {1: x < y, 2: x == y, 3: x <= y, 4: x > y, 5: x != y, 6: x >= y}[m]
    def band(s, x, y):
        if x is False or y is False: return False
        if x is True: return y
        if y is True: return x
        if isinstance(x, D) and isinstance(y, D) and x.i == y.i: return s.cond(x.i, x.m & y.m)
        return z3.And(s.zb(x), s.zb(y))
    def bor(s, x, y): return s.neg(s.band(s.neg(x), s.neg(y))) if isinstance(x, (bool, D)) and isinstance(y, (bool, D)) else True if x is True or y is True else y if x is False else x if y is False else z3.Or(s.zb(x), s.zb(y))
    def domz(s): return [s.maskz(b, m) for b, m in s.dom.items() if b in s.ndset or b >= 0 and m != (1 << len(s.bvals[b])) - 1] + [s.relz(i, j, m) for (i, j), m in s.ords.items()] + [c for i, c in s.wide.items()]
    # ---- inputs of a harness: the k-th one of a path is the same variable on every path
    def input_nd(s, st, bits):
        k = (len(st.info['nd']), bits); v = s.nd.get(k)
        if v is None: v = s.nd[k] = s.var('nd%d' % k[0], 0, (1 << bits) - 1)
        i = next(iter(v.l))
        if bits == 8:
            s.ndset.add(i); s.off[i] = 0; s.bvals[i] = list(range(256)); s.dom = {**s.dom, i: (1 << 256) - 1}
        else: s.wide = {**s.wide, i: z3.And(s.zv[i] >= 0, s.zv[i] < 1 << bits)}
        st.info['nd'] += (v,); return v
    def text(s, name):
        g = s.m.globals[name].init; return ''.join(chr(b) for b in g[1] if b)
    # ---- variables and linear forms
    def var(s, name, lo, hi, d=None):
        i = len(s.vars); s.vars.append(name); z = z3.Int('%s_%d' % (name, i)); s.zv.append(z); s.ids['%s_%d' % (name, i)] = i; s.bnd.append((lo, hi))
        s.sol.add(z >= lo, z <= hi)
        if d: s.defs[i] = d
        return V({i: 1}, 0, lo, hi)
    def ival(s, l, c):
        lo = hi = c
        for i, k in l.items():
            a, b = s.bnd[i]
            if k > 0: lo += k * a; hi += k * b
            else: lo += k * b; hi += k * a
        return lo, hi
    def lin(s, l, c, lo=None, hi=None):
        l = {i: k for i, k in l.items() if k}; a, b = s.ival(l, c)
        if lo is not None: a = max(a, lo)
        if hi is not None: b = min(b, hi)
        return V(l, c, a, b)
    def add(s, a, b, k=1):
        l = dict(a.l)
        for i, x in b.l.items(): l[i] = l.get(i, 0) + k * x
        lo, hi = (a.lo + k * b.lo, a.hi + k * b.hi) if k > 0 else (a.lo + k * b.hi, a.hi + k * b.lo)
        return s.lin(l, a.c + k * b.c, lo, hi)
    def scale(s, a, k): return s.lin({i: x * k for i, x in a.l.items()}, a.c * k, min(a.lo * k, a.hi * k), max(a.lo * k, a.hi * k))
    def z(s, a):
        if not a.l: return z3.IntVal(a.c)
        for i in a.l:
            if s.zv[i] is None: s.drvz(i)
        t = [s.zv[i] if k == 1 else k * s.zv[i] for i, k in a.l.items()]
        if a.c: t.append(z3.IntVal(a.c))
        return z3.Sum(t) if len(t) > 1 else t[0]
    # ---- concrete evaluation: candidate inputs show feasibility without a solver call (infeasibility always needs the solver)
    def cv(s, v, m):
        r = v.c
        for i, k in v.l.items():
            if i not in m:
                if i not in s.defs: return None
                x = s.defs[i](m)
                if x is None: return None
                m[i] = x
            r += k * m[i]
        return r
    def cz(s, e, m):
        if isinstance(e, bool): return e
        k = e.decl().kind(); a = e.children()
        if k == z3.Z3_OP_UNINTERPRETED: return s.cv(V({s.ids[e.decl().name()]: 1}, 0, 0, 0), m) if e.decl().name() in s.ids else None
        if k == z3.Z3_OP_ANUM: return e.as_long()
        if k == z3.Z3_OP_TRUE: return True
        if k == z3.Z3_OP_FALSE: return False
        if k == z3.Z3_OP_ITE: c = s.cz(a[0], m); return None if c is None else s.cz(a[1] if c else a[2], m)
        x = [s.cz(y, m) for y in a]
        if None in x: return None
        if k == z3.Z3_OP_ADD: return sum(x)
        if k == z3.Z3_OP_SUB: return x[0] - sum(x[1:])
        if k == z3.Z3_OP_UMINUS: return -x[0]
        if k == z3.Z3_OP_MUL:
            r = 1
            for y in x: r *= y
            return r
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF): return x[0] == x[1]
        if k == z3.Z3_OP_LT: return x[0] < x[1]
        if k == z3.Z3_OP_LE: return x[0] <= x[1]
        if k == z3.Z3_OP_GT: return x[0] > x[1]
        if k == z3.Z3_OP_GE: return x[0] >= x[1]
        if k == z3.Z3_OP_NOT: return not x[0]
        if k == z3.Z3_OP_AND: return all(x)
        if k == z3.Z3_OP_OR: return any(x)
        return None
    def assume(s, c):
        """adds c to the path and keeps the candidates that satisfy it"""
        if c is True: return
        if isinstance(c, D):
            d = dict(s.dom); d[c.i] &= c.m; s.dom = d
            if s.ords: s.dom = s.narrow(d, s.ords, [q for q in s.ords if c.i in q]) or d
            return
        if isinstance(c, R):
            k = (c.i, c.j); s.ords = {**s.ords, k: s.ords.get(k, 7) & c.m}; s.dom = s.narrow(dict(s.dom), s.ords, [k]) or s.dom; return
        s.sol.add(c); s.pool = [m for m in s.pool if s.cz(c, m)]
        n = 0
        while z3.is_not(c): c = c.arg(0); n ^= 1
        if c.get_id() not in s.eqof: return
        r, d, pr = s.eqof[c.get_id()]
        if pr == 'eq' and not n: s.eqs = s.eqs + [d]
        if len(d.l) == 1:
            (i, k), = d.l.items()
            if i in s.links: # which indices of the table remain on this path
                b, t = s.links[i]; ok = {'eq': lambda v: v == 0, 'lt': lambda v: v < 0, 'le': lambda v: v <= 0}[pr]
                s.eqs = s.eqs + [(b.key(), frozenset(x for x, y in t.items() if ok(k * y + d.c) != bool(n)))]
    # ---- solver
    def check(s, *cs):
        if time.time() > s.deadline: raise TimeoutError()
        s.queries += 1; t = time.time(); s.sol.set('timeout', int(max(1000, min(60000, (s.deadline - t) * 1000))))
        s.sol.push()
        for c in s.domz(): s.sol.add(c)
        for c in cs: s.sol.add(s.zb(c))
        r = s.sol.check()
        if r == z3.sat: s.known.append(s.sol.model()); s.known = s.known[-6:]
        s.sol.pop(); s.solver_s += time.time() - t
        if os.environ.get('VP_Q') and time.time() - t > 0.3: print('Q %.1f %s' % (time.time() - t, str(cs)[:200].replace('\n', ' ')), r, file=sys.stderr)
        if r == z3.unknown: s.unknown += 1
        return r
    def feasible(s, c):
        if c is True or c is False: return c
        if isinstance(c, D):
            if not s.ords: return bool(c.m & s.dom[c.i])
            d = dict(s.dom); d[c.i] &= c.m; return bool(d[c.i]) and s.narrow(d, s.ords, [q for q in s.ords if c.i in q]) is not None
        if isinstance(c, R): return bool(s.order(c.i, c.j, c.m))
        for m in s.pool:
            if s.cz(c, m): return True
        return s.check(c) != z3.unsat
    def expand(s, v):
        """the same value with every remainder replaced by dividend - divisor * quotient"""
        l = dict(v.l); c = v.c
        while True:
            r = max((i for i in l if i in s.rsub), default=None)
            if r is None: return s.lin(l, c, v.lo, v.hi)
            k = l.pop(r); d, n, q = s.rsub[r]; c += k * d.c; l[q] = l.get(q, 0) - k * n
            for i, x in d.l.items(): l[i] = l.get(i, 0) + k * x
            l = {i: x for i, x in l.items() if x}
    def same(s, a, b):
        """a == b; first by elimination: linear forms modulo the equalities known on this path"""
        from fractions import Fraction
        reps = {}; only = {}
        for e in s.eqs:
            if isinstance(e, tuple): only[e[0]] = only.get(e[0], e[1]) & e[1]
        def rep(i):
            """lookups of the same value in tables that agree wherever both are defined are the same value"""
            if i not in s.links: return i
            b, t = s.links[i]; dom = only.get(b.key())
            for j, u in reps.setdefault(b.key(), []):
                if j == i or all(u[x] == t[x] for x in t if x in u and (dom is None or x in dom)): return j
            reps[b.key()].append((i, t)); return i
        def form(v):
            e = s.expand(v); f = {-1: Fraction(e.c)}
            for i, k in e.l.items(): i = rep(i); f[i] = f.get(i, 0) + k
            return {i: k for i, k in f.items() if k}
        def red(f):
            for p, row in rows:
                k = f.get(p)
                if k:
                    for i, x in row.items(): f[i] = f.get(i, 0) - k * x
            return {i: k for i, k in f.items() if k}
        rows = []
        for e in s.eqs:
            if isinstance(e, tuple): continue
            f = red(form(e)); p = next((i for i in f if i >= 0), None)
            if p is not None: k = f[p]; rows.append((p, {i: x / k for i, x in f.items()}))
        f = red(form(s.add(a, b, -1)))
        for i in [i for i in f if i >= 0 and s.vars[i] == 'q' and s.bnd[i][0] == 0]: # quotients the path forces to be zero
            if s.check(s.zv[i] != 0) == z3.unsat: f.pop(i)
        s.queries += 1
        if not f: return True
        return s.cmp('eq', s.expand(s.add(a, b, -1)), K(0))
    def cmp(s, pr, a, b):
        d = s.add(a, b, -1)
        if s.dom and d.l:
            r = s.root(d)
            if r:
                m = 0
                for x, y in enumerate(r[1]):
                    if y == 0 and pr != 'lt' or y < 0 and pr != 'eq': m |= 1 << x
                return s.cond(r[0], m)
            if len(d.l) == 2 and not d.c and sorted(d.l.values()) == [-1, 1]:
                (i, k), (j, _) = d.l.items()
                if i in s.drv and j in s.drv:
                    (bi, ti), (bj, tj) = s.drv[i], s.drv[j]; t = [y for x, y in enumerate(ti) if s.dom[bi] >> x & 1]
                    if ti == tj and s.bvals[bi] == s.bvals[bj] and (pr == 'eq' and len(set(ti)) == len(ti) or all(p < q for p, q in zip(ti, ti[1:]))): i, j = bi, bj
                if i in s.dom and j in s.dom: return s.rel2(i, j, {'eq': 2, 'lt': 1, 'le': 3}[pr] if k > 0 else {'eq': 2, 'lt': 4, 'le': 6}[pr])
        if pr == 'eq':
            if d.lo > 0 or d.hi < 0: return False
            if not d.l: return d.c == 0
            r = s.z(d) == 0; s.eqof[r.get_id()] = (r, d, pr); return r
        if pr == 'lt': # a < b
            if d.hi < 0: return True
            if d.lo >= 0: return False
            r = s.z(d) < 0; s.eqof[r.get_id()] = (r, d, pr); return r
        if pr == 'le':
            if d.hi <= 0: return True
            if d.lo > 0: return False
            r = s.z(d) <= 0; s.eqof[r.get_id()] = (r, d, pr); return r
    # ---- modular normalisation
    def norm(s, v, n, signed):
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
        if v.lo >= lo and v.hi <= hi: return v
        M = 1 << n
        if not v.l:
            x = v.c % M; return K(x - M if signed and x > hi else x)
        if s.dom:
            r = s.root(v)
            if r: return s.mk(r[0], [lo + (y - lo) % M for y in r[1]])
        # whole interval inside one shifted copy of the range
        k = (v.lo - lo) // M
        if (v.hi - lo) // M == k: return s.add(v, K(-k * M))
        z = s.z(v)
        if not s.feasible(z < lo) and not s.feasible(z > hi): return V(v.l, v.c, max(lo, v.lo), min(hi, v.hi))
        key = ('norm', v.key(), n, signed)
        r = s.memo(key)
        if r is None:
            q = s.var('w', (v.lo - lo) // M, (v.hi - lo) // M, lambda m: None if s.cv(v, m) is None else (s.cv(v, m) - lo) // M); r = s.var('n', lo, hi, lambda m: None if s.cv(v, m) is None else lo + (s.cv(v, m) - lo) % M); s.sol.add(s.z(r) == z - M * s.z(q)); s.put(key, r)
        return r
    def memo(s, key): return s.ddiv.get(key)
    def put(s, key, r): s.ddiv[key] = r; s.scope[-1].append(key)
    def divmod(s, v, k):
        """v >= 0, constant k > 0"""
        if not v.l: return K(v.c // k), K(v.c % k)
        if s.dom:
            r = s.root(v)
            if r: return s.mk(r[0], [y // k for y in r[1]]), s.mk(r[0], [y % k for y in r[1]])
        if v.lo // k == v.hi // k: q = v.lo // k; return K(q), s.add(v, K(-q * k))
        g = {i: x for i, x in v.l.items() if x % k}
        if not g:  # all coefficients divisible
            q = s.lin({i: x // k for i, x in v.l.items()}, v.c // k, v.lo // k, v.hi // k); return q, K(v.c % k)
        key = ('div', v.key(), k); r = s.memo(key)
        if r is None:
            q = s.var('q', v.lo // k, v.hi // k, lambda m: None if s.cv(v, m) is None else s.cv(v, m) // k); m = s.var('r', 0, k - 1, lambda m: None if s.cv(v, m) is None else s.cv(v, m) % k); s.sol.add(s.z(v) == k * s.z(q) + s.z(m)); s.put(key, (q, m)); s.rsub[next(iter(m.l))] = (v, k, next(iter(q.l))); r = (q, m)
        return r
    def b2i(s, b):
        if b is True: return K(1)
        if b is False: return K(0)
        if isinstance(b, D): return s.mk(b.i, [b.m >> x & 1 for x in range(len(s.bvals[b.i]))])
        key = ('b', b.get_id(), b.sexpr()) ; r = s.memo(key)
        if r is None: r = s.var('b', 0, 1, lambda m: None if s.cz(b, m) is None else int(s.cz(b, m))); s.sol.add(b == (s.z(r) == 1)); s.put(key, r)
        return r
    def ite(s, c, a, b):
        if c is True: return a
        if c is False: return b
        if isinstance(c, D):
            q = s.same_root(a, b, V({c.i: 1}, 0, 0, 0)) if isinstance(a, V) and isinstance(b, V) else None
            if q: return s.mk(c.i, [x if c.m >> k & 1 else y for k, (x, y) in enumerate(zip(*q[1][:2]))])
            c = s.zb(c)
        if isinstance(a, Ptr) or isinstance(b, Ptr) or isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a) or z3.is_bool(b): raise Unsupported('select of pointers')
        d = s.add(a, b, -1)
        if not d.l and d.c == 0: return a
        if not a.l and not b.l: return s.add(K(b.c), s.scale(s.b2i(c), a.c - b.c))
        r = s.var('i', min(a.lo, b.lo), max(a.hi, b.hi), lambda m: None if s.cz(c, m) is None else s.cv(a if s.cz(c, m) else b, m)); s.sol.add(z3.If(c, s.z(r) == s.z(a), s.z(r) == s.z(b))); return r
    def lookup(s, idx, tab):
        """idx: V whose interval lies inside the table (dict int->int)"""
        if not idx.l: return K(tab[idx.c])
        if s.dom:
            r = s.root(idx)
            if r: return s.mk(r[0], [tab.get(y, 0) for y in r[1]])
        if len(idx.l) == 1:
            (i, k), = idx.l.items()
            if i in s.links and k == 1:
                b, t0 = s.links[i]
                try: comp = {x: tab[y + idx.c] for x, y in t0.items() if b.lo <= x <= b.hi}
                except KeyError: comp = None
                if comp is not None: return s.lookup(b, comp)
        t = {x: tab[x] for x in range(idx.lo, idx.hi + 1)}
        xs = sorted(t)
        a = t[xs[1]] - t[xs[0]] if len(xs) > 1 else 0
        if all(t[x] == t[xs[0]] + a * (x - xs[0]) for x in xs): return s.add(K(t[xs[0]] - a * xs[0]), s.scale(idx, a))
        key = ('tab', idx.key(), tuple(sorted(t.items()))); r = s.memo(key)
        if r is None:
            r = s.var('t', min(t.values()), max(t.values()), lambda m: t.get(s.cv(idx, m))); (i, _), = r.l.items(); s.links[i] = (idx, t); z = s.z(r); zi = s.z(idx)
            runs = []; # piecewise affine with slope 0 or 1
            for x in xs:
                if runs and runs[-1][3] is not None and t[x] - t[x - 1] == runs[-1][3] and runs[-1][1] == x - 1: runs[-1][1] = x
                elif runs and runs[-1][0] == runs[-1][1] == x - 1 and t[x] - t[x - 1] in (0, 1): runs[-1][1] = x; runs[-1][3] = t[x] - t[x - 1]
                else: runs.append([x, x, t[x], 1 if x + 1 in t and t[x + 1] - t[x] == 1 else 0 if x + 1 in t and t[x + 1] == t[x] else None])
            s.sol.add(z3.Or([z3.And(zi >= a, zi <= b, z == (zi + (y - a) if sl == 1 else y)) for a, b, y, sl in runs])); s.put(key, r)
        return r
    # ---- memory
    def new(s, st, size, kind, fill=None): st.nid += 1; st.mem[st.nid] = Obj(size, kind, fill); return Ptr(st.nid, K(0))
    def glob(s, st, name):
        if name in s.globs: return Ptr(s.globs[name], K(0))
        if name in s.m.funcs: return Ptr(name, K(0))
        g = s.m.globals.get(name)
        if g is None: raise Unsupported('global ' + name)
        i = -1 - len(s.globs); s.globs[name] = i; o = Obj(s.lay.size(g.ty), 'global ' + name, 0, g.const); s.initc(o, 0, g.ty, g.init); s.base.mem[i] = o
        if st is not None and i not in st.mem: st.mem[i] = o if g.const else o.copy()
        return Ptr(i, K(0))
    def initc(s, o, off, ty, v):
        ty = s.lay.res(ty)
        if v is None or v[0] in ('zero', 'undef'): return
        if v[0] == 'cstr':
            for k, b in enumerate(v[1]): o.cells[off + k] = (1, K(b))
        elif v[0] == 'int': o.cells[off] = (s.lay.size(ty), K(v[1]))
        elif v[0] == 'agg':
            for k, (t, x) in enumerate(v[2]): s.initc(o, off + (s.lay.off(ty, k) if ty[0] == 'struct' else k * s.lay.size(t)), t, x)
        elif v[0] == 'null': o.cells[off] = (8, Ptr(None, K(0)))
        elif v[0] == 'glob' or v[0] == 'ce' and v[1] == 'gep': o.cells[off] = (8, s.ev(None, None, ty, v))
        else: raise Unsupported('initialiser %s' % (v,))
    def obj(s, st, p, size, what):
        if p.o is None: raise Bug('%s through a null pointer' % what)
        o = st.mem.get(p.o)
        if o is None: o = s.base.mem[p.o]; st.mem[p.o] = o if o.ro else o.copy(); o = st.mem[p.o]
        if o.dead: raise Bug('%s of freed memory' % what)
        if o.guard and (o.guard == 2 or what == 'write'): raise Bug('%s of shared memory without the lock' % what)
        f = p.f
        if f.l and s.dom and s.root(f):
            s.bugif(s.bor(s.cmp('lt', f, K(0)), s.cmp('lt', K(o.size - size), f)), '%s outside %s' % (what, o.kind)); b, t = s.root(f); t = [y for x, y in enumerate(t) if s.dom[b] >> x & 1]; f = V(f.l, f.c, min(t), max(t))
            if f.lo == f.hi: f = K(f.lo)
        if f.lo < 0 or f.hi + size > o.size:
            z = s.z(f)
            if f.l: s.bugif(z3.Or(z < 0, z + size > o.size), '%s outside %s' % (what, o.kind)); f = V(f.l, f.c, max(0, f.lo), min(o.size - size, f.hi))
            else: raise Bug('%s outside %s' % (what, o.kind))
        return o, f
    def bugif(s, c, what):
        if c is True: raise Bug(what)
        if c is False: return
        if s.check(c) != z3.unsat: s.fail(what, c)
        s.assume(s.neg(c))
    def load(s, st, p, size):
        o, f = s.obj(st, p, size, 'read')
        if f.l:
            if o.ro: return s.lookup(f, {x: s.cell(o, x, size).c for x in range(f.lo, f.hi + 1) if x % size == f.lo % size})
            raise Fork([(s.cmp('eq', f, K(x)), ('fix', p, x)) for x in range(f.lo, f.hi + 1)])
        return s.cell(o, f.c, size)
    def cell(s, o, x, size):
        c = o.cells.get(x)
        if c and c[0] == size: return c[1]
        if c is None and not any(y in o.cells for y in range(x - 7, x + size)): # nothing written here
            if o.fill is not None: return K(int.from_bytes(bytes([o.fill]) * size, 'little'))
            v = s.var('u', 0, (1 << (8 * size)) - 1); o.w()[x] = (size, v); return v
        if c is None:
            for y in range(x - 7, x):
                if y in o.cells and y + o.cells[y][0] > x:
                    w, v = o.cells[y]
                    if y + w < x + size or not isinstance(v, V): raise Unsupported('overlapping load')
                    return s.divmod(s.divmod(s.norm(v, 8 * w, False), 1 << (8 * (x - y)))[0], 1 << (8 * size))[1]
        if c and c[0] > size and isinstance(c[1], V): return s.divmod(s.norm(c[1], 8 * c[0], False), 1 << (8 * size))[1]
        if c and c[0] < size or c is None:
            r = K(0); k = 0
            while k < size:
                c = o.cells.get(x + k)
                if c is None: w, v = 1, (K(o.fill) if o.fill is not None else s.var('u', 0, 255)); o.w()[x + k] = (1, v)
                else: w, v = c
                if v is None or k + w > size or not isinstance(v, V): raise Unsupported('mixed load')
                r = s.add(r, s.norm(v, 8 * w, False), 1 << (8 * k)); k += w
            return r
        raise Unsupported('partial load')
    def store(s, st, p, size, v):
        o, f = s.obj(st, p, size, 'write')
        if o.ro: raise Bug('write to constant data')
        if f.l: raise Fork([(s.cmp('eq', f, K(x)), ('fix', p, x)) for x in range(f.lo, f.hi + 1)])
        for y in range(f.c - 7, f.c + size):
            if y in o.cells and y != f.c and y + o.cells[y][0] > f.c:
                w, u = o.w().pop(y)
                if w > 1 and isinstance(u, V) and y <= f.c:
                    u = s.norm(u, 8 * w, False)
                    for k in range(w): o.w()[y + k] = (1, s.divmod(s.divmod(u, 1 << (8 * k))[0] if k else u, 256)[1])
        if f.c in o.cells and o.cells[f.c][0] > size:
            w, u = o.w().pop(f.c)
            if isinstance(u, V):
                u = s.norm(u, 8 * w, False)
                for k in range(w): o.w()[f.c + k] = (1, s.divmod(s.divmod(u, 1 << (8 * k))[0] if k else u, 256)[1])
        for k in range(1, size): o.w().pop(f.c + k, None)
        o.w()[f.c] = (size, v)
    # ---- evaluation
    def ev(s, st, fr, ty, v):
        k = v[0]
        if k == 'loc':
            r = fr.env[v[1]]
            return r if s.nd is None else s.red(r)
        if k == 'int': return (v[1] != 0) if ty == ('i', 1) else K(v[1])
        if k == 'null': return Ptr(None, K(0))
        if k in ('undef',): return Ptr(None, K(0)) if ty[0] == 'ptr' else K(0)
        if k == 'zero': return Ptr(None, K(0)) if ty[0] == 'ptr' else False if ty == ('i', 1) else K(0)
        if k == 'glob': return s.glob(st, v[1])
        if k == 'ce' and v[1] == 'gep': return s.gep(st, fr, v[2], s.ev(st, fr, *v[3][0]), v[3][1:])
        if k == 'ce' and v[1] == 'inttoptr' and v[3 if len(v) > 3 else 2]:
            w = v[2]; w = w[1] if isinstance(w[1], tuple) else w
            if w[0] == 'int': return Ptr(None, s.norm(K(w[1]), 64, False))
        raise Unsupported('value %s' % (v,))
    def red(s, r):
        """the same value, constant where the path already decides it"""
        t = type(r)
        if t is V:
            for i in r.l:
                b = s.drv[i][0] if i in s.drv else i
                m = s.dom.get(b, 0)
                if m == 0 or m & (m - 1): return r
            if not r.l: return r
            c = r.c
            for i, k in r.l.items():
                b, w = s.drv[i] if i in s.drv else (i, s.bvals[i]); c += k * w[s.dom[b].bit_length() - 1]
            return K(c)
        if t is D: return s.cond(r.i, r.m)
        if t is R: return s.rel2(r.i, r.j, r.m)
        if t is Ptr and r.f.l: return Ptr(r.o, s.red(r.f))
        return r
    def operands(s, st, fr, I):
        a = I.a; o = []
        def add(ty, v):
            if v[0] == 'loc': o.append(s.red(fr.env[v[1]]))
        if I.op in ('bin',): add(I.ty, a['x']); add(I.ty, a['y'])
        elif I.op == 'icmp': add(a['oty'], a['x']); add(a['oty'], a['y'])
        elif I.op == 'cast': add(a['fty'], a['v'])
        elif I.op == 'select': add(('i', 1), a['c']); add(I.ty, a['x']); add(I.ty, a['y'])
        elif I.op in ('load', 'store'):
            add(('ptr',), a['p'])
            if I.op == 'store': add(I.ty, a['v'])
        elif I.op in ('call', 'invoke'):
            for t, v, _ in a['args']: add(t, v)
        elif I.op == 'switch': add(I.ty, a['v'])
        return o
    def pinop(s, st, fr, I, u):
        """an instruction that cannot be done symbolically: one operand at a time is fixed to each of its values"""
        best = None
        for v in s.operands(st, fr, I):
            if isinstance(v, Ptr): v = v.f
            if isinstance(v, (D, R)): raise Fork([(v, ('retry', {})), (s.neg(v), ('retry', {}))])
            if not isinstance(v, V) or not v.l: continue
            for i in v.l:
                b = s.drv[i][0] if i in s.drv else i if i in s.dom else None
                n = bin(s.dom[b]).count('1') if b is not None else 0
                if 1 < n <= 64 and (best is None or n < best[0]): best = (n, b, i)
        if best is None: raise u
        n, b, i = best; w = s.drv[i][1] if i in s.drv else s.bvals[b]; g = {}
        for x in range(len(w)):
            if s.dom[b] >> x & 1: g[w[x]] = g.get(w[x], 0) | 1 << x
        if len(g) < 2: g = {x: 1 << x for x in range(len(w)) if s.dom[b] >> x & 1}
        raise Fork([(D(b, m), ('retry', {})) for m in g.values()])
    def gep(s, st, fr, bt, p, idx):
        f = p.f; ty = bt
        for n, (t, v) in enumerate(idx):
            if n == 0: f = s.add(f, s.scale(s.norm(s.ev(st, fr, t, v), t[1], True), s.lay.size(ty)))
            else:
                ty = s.lay.res(ty)
                if ty[0] == 'struct': f = s.add(f, K(s.lay.off(ty, v[1]))); ty = ty[1][v[1]]
                else: f = s.add(f, s.scale(s.norm(s.ev(st, fr, t, v), t[1], True), s.lay.size(ty[2]))); ty = ty[2]
        return Ptr(p.o, f)
    def bin(s, o, n, x, y):
        if n == 1:
            if s.nd is not None and isinstance(x, (D, R)) and isinstance(y, (D, R)) and not (isinstance(x, D) and isinstance(y, D) and x.i == y.i): raise Fork([(x, ('retry', {})), (s.neg(x), ('retry', {}))])
            if isinstance(x, D) or isinstance(y, D):
                if o == 'and': return s.band(x, y)
                if o == 'or': return s.bor(x, y)
                if o == 'xor': return s.bor(s.band(x, s.neg(y)), s.band(s.neg(x), y))
            if o == 'and': return False if x is False or y is False else y if x is True else x if y is True else z3.And(x, y)
            if o == 'or': return True if x is True or y is True else y if x is False else x if y is False else z3.Or(x, y)
            if o == 'xor': return (not x if isinstance(x, bool) else z3.Not(x)) if y is True else x if y is False else (not y if isinstance(y, bool) else z3.Not(y)) if x is True else y if x is False else z3.Xor(x, y)
            raise Unsupported('i1 ' + o)
        if isinstance(x, Ptr) or isinstance(y, Ptr): raise Unsupported('pointer arithmetic')
        if s.dom and o in ('and', 'or', 'xor', 'shl', 'mul') and (x.l or y.l):
            q = s.same_root(x, y)
            if q: M = (1 << n) - 1; f = {'and': int.__and__, 'or': int.__or__, 'xor': int.__xor__, 'shl': lambda a, b: a << min(b, n), 'mul': int.__mul__}[o]; return s.mk(q[0], [f(a & M, b & M) & M for a, b in zip(*q[1])])
        if o == 'add': r = s.add(x, y)
        elif o == 'sub': r = s.add(x, y, -1)
        elif o == 'mul':
            if not y.l: r = s.scale(x, y.c)
            elif not x.l: r = s.scale(y, x.c)
            else: raise Unsupported('product of two symbolic values')
        elif o == 'shl' and not y.l: r = s.scale(x, 1 << y.c)
        elif o in ('udiv', 'urem', 'lshr'):
            if y.l: raise Unsupported(o + ' by a symbolic value')
            k = s.norm(y, n, False).c; k = 1 << k if o == 'lshr' else k
            if k == 0: raise Bug('division by zero')
            r = s.divmod(s.norm(x, n, False), k)[1 if o == 'urem' else 0]
        elif o in ('sdiv', 'srem'):
            if y.l: raise Unsupported(o + ' by a symbolic value')
            k = s.norm(y, n, True).c; x = s.norm(x, n, True)
            if k == 0: raise Bug('division by zero')
            if x.lo >= 0: q, m = s.divmod(x, abs(k)); r = m if o == 'srem' else s.scale(q, 1 if k > 0 else -1)
            elif x.hi <= 0: q, m = s.divmod(s.scale(x, -1), abs(k)); r = s.scale(m, -1) if o == 'srem' else s.scale(q, -1 if k > 0 else 1)
            else:
                c = s.z(x) >= 0; ab = s.ite(c, x, s.scale(x, -1)); ab = V(ab.l, ab.c, 0, max(-x.lo, x.hi)); q, m = s.divmod(ab, abs(k)); t = m if o == 'srem' else s.scale(q, 1 if k > 0 else -1); r = s.ite(c, t, s.scale(t, -1))
        elif o == 'ashr' and not y.l:
            x = s.norm(x, n, True); off = 1 << n; q, m = s.divmod(s.add(x, K(off)), 1 << y.c); r = s.add(q, K(-(off >> y.c)))
        elif o == 'and' and (not y.l or not x.l) and (x.l or y.l):
            if x.l: x, y = y, x
            k = x.c % (1 << n); r = None
            if k == 0: r = K(0)
            else:
                tz = (k & -k).bit_length() - 1; kk = k >> tz
                if kk & (kk + 1): raise Unsupported('and with a broken mask')
                u = s.norm(y, n, False); u = s.divmod(u, 1 << tz)[0] if tz else u; r = s.scale(s.divmod(u, kk + 1)[1], 1 << tz)
        elif o == 'or':
            x = s.norm(x, n, False); y = s.norm(y, n, False)
            def tzs(v):
                g = [k & -k for k in list(v.l.values()) + ([v.c] if v.c else [])]; return min(g) if g else 1 << n
            if tzs(x) > y.hi or tzs(y) > x.hi: r = s.add(x, y)
            elif not x.l and not y.l: r = K(x.c | y.c)
            else: raise Unsupported('or of overlapping values')
        elif not x.l and not y.l:
            a, b = x.c % (1 << n), y.c % (1 << n); r = K(a ^ b if o == 'xor' else a & b if o == 'and' else a | b)
        elif o == 'xor' and not y.l and y.c % (1 << n) == (1 << n) - 1: r = s.add(K(-1), x, -1)
        else: raise Unsupported(o)
        if r.lo < -(1 << 200) or r.hi > 1 << 200: r = s.norm(r, n, False)
        return r
    def icmp(s, pr, ty, x, y):
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if x.o == y.o: return s.neg(s.cmp('eq', x.f, y.f)) if pr == 'ne' else s.cmp('eq', x.f, y.f) if pr == 'eq' else s.rel(pr, x.f, y.f)
            if pr == 'eq': return False
            if pr == 'ne': return True
            raise Unsupported('order of unrelated pointers')
        if ty == ('i', 1): x, y = s.b2i(x), s.b2i(y)
        n = ty[1]
        if pr in ('eq', 'ne'):
            if not (x.lo >= 0 and y.lo >= 0 and x.hi < 1 << n and y.hi < 1 << n):
                h = 1 << (n - 1)
                sg = x.lo >= -h and y.lo >= -h and x.hi < h and y.hi < h; x, y = s.norm(x, n, sg), s.norm(y, n, sg)
            r = s.cmp('eq', x, y); return s.neg(r) if pr == 'ne' else r
        sg = pr[0] == 's'; return s.rel(pr, s.norm(x, n, sg), s.norm(y, n, sg))
    def rel(s, pr, x, y): return {'lt': lambda: s.cmp('lt', x, y), 'le': lambda: s.cmp('le', x, y), 'gt': lambda: s.cmp('lt', y, x), 'ge': lambda: s.cmp('le', y, x)}[pr[1:]]()
    def neg(s, b): return (not b) if isinstance(b, bool) else s.cond(b.i, ~b.m) if isinstance(b, D) else s.rel2(b.i, b.j, 7 & ~b.m) if isinstance(b, R) else z3.Not(b)
    # ---- execution
    def call(s, st, name, args, dst, va=None):
        f = s.m.funcs[name]; fr = Frame(); fr.fn = f; fr.blk = f.order[0]; fr.prev = None; fr.ip = 0; fr.env = {}; fr.dst = dst; fr.al = []; fr.va = tuple((t, x) for (t, v, at), x in zip(va or (), args))[len(f.params):] if va else ()
        for (t, nm, at), a in zip(f.params, args): fr.env[nm] = a
        st.frames.append(fr); s.fns.add(name)
        if len(st.frames) > 40: raise Unsupported('call depth')
    def run(s, st, name, args, done):
        """explores every path; done(st, ret) is called at the end of each with the path condition asserted"""
        s.scope = [[]]; s.done = done; s.call(st, name, args, None)
        g = s.m.globals.get('llvm.global_ctors')
        if g is not None and g.init and s.nd is not None:
            for t, v in reversed(g.init[2]):
                st.frames[-1].ip = -1; s.call(st, v[2][1][1][1], [], None)
        s.go(st)
    def go(s, st):
        while True:
            if s.steps % 256 == 0 and time.time() > s.deadline: raise TimeoutError()
            s.steps += 1
            if s.steps > s.limit: raise Unsupported('step limit')
            fr = st.frames[-1]; I = fr.fn.blocks[fr.blk][fr.ip]
            try:
                try: r = s.step(st, fr, I)
                except Unsupported as u:
                    if s.nd is None: raise
                    s.pinop(st, fr, I, u)
                except (AttributeError, TypeError, z3.Z3Exception) as u: # a condition kept as an order or a mask where a term is needed: decide it first
                    if s.nd is None or not any(isinstance(v, (D, R)) for v in s.operands(st, fr, I)): raise
                    s.pinop(st, fr, I, u)
            except Fork as fk: return s.fork(st, fk)
            except Throw as t:
                try: s.throw(st, t); continue
                except Bug as b: s.fail(b.what, None); return
            except Bug as b: s.fail(b.what, None); return
            except Prune: return
            if r is not None: # finished
                s.paths += 1; s.done(st, r[0]); return
    def fork(s, st, fk):
        alts = [(c, a) for c, a in fk.alts if c is not False]
        if s.dom: alts = [(d, a) for c, a in alts for d in s.split(c)]
        al = [(c, a) for c, a in alts if c is True or s.feasible(c)] if len(alts) > 1 else alts
        for n, (c, a) in enumerate(al):
            t = st if n == len(al) - 1 else st.copy()
            s.sol.push(); s.scope.append([]); nv = len(s.vars); pool = s.pool; eqs = s.eqs; dom = dict(s.dom); ords = s.ords; wide = s.wide; s.assume(c)
            try:
                if a[0] == 'goto': s.goto(t.frames[-1], a[1])
                elif a[0] == 'fix': # pin a symbolic offset and retry the instruction
                    t.info[('pin',) + a[1].f.key()] = a[2]
                elif a[0] == 'set': fr = t.frames[-1]; fr.env[a[1]] = a[2]; fr.ip += 1
                elif a[0] == 'retry': t.info.update(a[1])
                s.go(t)
            finally:
                for k in s.scope.pop(): s.ddiv.pop(k, None)
                s.sol.pop(); s.known = []; s.pool = pool; s.eqs = eqs; s.dom = dom; s.ords = ords; s.wide = wide
                for i in range(nv, len(s.vars)): s.defs.pop(i, None)
                for m in pool:
                    for i in [i for i in m if i >= nv]: del m[i]
                for i in [i for i in s.links if i >= nv]: del s.links[i]
    def goto(s, fr, blk):
        fr.prev, fr.blk, fr.ip = fr.blk, blk, 0; ins = fr.fn.blocks[blk]; new = {}
        while ins[fr.ip].op == 'phi':
            I = ins[fr.ip]
            for v, l in I.a['inc']:
                if l == fr.prev: new[I.dst] = s.ev(s.cur, fr, I.ty, v)
            fr.ip += 1
        fr.env.update(new)
    def pin(s, st, p):
        if isinstance(p, Ptr) and p.f.l:
            x = st.info.get(('pin',) + p.f.key())
            if x is not None: return Ptr(p.o, K(x))
        return p
    def step(s, st, fr, I):
        s.cur = st; a = I.a; op = I.op; E = lambda ty, v: s.ev(st, fr, ty, v)
        if op == 'br': s.goto(fr, a['to']); return
        if op == 'cbr':
            c = E(('i', 1), a['c'])
            if isinstance(c, bool): s.goto(fr, a['t'] if c else a['f']); return
            raise Fork([(c, ('goto', a['t'])), (s.neg(c), ('goto', a['f']))])
        if op == 'switch':
            v = E(I.ty, a['v']); alts = []; rest = []
            for cv, l in a['cs']: c = s.icmp('eq', I.ty, v, K(cv[1])); alts.append((c, ('goto', l))); rest.append(s.neg(c))
            
            d = True
            for r in rest: d = s.band(d, r)
            alts.append((d, ('goto', a['d']))); raise Fork(alts)
        if op == 'ret':
            v = None if a['v'] is None else E(I.ty, a['v'])
            for o in fr.al: st.mem.pop(o, None)
            st.frames.pop()
            if not st.frames: return (v,)
            c = st.frames[-1]
            if fr.dst is not None: c.env[fr.dst] = v
            J = c.fn.blocks[c.blk][c.ip]
            if c.ip >= 0 and J.op == 'invoke': s.goto(c, J.a['ok']); return
            c.ip += 1; return
        if op == 'unreachable': raise Bug('unreachable code reached')
        if op == 'nop': r = None
        elif op == 'bin': r = s.bin(a['o'], I.ty[1], E(I.ty, a['x']), E(I.ty, a['y']))
        elif op == 'icmp': r = s.icmp(a['pr'], a['oty'], E(a['oty'], a['x']), E(a['oty'], a['y']))
        elif op == 'select':
            c = E(('i', 1), a['c']); x = E(I.ty, a['x']); y = E(I.ty, a['y'])
            if isinstance(c, bool): r = x if c else y
            elif s.nd is not None and not (isinstance(x, V) and isinstance(y, V) and isinstance(c, D) and s.same_root(x, y, V({c.i: 1}, 0, 0, 0))): raise Fork([(c, ('set', I.dst, x)), (s.neg(c), ('set', I.dst, y))])
            elif I.ty == ('i', 1) and isinstance(c, D): r = s.bor(s.band(c, x), s.band(s.neg(c), y))
            elif I.ty == ('i', 1):
                x, y = [s.zb(q) if isinstance(q, D) else q for q in (x, y)]; zx = z3.BoolVal(x) if isinstance(x, bool) else x; zy = z3.BoolVal(y) if isinstance(y, bool) else y; r = z3.If(c, zx, zy); r = z3.simplify(r); r = True if z3.is_true(r) else False if z3.is_false(r) else r
            elif isinstance(x, Ptr): raise Fork([(c, ('set', I.dst, x)), (s.neg(c), ('set', I.dst, y))])
            else: r = s.ite(c, s.norm(x, I.ty[1], False), s.norm(y, I.ty[1], False)) if (x.lo < 0) != (y.lo < 0) else s.ite(c, x, y)
        elif op == 'cast':
            v = E(a['fty'], a['v']); o = a['o']
            if o == 'trunc': r = v if I.ty != ('i', 1) else s.neg(s.cmp('eq', s.divmod(s.norm(v, a['fty'][1], False), 2)[1], K(0)))
            elif o == 'zext': r = s.b2i(v) if a['fty'] == ('i', 1) else s.norm(v, a['fty'][1], False)
            elif o == 'sext': r = s.scale(s.b2i(v), -1) if a['fty'] == ('i', 1) else s.norm(v, a['fty'][1], True)
            elif o == 'ptrtoint': r = v.f if v.o is None else s.add(s.addr(st, v.o), v.f)
            elif o == 'bitcast': r = v
            else: raise Unsupported(o)
        elif op == 'freeze': r = E(I.ty, a['v'])
        elif op == 'gep': r = s.gep(st, fr, a['bt'], E(('ptr',), a['b']), a['idx'])
        elif op == 'alloca':
            n = 1
            if a['n']:
                x = E(*a['n'])
                if x.l: raise Unsupported('alloca of symbolic size')
                n = x.c
            r = s.new(st, n * s.lay.size(a['aty']), 'a local buffer'); fr.al.append(r.o)
        elif op == 'load':
            p = s.pin(st, E(('ptr',), a['p'])); r = s.load(st, p, s.lay.size(I.ty))
            if I.ty[0] == 'ptr' and isinstance(r, V):
                if not r.l and r.c == 0: r = Ptr(None, K(0))
                else: raise Unsupported('integer as pointer')
            if I.ty == ('i', 1) and isinstance(r, V): r = s.neg(s.cmp('eq', r, K(0)))
        elif op == 'store':
            v = E(I.ty, a['v']); v = s.b2i(v) if I.ty == ('i', 1) else v
            s.store(st, s.pin(st, E(('ptr',), a['p'])), s.lay.size(I.ty), v); r = None
        elif op == 'phi': raise Unsupported('phi at entry')
        elif op in ('call', 'invoke'):
            cal = a['callee']
            if cal[0] != 'glob':
                q = E(('ptr',), cal)
                if not isinstance(q.o, str): raise Bug('call through a bad pointer') if q.o is None else Unsupported('indirect call')
                cal = ('glob', q.o)
            nm = cal[1]
            g = s.m.globals.get(nm)
            if g is not None and g.alias and nm not in s.m.funcs: nm = g.alias[1]
            if nm.startswith('llvm.'):
                r = s.intrin(st, nm, [E(t, v) if v[0] != 'meta' else None for t, v, _ in a['args']], I)
            else:
                args = [E(t, v) for t, v, _ in a['args']]; f = s.m.funcs.get(nm); r = None
                if s.nd is not None:
                    r = s.api(st, nm, args)
                    if r is None and nm in NATIVE: f = None
                if r is not None: pass
                elif f is not None and f.blocks:
                    for n, (t, v, at) in enumerate(a['args']):
                        if 'byval' in at: p = s.new(st, s.lay.size(f.params[n][2]['byval']) if n < len(f.params) and isinstance(f.params[n][2].get('byval'), tuple) else st.mem[args[n].o].size, 'a copied argument'); s.libc(st, 'memcpy', [p, args[n], K(st.mem[p.o].size)], I); args[n] = p
                    s.call(st, nm, args, I.dst, a['args']); return
                else: r = s.libc(st, nm, args, I)
            if op == 'invoke':
                if I.dst is not None: fr.env[I.dst] = r
                s.goto(fr, a['ok']); return
        elif op == 'landingpad':
            o, ti = st.info['exc']; sel = 0
            for k, tv in a['cl']:
                if k == 'filter':
                    gl = set()
                    def scan(x):
                        if isinstance(x, (tuple, list)):
                            if len(x) > 1 and x[0] == 'glob': gl.add(x[1])
                            else: [scan(y) for y in x]
                    scan(tv)
                    if not gl & s.bases(ti): sel = -1; break
                    continue
                v = tv[1]
                if len(v) == 2 and isinstance(v[0], tuple): v = v[1]
                if k == 'catch' and (v[0] in ('null', 'zero') or v[0] == 'glob' and v[1] in s.bases(ti)): sel = s.tid(v); break
            if not sel and not a['cleanup']: raise Throw(o, ti)
            r = [o, K(sel)]
        elif op == 'resume': raise Throw(*st.info['exc'])
        elif op == 'extractvalue':
            r = E(*a['v'])
            for k in a['ix']: r = r[k]
        elif op == 'insertvalue':
            r = E(*a['v']); w = E(*a['w'])
            def put(g, ix):
                g = list(g); g[ix[0]] = put(g[ix[0]], ix[1:]) if len(ix) > 1 else w; return g
            r = put(r if isinstance(r, list) else s.agg(a['v'][0]), a['ix'])
        else: raise Unsupported(op)
        if I.dst is not None: fr.env[I.dst] = r
        fr.ip += 1
    def agg(s, ty): ty = s.lay.res(ty); return [s.agg(t) if s.lay.res(t)[0] in ('struct', 'array') else K(0) for t in (ty[1] if ty[0] == 'struct' else [ty[2]] * ty[1])]
    tids = None
    def tid(s, v):
        s.tids = s.tids if s.tids is not None else {}; k = v[1] if v[0] == 'glob' else ''
        return s.tids.setdefault(k, len(s.tids) + 1)
    def addr(s, st, o):
        k = ('addr', o)
        if k not in st.info: st.info[k] = s.var('adr', 4096, 1 << 46)
        return st.info[k]
    def intrin(s, st, nm, a, I):
        if nm.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias')): return None
        m = re.match(r'llvm\.(mem(?:set|cpy|move))\.', nm)
        if m: return s.libc(st, m.group(1), a, I)
        m = re.match(r'llvm\.([us])(min|max)\.i(\d+)', nm)
        if m:
            sg = m.group(1) == 's'; x, y = s.norm(a[0], int(m.group(3)), sg), s.norm(a[1], int(m.group(3)), sg); c = s.cmp('le', x, y); return s.ite(c, x, y) if m.group(2) == 'min' else s.ite(c, y, x)
        if nm == 'llvm.va_start':
            f = st.frames[-1]; v = s.new(st, 8 * len(f.va) + 8, 'the variable arguments')
            for k, (t, w) in enumerate(f.va): s.store(st, Ptr(v.o, K(8 * k)), 8, s.norm(w, t[1], False) if t[0] == 'i' else w)
            for k, z, w in ((0, 4, K(48)), (4, 4, K(304)), (8, 8, v), (16, 8, Ptr(None, K(0)))): s.store(st, Ptr(a[0].o, s.add(a[0].f, K(k))), z, w)
            return None
        if nm == 'llvm.va_end': return None
        if nm == 'llvm.va_copy': return s.libc(st, 'memcpy', [a[0], a[1], K(24)], I)
        m = re.match(r'llvm\.bswap\.i(\d+)', nm)
        if m:
            n = int(m.group(1)) // 8; v = s.norm(a[0], 8 * n, False); q = s.root(v) if v.l else None
            if not v.l: return K(int.from_bytes(v.c.to_bytes(n, 'little'), 'big'))
            if q: return s.mk(q[0], [int.from_bytes((y % (1 << 8 * n)).to_bytes(n, 'little'), 'big') for y in q[1]])
            r = K(0)
            for k in range(n): r = s.add(r, s.divmod(s.divmod(v, 1 << 8 * k)[0] if k else v, 256)[1], 1 << 8 * (n - 1 - k))
            return r
        m = re.match(r'llvm\.fsh([lr])\.i(\d+)', nm)
        if m:
            n = int(m.group(2)); k = s.conc(st, s.norm(a[2], n, False), nm) % n; k = k if m.group(1) == 'l' else n - k
            x, y = s.norm(a[0], n, False), s.norm(a[1], n, False)
            if k in (0, n): return x if (k == 0) == (m.group(1) == 'l') else y
            return s.add(s.scale(s.divmod(x, 1 << (n - k))[1], 1 << k), s.divmod(y, 1 << (n - k))[0])
        if nm.startswith('llvm.expect'): return a[0]
        if nm.startswith('llvm.eh.typeid'): return K(s.tid(('glob', I.a['args'][0][1][1]) if I.a['args'][0][1][0] == 'glob' else ('null',)))
        if nm.startswith('llvm.stack'): return Ptr(None, K(0))
        if nm == 'llvm.trap': raise Bug('trap')
        raise Unsupported(nm)
    def need(s, c):
        """the truth of c on this path; forks and repeats the instruction if it is open"""
        if isinstance(c, bool): return c
        if not isinstance(c, (D, R)):
            k = ('dec', c.sexpr()); v = s.cur.info.get(k)
            if v is not None: return v
            raise Fork([(c, ('retry', {k: True})), (s.neg(c), ('retry', {k: False}))])
        raise Fork([(c, ('retry', {})), (s.neg(c), ('retry', {}))])
    def conc(s, st, v, what):
        if not v.l: return v.c
        x = st.info.get(('pin',) + v.key())
        if x is not None: return x
        if v.hi - v.lo > 64: raise Unsupported('symbolic size of ' + what)
        raise Fork([(s.cmp('eq', v, K(x)), ('retry', {('pin',) + v.key(): x})) for x in range(v.lo, v.hi + 1)])
    def api(s, st, nm, a):
        """the harness API; None if nm is not part of it"""
        if nm.startswith('nd_u') and nm[4:].isdigit(): return s.input_nd(st, int(nm[4:]))
        if nm in ('vp_assert', 'vp_assume'):
            v = s.norm(a[0], 32, False); c = s.neg(s.cmp('eq', v, K(0)))
            if nm == 'vp_assert':
                s.must(c, s.cstr(st, a[1]))
                if c is False: raise Prune()
                s.assume(c); return True
            if c is False or c is not True and not s.feasible(c): raise Prune()
            if isinstance(c, R) and c.m == 5: raise Fork([(c, ('retry', {}))])
            s.assume(c); return True
        if nm == 'vp_witness':
            w = s.cstr(st, a[0])
            if w not in s.seen:
                s.seen.add(w)
                if len(s.samples) < 2 and s.check() == z3.sat: m = s.known[-1]; s.samples.append((w, [m.eval(s.z(v), model_completion=True).as_long() for v in st.info['nd']]))
            return True
        if nm == 'vp_live_blocks': return K(len(st.info.get('live', ())))
        if nm == 'vp_set_nomem': st.info['nomem'] = s.norm(a[0], 32, False).c; return True
        if nm == 'vp_last_malloc': return K(st.info.get('lastm', 0))
        if nm == 'vp_buf': return s.new(st, s.conc(st, s.norm(a[0], 64, False), nm), 'a buffer of the harness')
        if nm == 'vp_cell': return s.new(st, s.conc(st, s.norm(a[1], 64, False), nm), 'a container element')
        if nm == 'vp_guard': st.mem[a[0].o].guard = {0: 2, 1: 1, 2: 0}[s.conc(st, s.norm(a[2], 32, False), nm)]; return True
        if nm == 'vp_cell_free': st.mem[a[0].o].dead = True; return True
        if nm == '__cxa_allocate_exception': return s.new(st, s.norm(a[0], 64, False).c, 'an exception')
        if nm in ('__cxa_free_exception', '__cxa_atexit', '__cxa_guard_abort'): return K(0)
        if nm == '__cxa_throw': raise Throw(a[0], a[1].o)
        if nm == '__cxa_rethrow': raise Throw(*st.info['caught'][-1])
        if nm == '__cxa_begin_catch':
            st.info['caught'] = st.info.get('caught', ()) + (st.info['exc'],); return a[0]
        if nm == '__cxa_end_catch': st.info['caught'] = st.info['caught'][:-1]; return True
        if nm == '__cxa_guard_acquire': return s.b2i(s.cmp('eq', s.norm(s.load(st, a[0], 1), 8, False), K(0)))
        if nm == '__cxa_guard_release': s.store(st, a[0], 1, K(1)); return True
        if nm == '__cxa_pure_virtual': raise Bug('pure virtual call')
        if nm in ('_ZSt9terminatev', '__clang_call_terminate', 'abort', '__cxa_call_unexpected'): raise Bug('the program is terminated')
        return None
    def cstr(s, st, p):
        t = ''
        for k in range(400):
            c = s.load(st, Ptr(p.o, s.add(p.f, K(k))), 1).c
            if not c: break
            t += chr(c)
        return t
    def bases(s, ti):
        if isinstance(ti, int): ti = next(k for k, v in s.globs.items() if v == ti)
        r = {ti}; g = s.m.globals.get(ti); todo = [g.init] if g is not None and g.init else []
        while todo:
            v = todo.pop()
            if isinstance(v, tuple):
                if len(v) > 1 and v[0] == 'glob' and v[1].startswith('_ZTI') and v[1] not in r: r |= s.bases(v[1])
                todo += [y for y in v if isinstance(y, (tuple, list))]
            elif isinstance(v, list): todo += v
        return r
    def throw(s, st, t):
        st.info['exc'] = (t.obj, t.ti); n = len(st.frames)
        while st.frames:
            fr = st.frames[-1]; I = fr.fn.blocks[fr.blk][fr.ip]
            if I.op == 'invoke': s.goto(fr, I.a['bad']); return
            for o in fr.al: st.mem.pop(o, None)
            st.frames.pop()
        raise Bug('exception leaves the program')
    def libc(s, st, nm, a, I):
        new = nm in ('_Znwm', '_Znam')
        if new: nm = 'malloc'
        if nm in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm'): nm = 'free'
        if nm in ('malloc', 'calloc'):
            n = s.conc(st, s.norm(a[0], 64, False), nm) * (s.conc(st, s.norm(a[1], 64, False), nm) if nm == 'calloc' else 1)
            k = st.info.get('nalloc', 0)
            fail = st.info.get(('nomem', k)); md = st.info.get('nomem', 0)
            if s.nd is not None: st.info['lastm'] = n if not new else st.info.get('lastm', 0)
            if md == 2 and not new: fail = True
            if md == 1 and not new and fail is None:
                b = s.input_nd(st, 8); i = next(iter(b.l)); c = s.cond(i, sum(1 << q for q in range(1, 256, 2))); raise Fork([(s.neg(c), ('retry', {('nomem', k): False})), (c, ('retry', {('nomem', k): True}))])
            if fail is None and s.oom: raise Fork([(True, ('retry', {('nomem', k): False})), (True, ('retry', {('nomem', k): True}))])
            st.info['nalloc'] = k + 1
            if fail: st.info['failed'] = st.info.get('failed', 0) + 1; return Ptr(None, K(0))
            p = s.new(st, n, 'a heap block of %d bytes' % n, 0 if nm == 'calloc' else None); st.info['live'] = st.info.get('live', ()) + (p.o,); return p
        if nm == 'free':
            p = a[0]
            if p.o is None: return None
            if p.o not in st.info.get('live', ()) or p.f.l or p.f.c: raise Bug('free of something that is not an allocated block')
            st.info['live'] = tuple(x for x in st.info['live'] if x != p.o); st.mem[p.o].dead = True; return None
        if nm in ('memset', 'memcpy', 'memmove'):
            n = s.conc(st, s.norm(a[2], 64, False), nm)
            d = s.pin(st, a[0])
            if nm != 'memset':
                q = s.pin(st, a[1])
                if n == 0: return a[0]
                if not q.f.l and not d.f.l:
                    o, f = s.obj(st, q, n, 'read'); f = f.c; k = 0; w = []
                    while k < n:
                        c = o.cells.get(f + k)
                        if c and k + c[0] <= n and not any(y in o.cells and y + o.cells[y][0] > f + k for y in range(f + k - 7, f + k)): w.append((k, c[0], c[1])); k += c[0]
                        else: w.append((k, 1, s.cell(o, f + k, 1))); k += 1
                    s.obj(st, d, n, 'write')
                    for k, z, v in w: s.store(st, Ptr(d.o, K(d.f.c + k)), z, v)
                    return a[0]
            if nm == 'memset' and n > 16 and not d.f.l and not a[1].l:
                o, f = s.obj(st, d, n, 'write'); b = a[1].c & 255; f = f.c
                if not f and n == o.size: o.cells = {}; o.sh = False; o.fill = b; return a[0]
                if o.fill == b:
                    m = [y for y in o.cells if f - 8 < y < f + n]
                    if all(f <= y and y + o.cells[y][0] <= f + n for y in m if y + o.cells[y][0] > f):
                        for y in m:
                            if y >= f: o.w().pop(y)
                        return a[0]
            vals = [a[1]] * n if nm == 'memset' else [s.load(st, Ptr(a[1].o, s.add(s.pin(st, a[1]).f, K(k))), 1) for k in range(n)]
            for k in range(n): s.store(st, Ptr(d.o, s.add(d.f, K(k))), 1, vals[k])
            return a[0]
        if nm == 'strlen':
            for k in range(4096):
                v = s.load(st, Ptr(a[0].o, s.add(a[0].f, K(k))), 1); c = s.icmp('eq', ('i', 8), v, K(0))
                if s.need(c): return K(k)
        if nm in ('tolower', 'toupper', 'isdigit', 'isalpha', 'isspace', 'isupper', 'islower', 'isalnum'):
            f = {'tolower': lambda c: c + 32 if 65 <= c <= 90 else c, 'toupper': lambda c: c - 32 if 97 <= c <= 122 else c, 'isdigit': lambda c: int(48 <= c <= 57), 'isalpha': lambda c: int(65 <= c <= 90 or 97 <= c <= 122), 'isspace': lambda c: int(9 <= c <= 13 or c == 32), 'isupper': lambda c: int(65 <= c <= 90), 'islower': lambda c: int(97 <= c <= 122), 'isalnum': lambda c: int(65 <= c <= 90 or 97 <= c <= 122 or 48 <= c <= 57)}[nm]
            v = s.norm(a[0], 32, True)
            if not v.l: return K(f(v.c))
            r = s.root(v) if s.dom else None
            if r: return s.mk(r[0], [f(y) for y in r[1]])
            raise Unsupported(nm)
        if nm == 'realloc':
            n = s.conc(st, s.norm(a[1], 64, False), nm); o = a[0]
            if o.o is None: return s.libc(st, 'malloc', [a[1]], I)
            if o.o not in st.info.get('live', ()) or o.f.l or o.f.c: raise Bug('realloc of something that is not an allocated block')
            old = st.mem[o.o]; p = s.libc(st, 'malloc', [K(n)], I)
            if p.o is None: return p
            st.mem[p.o].sh = False; st.mem[p.o].cells = {k: c for k, c in old.cells.items() if k + c[0] <= n}
            if old.fill is not None:
                for k in range(min(n, old.size)):
                    if not any(y in old.cells and y + old.cells[y][0] > k for y in range(k - 7, k + 1)): st.mem[p.o].cells[k] = (1, K(old.fill))
            s.libc(st, 'free', [o], I); return p
        if nm in ('strncpy', 'strcpy', 'stpcpy'):
            n = s.conc(st, s.norm(a[2], 64, False), nm) if nm == 'strncpy' else 1 << 20; z = False; d = s.pin(st, a[0]); w = []
            for k in range(n):
                v = K(0) if z else s.load(st, Ptr(a[1].o, s.add(s.pin(st, a[1]).f, K(k))), 1); w.append(v)
                if not z and s.need(s.icmp('eq', ('i', 8), v, K(0))):
                    z = True
                    if nm != 'strncpy': break
            for k, v in enumerate(w): s.store(st, Ptr(d.o, s.add(d.f, K(k))), 1, v)
            return a[0]
        if nm in ('strcasecmp', 'strcmp', 'strncasecmp', 'strncmp', 'memcmp'):
            n = s.conc(st, s.norm(a[2], 64, False), nm) if len(a) > 2 else 1 << 20
            for k in range(n):
                x, y = [s.norm(s.load(st, Ptr(p.o, s.add(s.pin(st, p).f, K(k))), 1), 8, False) for p in a[:2]]
                if 'case' in nm: x, y = [s.libc(st, 'tolower', [c], I) for c in (x, y)]
                c = s.cmp('eq', x, y)
                if c is False or s.need(c) is False: return K(-1) if s.need(s.cmp('lt', x, y)) else K(1)
                if nm != 'memcmp' and s.need(s.cmp('eq', x, K(0))): return K(0)
            return K(0)
        h = s.hooks.get(nm)
        if h: return h(s, st, a, I)
        raise Unsupported('call of ' + nm)
    oom = False; hooks = {}

NATIVE = {'malloc', 'calloc', 'realloc', 'free', 'memset', 'memcpy', 'memmove', 'memcmp', 'strlen', 'strcmp', 'strncmp', 'strcasecmp', 'strncasecmp', 'strcpy', 'strncpy', 'tolower', 'toupper', 'isdigit', 'isalpha', 'isspace', 'isupper', 'islower', 'isalnum'}
class Throw(Exception):
    def __init__(s, obj, ti): s.obj, s.ti = obj, ti
class Fork(Exception):
    def __init__(s, alts): s.alts = alts

class Prune(Exception): pass
class Found(Exception):
    def __init__(s, what, model): s.what, s.model = what, model

class Run(X):
    """one proof task: inputs, obligations"""
    def input(s, name, lo, hi): v = s.var(name, lo, hi); s.inputs.append((name, v)); return v
    def candidates(s, vecs):
        for vec in vecs: s.pool.append({next(iter(v.l)): k for (n, v), k in zip(s.inputs, vec)})
    inputs = None
    def fail(s, what, c):
        m = None; ins = s.cur.info['nd'] if s.nd is not None else [v for _, v in s.inputs]
        if not isinstance(c, (D, R)):
            for k in s.pool: # a candidate on this path is a model
                if (c is None or s.cz(c, k)) and all(len(v.l) == 1 and next(iter(v.l)) in k for v in ins): m = [k[next(iter(v.l))] for v in ins]; break
        if m is None:
            s.sol.push()
            for z in s.domz(): s.sol.add(z)
            if c is not None: s.sol.add(s.zb(c))
            r = s.sol.check()
            if r == z3.sat: z = s.sol.model(); m = [z.eval(s.z(v), model_completion=True).as_long() for v in ins]
            s.sol.pop()
            if r == z3.unsat: return
        raise Found(what, m if s.nd is not None or m is None else {n: k for (n, _), k in zip(s.inputs, m)})
    def must(s, c, what):
        """obligation on the current path"""
        s.obl += 1
        if c is True: return
        if c is False: return s.fail(what, None)
        n = s.neg(c); r = s.check(n)
        if r == z3.unsat: return
        if r == z3.unknown: raise Unsupported('solver gave up on: ' + what)
        s.fail(what, n)
    obl = 0
    def equal(s, a, b, what):
        """obligation a == b, decided at the next flush"""
        s.obl += 1; a = K(a) if isinstance(a, int) else a; b = K(b) if isinstance(b, int) else b
        d = s.add(a, b, -1)
        if not d.l:
            if d.c: s.fail(what, None)
            return
        s.batch.append((d, what))
    def flush(s):
        if not s.batch: return
        q = {}
        for d, w in s.batch: q.setdefault(d.key(), (d, w))
        s.batch = []; r = s.check(z3.Or([s.z(d) != 0 for d, w in q.values()]))
        if r == z3.unsat: return
        if r == z3.unknown: raise Unsupported('solver gave up')
        for d, w in q.values():
            if s.check(s.z(d) != 0) != z3.unsat: s.fail(w, s.z(d) != 0)
    def explore(s, f):
        """runs f(decide) once for every combination of answers the path leaves open"""
        def decide(c):
            if isinstance(c, bool): return c
            raise Need(c)
        try: f(decide)
        except Need as n:
            s.batch = []
            for c in s.split(n.c) + s.split(s.neg(n.c)):
                if c is False or not s.feasible(c): continue
                d = s.dom; o = s.ords; s.sol.push(); s.assume(c)
                try: s.explore(f)
                finally: s.sol.pop(); s.dom = d; s.ords = o
        else: s.flush()
    def example(s):
        """concrete values for the small inputs on this path"""
        d = dict(s.dom)
        for i in d: d[i] &= -d[i]; d = s.narrow(d, s.ords, list(s.ords)) or d
        return {n: s.bvals[i][next(k for k in range(len(s.bvals[i])) if d[i] >> k & 1)] for n, v in s.inputs for i in v.l if i in s.dom}
class Need(Exception):
    def __init__(s, c): s.c = c

class Task:
    """E2 task: src (TU text or list of repo files), build(x) runs and checks, replay(vals) -> (bad?, text)"""
    kf = None; validate = False; passes = None; rsrcs = []; limit = 400000
    def __init__(s, name, parts, body, replay, bounds, timeout=300, oom=False, hooks=None, defs=None, witness=()):
        s.name, s.parts, s.body, s.replayf, s.bounds, s.timeout, s.oom, s.hooks, s.defs, s.witness = name, parts, body, replay, bounds, timeout, oom, hooks or {}, defs or {}, set(witness)
        s.harness = parts[0]; s.srcs = parts[1:]
    def run(s, R):
        import core
        t0 = time.time(); r = dict(task=s.name, harness=s.harness, defs=s.defs, bounds=s.bounds, verdict=None, notes=[], unwind=None)
        if R.stop: r['verdict'] = 'SKIPPED'; r['wall_s'] = 0; return r
        try:
            end = min(t0 + s.timeout, R.end); left = end - time.time()
            if left < 5: raise TimeoutError()
            rc, o, e = core.sh(['python3-vt', os.path.abspath(__file__), R.prop, R.tier, s.name, s.ll(R), str(end)], timeout=left + 20, mem=8)
            try: d = json.loads(o.strip().split('\n')[-1])
            except Exception: d = dict(verdict='TIMEOUT' if rc is None else 'ERROR', notes=[(e or '')[-900:]])
            r.update(d)
            if d.get('cex_model') is not None:
                bad, txt = s.replayf(R, d['cex_model']); txt = core.asan(txt); r['notes'].append('replay: ' + txt[:300])
                if bad: r['verdict'] = 'VIOLATED'; r['cex'] = dict(values=d['cex_model'], solver_property=d['what'], replay='FAIL', what='%s (%s)' % (d['what'], txt[:200]))
            elif s.validate and r['verdict'] == 'HOLDS' and d.get('sample'):
                bad, txt = s.replayf(R, d['sample']); r['validated'] = [dict(witness='end of a path', input=list(d['sample'].values())[:64], replay='FAIL ' + txt if bad else 'OK', reached=not bad)]
        except TimeoutError: r['verdict'] = 'TIMEOUT'
        except core.ToolError as ex: r['verdict'] = 'ERROR'; r['notes'].append(str(ex))
        except Exception:
            import traceback; r['verdict'] = 'ERROR'; r['notes'].append(traceback.format_exc()[-900:])
        r['wall_s'] = round(time.time() - t0, 2)
        if r['verdict'] == 'VIOLATED' and not os.environ.get('VP_ALL'): R.stop = True
        return r
    def solve(s, text, deadline):
        r = dict(notes=[]); x = Run(text, deadline, s.limit); x.inputs = []; x.oom = s.oom; x.hooks = s.hooks; x.seen = set(); x.sample = None
        try:
            s.body(x); r['verdict'] = 'HOLDS'; dead = s.witness - x.seen
            if x.paths == 0 or dead: r['verdict'] = 'VACUOUS'; r['notes'].append('unreached: %s' % sorted(dead))
        except Found as f: r.update(verdict='UNREPRODUCED', cex_model=f.model, what=f.what); r['notes'].append(f.what + ' ' + str(f.model)[:300])
        except Unsupported as e: r['verdict'] = 'ERROR'; r['notes'].append('not encodable: %s' % e)
        except (TimeoutError, z3.Z3Exception) as e: r['verdict'] = 'TIMEOUT'; r['notes'].append(str(e))
        except Exception:
            import traceback; r['verdict'] = 'ERROR'; r['notes'].append(traceback.format_exc()[-900:])
        r.update(functions=sorted(x.fns), queries=x.queries, solver_s=round(x.solver_s, 2), paths=x.paths, properties=x.obl, steps=x.steps, witnesses=sorted(x.seen), vars=len(x.vars), sample=x.sample)
        return r
    def ll(s, R):
        import core, hashlib
        def go():
            bcs = [R.b.ir(os.path.join(core.VERIF, 'harness', p) if not p.startswith('coda/') else os.path.join(core.REPO, p), {}) for p in s.parts]
            o = os.path.join(R.w, 'l' + hashlib.md5(repr(s.parts).encode()).hexdigest() + '.ll')
            rc, _, e = core.sh([core.LINK, '-o', o + '.bc'] + bcs)
            if rc: raise core.ToolError('llvm-link: ' + e[-500:])
            rc, _, e = core.sh([core.OPT, '-S', '-passes=' + (s.passes or 'function(sroa,mem2reg,simplifycfg,early-cse,instsimplify)'), o + '.bc', '-o', o])
            if rc: raise core.ToolError('opt: ' + e[-500:])
            return o
        return R.b.once(('lia', tuple(s.parts)), go)
    def binary(s, R, main):
        import core
        def go():
            o = os.path.join(R.w, 'rp_' + re.sub(r'\W', '_', main)); srcs = [os.path.join(core.VERIF, 'harness', x) for x in [main] + s.rsrcs] + [os.path.join(core.REPO, p) for p in s.parts if p.startswith('coda/')]
            rc, _, e = core.sh(['g++' if any(x.endswith('.cpp') for x in srcs) else 'gcc', '-O1', '-g', '-w', '-fpermissive', '-fsanitize=address', '-I' + core.REPO, '-o', o] + srcs, timeout=120)
            if rc: raise core.ToolError('replay build: ' + e[-500:])
            return o
        return R.b.once(('rp', main, tuple(s.parts)), go)
    def execute(s, R, main, args, env=None):
        import core
        rc, o, e = core.sh([s.binary(R, main)] + args, timeout=20, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=%d:exitcode=43:allocator_may_return_null=1' % (env or 0)))
        return rc, o, e

if __name__ == '__main__':
    prop, tier, name, ll, end = sys.argv[1:6]; here = os.path.dirname(os.path.abspath(__file__)); sys.path[:0] = [here, os.path.dirname(here)]; sys.setrecursionlimit(100000)
    import importlib, threading
    sys.modules['lia'] = sys.modules['__main__']
    def main():
        t = [t for t in importlib.import_module('checks.' + prop.lower()).tasks(tier) if t.name == name][0]
        print(json.dumps(t.solve(open(ll).read(), float(end))))
    threading.stack_size(512 << 20); th = threading.Thread(target=main); th.start(); th.join()
