"""LLVM IR -> C for CBMC.  One merged module in, one C file out (see DESIGN.md, 'Engine E1')."""
import re, struct, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import llir

PRE = r'''
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long u64; typedef unsigned __int128 u128;
typedef signed char s8; typedef short s16; typedef int s32; typedef long s64; typedef __int128 s128;
void *malloc(u64); void free(void *); void *realloc(void *, u64); void *calloc(u64, u64);
u8 nondet_u8(void); u16 nondet_u16(void); u32 nondet_u32(void); u64 nondet_u64(void);
#define vp_off(p) (((s64)((u64)__CPROVER_POINTER_OFFSET(p) << 8)) >> 8)
#define VP_REL(a, op, b) (__CPROVER_POINTER_OBJECT(a) == __CPROVER_POINTER_OBJECT(b) ? vp_off(a) op vp_off(b) : (u64)(a) op (u64)(b))
#define VP_P2I(p) (((u64)__CPROVER_POINTER_OBJECT(p) << 56) + (u64)vp_off(p))
u64 vp_nd_log;
struct vp_va_tag { u32 gp, fp; void *over, *save; };
#define VP_ND(T, n) static inline T x_nd_##n(void) { T v = nondet_##n(); vp_nd_log = (u64)v; return v; }
VP_ND(u8, u8) VP_ND(u16, u16) VP_ND(u32, u32) VP_ND(u64, u64)
int vp_exc; void *vp_exc_obj; void *vp_exc_ti;
void *vp_caught_obj[4]; void *vp_caught_ti[4]; int vp_ncaught;
static inline void *x___cxa_allocate_exception(u64 n) { return malloc(n); }
static inline void x___cxa_free_exception(void *p) { }
static inline void x___cxa_throw(void *o, void *ti, void *d) { vp_exc = 1; vp_exc_obj = o; vp_exc_ti = ti; }
static inline void x___cxa_rethrow(void) { __CPROVER_assert(vp_ncaught > 0, "VP rethrow without exception"); vp_exc = 1; vp_exc_obj = vp_caught_obj[(vp_ncaught - 1) & 3]; vp_exc_ti = vp_caught_ti[(vp_ncaught - 1) & 3]; }
void *vp_lp_ti;
static inline void *x___cxa_begin_catch(void *o) { __CPROVER_assert(vp_ncaught < 4, "VP exception nesting"); vp_caught_obj[vp_ncaught & 3] = o; vp_caught_ti[vp_ncaught & 3] = vp_lp_ti; vp_ncaught++; return o; }
static inline void x___cxa_end_catch(void) { vp_ncaught--; }
static inline void x___cxa_call_unexpected(void *o) { __CPROVER_assert(0, "std::unexpected called"); __CPROVER_assume(0); }
static inline void x__ZSt9terminatev(void) { __CPROVER_assert(0, "std::terminate called"); __CPROVER_assume(0); }
static inline void x_abort(void) { __CPROVER_assert(0, "abort called"); __CPROVER_assume(0); }
static inline void x___cxa_pure_virtual(void) { __CPROVER_assert(0, "pure virtual call"); __CPROVER_assume(0); }
static inline u32 x___cxa_atexit(void *f, void *a, void *d) { return 0; }
static inline u32 x___cxa_guard_acquire(void *g) { return *(u8 *)g == 0; }
static inline void x___cxa_guard_release(void *g) { *(u8 *)g = 1; }
static inline void x___cxa_guard_abort(void *g) { }
s64 vp_live;  /* live heap blocks made through malloc/new by the code under test */
int vp_nomem; /* set by a harness: allocations may fail */
u64 vp_last; /* size of the last allocation request */
static inline int vp_fail(void) { return vp_nomem == 2 || (vp_nomem == 1 && (x_nd_u8() & 1)); }
static inline void *x_malloc(u64 n) { vp_last = n; if (vp_fail()) return (void *)0; vp_live++; return malloc(n); }
static inline void *x_calloc(u64 a, u64 b) { vp_last = a * b; if (vp_fail()) return (void *)0; vp_live++; return calloc(a, b); }
static inline u64 x_vp_last_malloc(void) { return vp_last; }
static inline void x_free(void *p) { if (p) vp_live--; free(p); }
static inline void *x_realloc(void *p, u64 n) { vp_last = n; if (vp_fail()) return (void *)0; if (!p) vp_live++; return realloc(p, n); }
static inline void *x__Znwm(u64 n) { vp_live++; return malloc(n); }
static inline void *x__Znam(u64 n) { vp_live++; return malloc(n); }
static inline void x__ZdlPv(void *p) { if (p) vp_live--; free(p); }
static inline void x__ZdaPv(void *p) { if (p) vp_live--; free(p); }
static inline void x__ZdlPvm(void *p, u64 n) { if (p) vp_live--; free(p); }
static inline void x__ZdaPvm(void *p, u64 n) { if (p) vp_live--; free(p); }
static inline void x_vp_cell_free(void *p) { free(p); }
static inline void *x_vp_buf(u64 n) { vp_live++; return malloc(n); }
static inline u64 x_vp_live_blocks(void) { return (u64)vp_live; }
static inline void x_vp_set_nomem(u32 v) { vp_nomem = (int)v; }
static inline void x_vp_no_leak_track(void) { }
static inline void *vp_alloca(u64 n) { return malloc(n); }
static inline u64 x_vp_obj_size(void *p) { return __CPROVER_OBJECT_SIZE(p); }
static inline u64 x_vp_obj_off(void *p) { return (u64)vp_off(p); }
static inline u32 x_vp_same_obj(void *p, void *q) { return __CPROVER_POINTER_OBJECT(p) == __CPROVER_POINTER_OBJECT(q); }
'''
BUILTIN = set(re.findall(r'\bx_(\w+)\s*\(', PRE)) | {'nd_u8', 'nd_u16', 'nd_u32', 'nd_u64', 'vp_assert', 'vp_assume', 'vp_witness', '__gxx_personality_v0'}
NOTHROW_EXT = True

class E:
    def __init__(s, m, root='harness'):
        s.m = m; s.L = llir.Layout(m); s.tn = {}; s.tdecl = []; s.root = root; s.unmodelled = []; s.body = {}
        s.idn = {}; s.used = set(); s.undefs = {}
    # ---- names
    def cid(s, n):
        r = re.sub(r'\W', '_', n)
        return r
    def gname(s, n):
        if ('g', n) in s.idn: return s.idn['g', n]
        r = 'g_' + s.cid(n)
        while r in s.used: r += '_'
        s.used.add(r); s.idn['g', n] = r; return r
    def fname(s, n): return 'x_' + s.cid(n)
    # ---- types
    def ct(s, t):
        if t in s.tn: return s.tn[t]
        k = t[0]
        if k == 'i':
            r = {1: 'u8', 8: 'u8', 16: 'u16', 32: 'u32', 64: 'u64', 128: 'u128'}.get(t[1])
            if r is None:
                r = 'ub%d' % t[1]; s.tdecl.append('typedef unsigned __CPROVER_bitvector[%d] %s; typedef signed __CPROVER_bitvector[%d] sb%d;' % (t[1], r, t[1], t[1]))
        elif k == 'ptr': r = 'void *'
        elif k == 'void': r = 'void'
        elif k in ('float', 'double'): r = k
        elif k == 'fp80': r = 'long double'
        elif k == 'named':
            u = s.m.types[t[1]]
            if u[0] == 'opaque': r = 'u8'
            else:
                r = 'struct T%d_%s' % (len(s.tn), re.sub(r'\W', '_', t[1])[:30]); s.tn[t] = r; s.sdecl(r, u)
        elif k == 'struct':
            r = 'struct L%d' % len(s.tn); s.tn[t] = r; s.sdecl(r, t)
        elif k == 'arr':
            e = s.ct(t[2]); r = 'A%d' % len(s.tn); s.tdecl.append('typedef %s %s[%d];' % (e, r, t[1]))
        else: raise NotImplementedError('type %r' % (t,))
        s.tn[t] = r; return r
    def sdecl(s, r, u):
        fs = []
        for i, e in enumerate(u[1]):
            c = s.ct(e); fs.append('%s f%d;' % (c, i))
        s.tdecl.append('%s { %s }%s;' % (r, ' '.join(fs), ' __attribute__((packed))' if u[2] else ''))
    def st(s, t):  # signed version
        n = t[1]
        return {1: 's8', 8: 's8', 16: 's16', 32: 's32', 64: 's64', 128: 's128'}.get(n) or (s.ct(t), 'sb%d' % n)[1]
    def undef(s, t):
        k = t[0]
        if k == 'ptr': return '((void *)0)'
        if k == 'i':
            return {1: '(nondet_u8() & 1)', 8: 'nondet_u8()', 16: 'nondet_u16()', 32: 'nondet_u32()', 64: 'nondet_u64()'}.get(t[1], '0')
        if k in ('float', 'double', 'fp80'): return '0.0'
        c = s.ct(t); n = 'vp_undef_' + re.sub(r'\W', '_', c)
        s.undefs[n] = '%s %s;' % (c, n); return n
    # ---- constants
    def intlit(s, t, v):
        n = t[1]; v &= (1 << n) - 1
        if n <= 32: return '%dU' % v if n == 32 else '%d' % v
        if n <= 64: return '%dUL' % v
        return '(((u128)%dUL << 64) | %dUL)' % (v >> 64, v & (2**64 - 1))
    def fp(s, t, x):
        if x.startswith('0xK') or x.startswith('0xL'): raise NotImplementedError('fp80 const')
        if x.startswith('0x'):
            d = struct.unpack('>d', bytes.fromhex(x[2:].rjust(16, '0')))[0]
        else: d = float(x)
        if d != d or d in (float('inf'), float('-inf')): return '(%s1.0/0.0)' % ('-' if d < 0 else '')
        r = repr(d)
        if 'e' not in r and '.' not in r: r += '.0'
        return r + ('f' if t[0] == 'float' else '')
    def gepc(s, bt, ops):  # constant byte offset
        off = 0; t = bt
        for j, (ty, v) in enumerate(ops[1:]):
            assert v[0] in ('int', 'zero'), v
            i = v[1] if v[0] == 'int' else 0
            if j == 0: off += i * s.L.size(t); continue
            t = s.L.res(t)
            if t[0] == 'struct': off += s.L.off(t, i); t = t[1][i]
            else: off += i * s.L.size(t[2]); t = t[2]
        return off
    def const(s, t, v):
        """C expression for a constant usable inside functions and in static initialisers (scalars)."""
        k = v[0]
        if k == 'int': return s.intlit(t, v[1])
        if k == 'fp': return s.fp(t, v[1])
        if k == 'null': return '((void *)0)'
        if k == 'undef': return s.undef(t)
        if k == 'zero':
            if t[0] == 'ptr': return '((void *)0)'
            if t[0] in ('i',): return '0'
            if t[0] in ('float', 'double', 'fp80'): return '0.0'
            c = s.ct(t); n = 'vp_zero_' + re.sub(r'\W', '_', c); s.undefs[n] = 'const %s %s = {0};' % (c, n); return n
        if k == 'glob':
            n = v[1]; g = s.m.globals.get(n)
            if g is not None and g.alias is not None: return s.const(t, g.alias)
            s.ref(n)
            if n in s.m.funcs: return '((void *)%s)' % s.fname(n)
            return '((void *)&%s%s)' % (s.gname(n), s.elem(g.ty) if g is not None and g.ty is not None else '')
        if k == 'ce':
            op = v[1]
            if op == 'gep':
                base = v[3][0]; off = s.gepc(v[2], v[3])
                b = s.const(base[0], base[1])
                return b if off == 0 else '((void *)((u8 *)%s + %d))' % (b, off)
            if op in ('bitcast', 'addrspacecast'): return s.const(v[2][0], v[2][1])
            if op == 'ptrtoint': return '((%s)%s)' % (s.ct(v[3]), s.const(*v[2]))
            if op == 'inttoptr': return '((void *)(u64)%s)' % s.const(*v[2])
            if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl'):
                c = {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'or': '|', 'xor': '^', 'shl': '<<'}[op]
                return '((%s)(%s %s %s))' % (s.ct(t), s.const(*v[2]), c, s.const(*v[3]))
            if op in ('trunc', 'zext'): return '((%s)%s)' % (s.ct(v[3]), s.const(*v[2]))
            if op == 'icmp': return '(%s %s %s)' % (s.const(*v[3]), {'eq': '==', 'ne': '!='}[v[2]], s.const(*v[4]))
            if op == 'select': return '(%s ? %s : %s)' % (s.const(*v[2]), s.const(*v[3]), s.const(*v[4]))
        if k in ('agg', 'cstr'):  # aggregate constant used as a value: make a named constant
            c = s.ct(t); n = 'vp_k%d' % len(s.undefs); s.undefs[n] = 'const %s %s = %s;' % (c, n, s.ginit(t, v)); return n
        raise NotImplementedError('const %r %r' % (t, v))
    def ginit(s, t, v):
        k = v[0]; rt = s.L.res(t)
        if k in ('zero', 'undef') and rt[0] in ('struct', 'arr'): return '{0}'
        if k == 'cstr': return '{%s}' % ','.join(str(b) for b in v[1])
        if k == 'agg': return '{%s}' % ','.join(s.ginit(a, b) for a, b in v[2])
        if k == 'undef': return '0'
        return s.const(t, v)
    def ref(s, n):
        if n not in s.seen: s.seen.add(n); s.work.append(n)
    # ---- may-throw analysis
    def throwers(s):
        T = {'__cxa_throw', '__cxa_rethrow'}
        may = set()
        for n in s.m.funcs:
            if n in T: may.add(n)
        for n, f in s.m.funcs.items():
            if f.blocks is None and n.startswith('_ZSt') and 'throw' in n: may.add(n)
        calls = {}; addr = set(); indirect = set()
        def walk(v):
            if isinstance(v, tuple):
                if len(v) == 2 and v[0] == 'glob': addr.add(v[1]); return
                for x in v: walk(x)
            elif isinstance(v, list):
                for x in v: walk(x)
        for n, f in s.m.funcs.items():
            if f.blocks is None: continue
            cs = set()
            for b in f.order:
                for i in f.blocks[b]:
                    if i.op in ('call', 'invoke'):
                        c = i.a['callee']
                        if c[0] == 'glob': cs.add(c[1])
                        else: indirect.add(n)
                        for a in i.a['args']: walk(a[1])
                    else:
                        for x in i.a.values(): walk(x)
                    if i.op == 'resume': cs.add('__cxa_throw')
            calls[n] = cs
        for g in s.m.globals.values():
            if g.init is not None: walk(g.init)
        T = set(may) | {'__cxa_throw', '__cxa_rethrow'}
        while True:
            ind = any(a in T for a in addr)
            new = {n for n, cs in calls.items() if n not in T and not s.nounwind(s.m.funcs[n]) and ((cs & T) or (ind and n in indirect))}
            if not new: break
            T |= new
        s.T = T; s.ind_throw = any(a in T for a in addr)
    def nounwind(s, f):
        for a in f.attrs:
            if a == 'nounwind' or (a in s.m.attrs and re.search(r'\bnounwind\b', s.m.attrs[a])): return True
        return False
    # ---- block order
    def order(s, f):
        succ = {b: s.succ(f.blocks[b][-1]) for b in f.order}
        # reachable
        seen = set(); st = [f.order[0]]
        while st:
            b = st.pop()
            if b in seen: continue
            seen.add(b); st += succ[b]
        def scc(nodes, sc):
            idx = {}; low = {}; onst = set(); stack = []; out = []; c = [0]
            sys.setrecursionlimit(20000)
            def go(v):
                idx[v] = low[v] = c[0]; c[0] += 1; stack.append(v); onst.add(v)
                for w in sc(v):
                    if w not in nodes: continue
                    if w not in idx: go(w); low[v] = min(low[v], low[w])
                    elif w in onst: low[v] = min(low[v], idx[w])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = stack.pop(); onst.discard(w); comp.append(w)
                        if w == v: break
                    out.append(comp)
            return idx, go, out
        def emit(nodes, entry, banned):
            nodes = set(nodes)
            sc = lambda v: [w for w in succ[v] if (v, w) not in banned]
            idx, go, out = scc(nodes, sc)
            go(entry)
            for n in f.order:
                if n in nodes and n not in idx: go(n)
            res = []
            for comp in reversed(out):
                cs = set(comp)
                if len(comp) == 1 and not (comp[0] in sc(comp[0])): res.append(comp[0]); continue
                if entry in cs: h = entry
                else:
                    cand = [v for v in f.order if v in cs and any(v in succ[u] for u in seen if u not in cs)]
                    h = cand[0] if cand else next(v for v in f.order if v in cs)
                if len(comp) == 1: res.append(h); continue
                b2 = set(banned) | {(u, h) for u in cs if h in succ[u]}
                res += emit(comp, h, b2)
            return res
        return emit(seen, f.order[0], set())
    def succ(s, t):
        if t.op == 'br': return [t.a['to']]
        if t.op == 'cbr': return [t.a['t'], t.a['f']]
        if t.op == 'switch': return [t.a['d']] + [l for _, l in t.a['cs']]
        if t.op == 'invoke': return [t.a['ok'], t.a['bad']]
        return []
    # ---- module
    def run(s):
        m = s.m; s.seen = set(); s.work = []
        s.throwers()
        s.ref(s.root)
        fb = []; fp = []; gl = []; order = []
        ctors = m.globals.get('llvm.global_ctors'); ctorf = []
        if ctors is not None and ctors.init and ctors.init[0] == 'agg':
            for _, e in ctors.init[2]: ctorf.append(e[2][1][1][1]); s.ref(ctorf[-1])
        while s.work:
            n = s.work.pop(0)
            if n in m.funcs:
                f = m.funcs[n]
                if f.blocks is None:
                    if n in BUILTIN or n.startswith('llvm.'): continue
                    fp.append(s.proto(f) + ';')
                    s.unmodelled.append(n)
                    # calling an unmodelled function is an error of the check, never a silent assumption
                    fb.append('%s { __CPROVER_assert(0, "UNMODELLED %s"); __CPROVER_assume(0); %s }' % (s.proto(f), n, '' if f.ret[0] == 'void' else 'return %s;' % s.undef(f.ret)))
                    continue
                if n in BUILTIN: raise NotImplementedError('harness redefines builtin ' + n)
                fp.append(s.proto(f) + ';'); fb.append(s.func(f)); order.append(n)
            elif n in m.globals:
                g = m.globals[n]
                if g.alias is not None: continue
                c = s.ct(g.ty) if s.L.res(g.ty)[0] != 'opaque' else 'u8'
                gl.append((n, c, g))
            else: raise KeyError(n)
        gd = []; gi = []
        for n, c, g in gl: gd.append('extern %s %s;' % (c, s.gname(n)))
        for n, c, g in gl:
            if g.init is None or g.init[0] in ('zero', 'undef'): gi.append('%s %s;' % (c, s.gname(n)))
            else: gi.append('%s %s = %s;' % (c, s.gname(n), s.ginit(g.ty, g.init)))
        # initialisers may have referenced further symbols
        if s.work: return s.run2(fb, fp, gd, gi, order, ctorf)
        return s.assemble(fb, fp, gd, gi, order, ctorf)
    def run2(s, fb, fp, gd, gi, order, ctorf):
        m = s.m; done = set()
        while s.work:
            n = s.work.pop(0)
            if n in m.funcs:
                f = m.funcs[n]
                if f.blocks is None:
                    if n in BUILTIN or n.startswith('llvm.'): continue
                    fp.append(s.proto(f) + ';'); s.unmodelled.append(n)
                    fb.append('%s { __CPROVER_assert(0, "UNMODELLED %s"); __CPROVER_assume(0); %s }' % (s.proto(f), n, '' if f.ret[0] == 'void' else 'return %s;' % s.undef(f.ret)))
                    continue
                fp.append(s.proto(f) + ';'); fb.append(s.func(f)); order.append(n)
            else:
                g = m.globals[n]
                if g.alias is not None: continue
                c = s.ct(g.ty) if s.L.res(g.ty)[0] != 'opaque' else 'u8'
                gd.append('extern %s %s;' % (c, s.gname(n)))
                if g.init is None or g.init[0] in ('zero', 'undef'): gi.append('%s %s;' % (c, s.gname(n)))
                else: gi.append('%s %s = %s;' % (c, s.gname(n), s.ginit(g.ty, g.init)))
        return s.assemble(fb, fp, gd, gi, order, ctorf)
    def assemble(s, fb, fp, gd, gi, order, ctorf):
        s.emitted = order
        main = 'int main(void) { %s %s(); return 0; }' % (' '.join(s.fname(c) + '();' for c in ctorf), s.fname(s.root))
        return '\n'.join([PRE] + s.tdecl + list(s.undefs.values()) + fp + gd + gi + [s.timatch()] + fb + [main]) + '\n'
    def timatch(s):
        # class hierarchy from the type_info objects present
        out = ['int vp_ti_match(void *thrown, void *want) {', ' if (thrown == want) return 1;']
        for n in sorted(s.seen):
            g = s.m.globals.get(n)
            if not n.startswith('_ZTI') or g is None or g.init is None or g.init[0] != 'agg' or len(g.init[2]) != 3: continue
            b = g.init[2][2][1]
            if b[0] == 'glob': out.append(' if (thrown == (void *)&%s) return vp_ti_match((void *)&%s, want);' % (s.gname(n), s.gname(b[1])))
        out.append(' return 0; }')
        return '\n'.join(out)
    def proto(s, f):
        ps = []
        for ty, nm, at in f.params: ps.append('%s %s' % (s.ct(ty), s.lname(nm) if nm else ''))
        if f.vararg and f.blocks is not None: ps.append('u64 *vp_va')
        elif f.vararg and ps: ps.append('...')
        return '%s %s(%s)' % (s.ct(f.ret), s.fname(f.name), ', '.join(ps) if ps else ('' if f.vararg else 'void'))
    def lname(s, n): return 'v_' + re.sub(r'\W', '_', n)
    # ---- functions
    def func(s, f):
        s.f = f; s.tyof = {}; s.inl = {}; s.alloc = {}; s.names = {}; used = set()
        def nm(n):
            r = s.lname(n)
            while r in used: r += '_'
            used.add(r); s.names[n] = r; return r
        for ty, n, at in f.params:
            used.add(s.lname(n)); s.names[n] = s.lname(n); s.tyof[n] = ty
        blocks = s.order(f)
        lab = {b: 'B%d' % i for i, b in enumerate(blocks)}
        decl = []; byval = []
        for n, (ty, pn, at) in enumerate(f.params):
            pass
        defs = {}
        bset = set(blocks)
        for b in blocks:
            for i in f.blocks[b]:
                if i.dst is not None: defs[i.dst] = i; s.tyof[i.dst] = s.rty(i)
        s.defs = defs
        for b in blocks:
            for i in f.blocks[b]:
                if i.dst is None: continue
                if i.op == 'alloca' and b == f.order[0] and (i.a['n'] is None or i.a['n'][1][0] == 'int'):
                    t = i.a['aty']
                    if i.a['n'] is not None and i.a['n'][1][1] != 1: t = ('arr', i.a['n'][1][1], t)
                    v = nm(i.dst); decl.append('%s %s;' % (s.ct(t), v)); s.alloc[i.dst] = t; continue
                if i.op == 'gep':
                    s.inl[i.dst] = i
                    if s.opaque(i): decl.append('u64 %s_o;' % nm(i.dst))
                    continue
                t = s.tyof[i.dst]
                if t[0] == 'void': continue
                v = nm(i.dst); decl.append('%s %s;' % (s.ct(t), v))
                if i.op == 'phi': decl.append('%s %s_p;' % (s.ct(t), v))
        out = []
        for b in blocks:
            out.append('%s: ;' % lab[b])
            for i in f.blocks[b]:
                if i.op == 'phi': out.append(' %s = %s_p;' % (s.names[i.dst], s.names[i.dst]))
            for i in f.blocks[b]:
                try: out += s.ins(i, b, lab, bset)
                except NotImplementedError as e: raise NotImplementedError('%s in %s: %r' % (e, f.name, i))
        return '%s {\n %s\n%s\n}' % (s.proto(f), '\n '.join(decl), '\n'.join(out))
    def rty(s, i):
        if i.op == 'extractvalue':
            t = i.a['v'][0]
            for x in i.a['ix']:
                t = s.L.res(t); t = t[1][x] if t[0] == 'struct' else t[2]
            i.ty = t; return t
        return i.ty
    def v(s, t, x):
        if x[0] == 'loc':
            n = x[1]
            if n in s.alloc: return '((void *)&%s%s)' % (s.names[n], s.elem(s.alloc[n]))
            if n in s.inl: return s.gep(s.inl[n])
            return s.names[n]
        return s.const(t, x)
    def gep(s, i):
        base = s.v(('ptr',), i.a['b']); t = i.a['bt']; idx = i.a['idx']
        first = idx[0]; c = s.ct(t)
        if s.opaque(i): return '((void *)((u8 *)%s + (s64)%s_o))' % (base, s.names[i.dst])
        fi = s.sidx(first)
        if t[0] == 'i' and t[1] == 8:
            return base if fi == '0' else '((void *)((u8 *)%s + %s))' % (base, fi)
        e = '(*(%s *)%s)' % (c, base) if fi == '0' else '(((%s *)%s)[%s])' % (c, base, fi)
        if len(idx) == 1:
            return base if fi == '0' else '((void *)((%s *)%s + %s))' % (c, base, fi)
        for ty, x in idx[1:]:
            t = s.L.res(t)
            if t[0] == 'struct': n = x[1] if x[0] == 'int' else 0; e += '.f%d' % n; t = t[1][n]
            elif t[0] == 'arr':
                e += '[%s]' % s.sidx((ty, x)); t = t[2]
            else: raise NotImplementedError('gep')
        return '((void *)&%s%s)' % (e, s.elem(t))
    def opaque(s, i):
        """a variable index over aggregates: its byte offset goes through a temporary.  CBMC 6.11 resolves an access at
        `constant + size*index` inside the first element only (DESIGN.md, soundness of the encoding)"""
        t = i.a['bt']; agg = lambda t: s.L.res(t)[0] in ('struct', 'arr')
        for j, (ty, x) in enumerate(i.a['idx']):
            if j:
                t = s.L.res(t)
                if t[0] == 'struct': t = t[1][x[1] if x[0] == 'int' else 0]; continue
                t = t[2]
            if x[0] not in ('int', 'zero') and agg(t): return True
        return False
    def gepoff(s, i):
        t = i.a['bt']; o = []; k = 0
        for j, (ty, x) in enumerate(i.a['idx']):
            if j:
                t = s.L.res(t)
                if t[0] == 'struct': n = x[1] if x[0] == 'int' else 0; k += s.L.off(t, n); t = t[1][n]; continue
                t = t[2]
            if x[0] in ('int', 'zero'): k += (x[1] if x[0] == 'int' else 0) * s.L.size(t)
            else: o.append('%s * %d' % (s.sidx((ty, x)), s.L.size(t)))
        return ' + '.join(o + ([str(k)] if k else []))
    def elem(s, t):
        """addresses are always taken of an array's first element: CBMC 6.11 mis-resolves a pointer that may be
        either the address of a whole array or of one of its elements (see DESIGN.md, soundness of the encoding)"""
        r = ''; t = s.L.res(t)
        while t[0] == 'arr' and t[1] > 0: r += '[0]'; t = s.L.res(t[2])
        return r
    def sidx(s, tv):
        t, x = tv
        if x[0] == 'int': return str(x[1])
        if x[0] == 'zero': return '0'
        return '(s64)(%s)%s' % (s.st(t), s.v(t, x)) if t[1] < 64 else '(s64)%s' % s.v(t, x)
    def edge(s, frm, to, lab, bset):
        o = []
        for i in s.f.blocks[to]:
            if i.op != 'phi': break
            for v, l in i.a['inc']:
                if l == frm:
                    o.append('%s_p = %s;' % (s.names[i.dst], s.v(i.ty, v))); break
        return ' '.join(o + ['goto %s;' % lab[to]])
    def norm(s, t, e):
        if t == ('i', 1): return '(u8)((%s) & 1)' % e
        return '(%s)(%s)' % (s.ct(t), e)
    def retundef(s):
        return 'return;' if s.f.ret[0] == 'void' else 'return %s;' % s.undef(s.f.ret)
    def ins(s, i, b, lab, bset):
        op = i.op; a = i.a; d = s.names.get(i.dst) if i.dst is not None else None
        if op == 'gep': return [' %s_o = (u64)(%s);' % (d, s.gepoff(i))] if s.opaque(i) else []
        if op in ('phi', 'nop'): return []
        if op == 'alloca':
            if i.dst in s.alloc: return []
            n = s.v(*a['n']) if a['n'] else '1'
            return [' %s = vp_alloca((u64)%s * %dUL);' % (d, n, s.L.size(a['aty']))]
        if op == 'ret': return [' return%s;' % ('' if a['v'] is None else ' ' + s.v(i.ty, a['v']))]
        if op == 'br': return [' ' + s.edge(b, a['to'], lab, bset)]
        if op == 'cbr':
            if a['t'] == a['f']: return [' ' + s.edge(b, a['t'], lab, bset)]
            return [' if (%s) { %s } else { %s }' % (s.v(('i', 1), a['c']), s.edge(b, a['t'], lab, bset), s.edge(b, a['f'], lab, bset))]
        if op == 'switch':
            o = []; x = s.v(i.ty, a['v'])
            # chains of equal targets are merged into one condition
            g = {}
            for cv, l in a['cs']: g.setdefault(l, []).append(s.const(i.ty, cv))
            for l, cs in g.items():
                o.append(' if (%s) { %s }' % (' || '.join('%s == %s' % (x, c) for c in cs), s.edge(b, l, lab, bset)))
            o.append(' ' + s.edge(b, a['d'], lab, bset)); return o
        if op == 'unreachable': return [' __CPROVER_assume(0);', ' ' + s.retundef()]
        if op == 'resume':
            return [' vp_exc = 1; vp_exc_obj = %s.f0; vp_exc_ti = vp_lp_ti;' % s.v(i.ty, a['v']), ' ' + s.retundef()]
        if op == 'bin':
            o = a['o']; t = i.ty; x = s.v(t, a['x']); y = s.v(t, a['y'])
            if t[0] != 'i':
                return [' %s = %s %s %s;' % (d, x, {'fadd': '+', 'fsub': '-', 'fmul': '*', 'fdiv': '/'}[o], y)]
            if o == 'sub' and a['x'][0] == 'loc' and a['y'][0] == 'loc':
                p, q = s.defs.get(a['x'][1]), s.defs.get(a['y'][1])
                if p and q and p.op == 'cast' and q.op == 'cast' and p.a['o'] == 'ptrtoint' and q.a['o'] == 'ptrtoint':
                    return [' %s = (u64)(vp_off(%s) - vp_off(%s));' % (d, s.v(('ptr',), p.a['v']), s.v(('ptr',), q.a['v']))]
            c = {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'or': '|', 'xor': '^', 'udiv': '/', 'urem': '%', 'sdiv': '/', 'srem': '%', 'shl': '<<', 'lshr': '>>', 'ashr': '>>'}[o]
            if o in ('sdiv', 'srem'): x = '(%s)%s' % (s.st(t), x); y = '(%s)%s' % (s.st(t), y)
            if o == 'ashr': x = '(%s)%s' % (s.st(t), x)
            if o in ('udiv', 'urem', 'sdiv', 'srem') and a['y'][0] != 'int':
                return [' __CPROVER_assert(%s != 0, "division by zero");' % y, ' %s = %s;' % (d, s.norm(t, '%s %s %s' % (x, c, y)))]
            return [' %s = %s;' % (d, s.norm(t, '%s %s %s' % (x, c, y)))]
        if op == 'fneg': return [' %s = -%s;' % (d, s.v(i.ty, a['v']))]
        if op == 'cast':
            o = a['o']; ft = a['fty']; x = s.v(ft, a['v']); t = i.ty
            if o == 'trunc': return [' %s = %s;' % (d, s.norm(t, x))]
            if o == 'zext': return [' %s = (%s)%s;' % (d, s.ct(t), x)]
            if o == 'sext':
                if ft[1] == 1: return [' %s = %s ? (%s)-1 : 0;' % (d, x, s.ct(t))]
                return [' %s = (%s)(%s)(%s)%s;' % (d, s.ct(t), s.st(t), s.st(ft), x)]
            if o == 'ptrtoint':
                if t != ('i', 64): return [' %s = (%s)(u64)%s;' % (d, s.ct(t), x)]
                return [' %s = VP_P2I(%s);' % (d, x)]
            if o == 'inttoptr': return [' %s = (void *)(u64)%s;' % (d, x)]
            if o in ('bitcast', 'addrspacecast'):
                if ft[0] == t[0]: return [' %s = %s;' % (d, x)]
                raise NotImplementedError('bitcast')
            if o in ('fptoui', 'uitofp', 'fptrunc', 'fpext'): return [' %s = (%s)%s;' % (d, s.ct(t), x)]
            if o == 'fptosi': return [' %s = (%s)(%s)%s;' % (d, s.ct(t), s.st(t), x)]
            if o == 'sitofp': return [' %s = (%s)(%s)%s;' % (d, s.ct(t), s.st(ft), x)]
        if op == 'icmp':
            t = a['oty']; x = s.v(t, a['x']); y = s.v(t, a['y']); pr = a['pr']
            c = {'eq': '==', 'ne': '!=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>=', 'slt': '<', 'sle': '<=', 'sgt': '>', 'sge': '>='}[pr]
            if t[0] == 'ptr' and pr not in ('eq', 'ne'): return [' %s = VP_REL(%s, %s, %s);' % (d, x, c, y)]
            if pr[0] == 's' and t[0] == 'i':
                if t[1] == 1: x = '-(s8)' + x; y = '-(s8)' + y
                else: x = '(%s)%s' % (s.st(t), x); y = '(%s)%s' % (s.st(t), y)
            return [' %s = %s %s %s;' % (d, x, c, y)]
        if op == 'fcmp':
            x = s.v(a['oty'], a['x']); y = s.v(a['oty'], a['y'])
            return [' %s = %s %s %s;' % (d, x, {'oeq': '==', 'une': '!=', 'olt': '<', 'ole': '<=', 'ogt': '>', 'oge': '>='}[a['pr']], y)]
        if op == 'select': return [' %s = %s ? %s : %s;' % (d, s.v(('i', 1), a['c']), s.v(i.ty, a['x']), s.v(i.ty, a['y']))]
        if op == 'freeze': return [' %s = %s;' % (d, s.v(i.ty, a['v']))]
        if op == 'load':
            return [' %s = *(%s *)%s;' % (d, s.ct(i.ty), s.v(('ptr',), a['p']))]
        if op == 'store':
            if a['v'][0] == 'undef': return []
            return [' *(%s *)%s = %s;' % (s.ct(i.ty), s.v(('ptr',), a['p']), s.v(i.ty, a['v']))]
        if op == 'extractvalue':
            t = a['v'][0]; e = s.v(t, a['v'][1])
            for x in a['ix']:
                t = s.L.res(t); e += '.f%d' % x if t[0] == 'struct' else '[%d]' % x; t = t[1][x] if t[0] == 'struct' else t[2]
            return [' %s = %s;' % (d, e)]
        if op == 'insertvalue':
            t = a['v'][0]; o = [' %s = %s;' % (d, s.v(t, a['v'][1]))]; e = d
            for x in a['ix']:
                t = s.L.res(t); e += '.f%d' % x if t[0] == 'struct' else '[%d]' % x
            return o + [' %s = %s;' % (e, s.v(*a['w']))]
        if op == 'landingpad':
            o = [' %s.f0 = vp_exc_obj; %s.f1 = 0; vp_lp_ti = vp_exc_ti; vp_exc = 0;' % (d, d)]
            first = True
            for kind, (t, v) in a['cl']:
                if kind == 'catch':
                    if v[0] == 'null': c = '1'; sel = 1
                    else: c = 'vp_ti_match(vp_exc_ti, %s)' % s.v(t, v); sel = s.typeid(v)
                else:
                    es = v[2] if v[0] == 'agg' else []
                    c = '!(%s)' % (' || '.join('vp_ti_match(vp_exc_ti, %s)' % s.v(*e) for e in es) or '0'); sel = 0xffffffff
                o.append(' %sif (%s) %s.f1 = %dU;' % ('' if first else 'else ', c, d, sel)); first = False
            return o
        if op in ('call', 'invoke'): return s.call(i, b, lab, bset, d)
        if op == 'atomicrmw':
            p = s.v(('ptr',), a['p']); v = s.v(i.ty, a['v']); c = s.ct(i.ty)
            n = {'add': '*(%s *)%s + %s', 'sub': '*(%s *)%s - %s', 'or': '*(%s *)%s | %s', 'and': '*(%s *)%s & %s'}.get(a['o'])
            return [' %s = *(%s *)%s;' % (d, c, p), ' *(%s *)%s = (%s)(%s);' % (c, p, c, n % (c, p, v) if n else v)]
        if op == 'cmpxchg':
            t = i.ty[1][0]; c = s.ct(t); p = s.v(('ptr',), a['p'])
            return [' %s.f0 = *(%s *)%s; %s.f1 = %s.f0 == %s; if (%s.f1) *(%s *)%s = %s;' % (d, c, p, d, d, s.v(t, a['c']), d, c, p, s.v(t, a['n']))]
        raise NotImplementedError(op)
    def typeid(s, v):
        if not hasattr(s, 'tids'): s.tids = {}
        return s.tids.setdefault(v[1], len(s.tids) + 2)
    def ptype(s, v):
        """static pointee type of a pointer value when evident"""
        if v[0] == 'loc':
            if v[1] in s.alloc: return s.alloc[v[1]]
            i = s.inl.get(v[1])
            if i is not None:
                t = i.a['bt']
                for ty, x in i.a['idx'][1:]:
                    t = s.L.res(t)
                    t = t[1][x[1] if x[0] == 'int' else 0] if t[0] == 'struct' else t[2]
                return t
        if v[0] == 'glob':
            g = s.m.globals.get(v[1])
            if g is not None and g.alias is None: return g.ty
        return None
    def matches(s, t, n):
        """narrow t to a leading member of exactly n bytes"""
        while t is not None:
            z = s.L.size(t)
            if z == n: return t if s.L.res(t)[0] != 'arr' else ('struct', (t,), False)
            if z < n: return None
            r = s.L.res(t)
            if r[0] == 'struct' and r[1]: t = r[1][0]
            elif r[0] == 'arr' and r[1] > 0: t = r[2]
            else: return None
        return None
    def bytes_t(s, n):
        if n % 8 == 0: return ('struct', (('arr', n // 8, ('i', 64)),), False)
        return ('struct', (('arr', n, ('i', 8)),), False)
    def call(s, i, b, lab, bset, d):
        a = i.a; c = a['callee']; args = a['args']; out = []; thr = True
        if c == ('asm',): return [' __CPROVER_assert(0, "UNMODELLED asm");']
        if c[0] == 'glob':
            n = c[1]
            g = s.m.globals.get(n)
            if g is not None and g.alias is not None and g.alias[0] == 'glob': n = g.alias[1]
            if n.startswith('llvm.'):
                out = s.intrinsic(n, i, d)
                if i.op == 'invoke': out.append(' ' + s.edge(b, a['ok'], lab, bset))
                return out
            if n == 'vp_assert': return [' __CPROVER_assert(%s, "%s");' % (s.v(args[0][0], args[0][1]), s.lit(args[1][1]))] + ([' ' + s.edge(b, a['ok'], lab, bset)] if i.op == 'invoke' else [])
            if n == 'vp_assume': return [' __CPROVER_assume(%s);' % s.v(args[0][0], args[0][1])] + ([' ' + s.edge(b, a['ok'], lab, bset)] if i.op == 'invoke' else [])
            if n == 'vp_witness': return [' __CPROVER_assert(0, "WITNESS %s");' % s.lit(args[0][1])] + ([' ' + s.edge(b, a['ok'], lab, bset)] if i.op == 'invoke' else [])
            if n == 'vp_cell':
                g = s.m.globals[args[0][1][1]]
                return [' %s = malloc(sizeof(%s));' % (d, s.ct(g.ty))] + ([' ' + s.edge(b, a['ok'], lab, bset)] if i.op == 'invoke' else [])
            s.ref(n)
            f = s.m.funcs[n]
            thr = n in s.T
            callee = s.fname(n)
            np = len(f.params) if not f.vararg else None
            av = []
            for k, x in enumerate(args):
                av.append(s.argv(x, out))
            if f.vararg and f.blocks is not None:
                ex = av[len(f.params):]; k = s.bvn(); av = av[:len(f.params)] + ['va_%d' % k]
                out.append(' u64 va_%d[%d];' % (k, max(1, len(ex))))
                for j, x in enumerate(ex):
                    ty = args[len(f.params) + j][0]; c = s.ct(ty)
                    out.append(' va_%d[%d] = %s;' % (k, j, '(u64)(%s)' % x) if ty[0] in ('i', 'ptr') and ty != ('i', 128) else ' *(%s *)&va_%d[%d] = %s;' % (c, k, j, x))
            e = '%s(%s)' % (callee, ', '.join(av))
        else:
            av = [s.argv(x, out) for x in args]
            ft = '%s (*)(%s)' % (s.ct(i.ty), ', '.join(s.ct(x[0]) for x in args) or 'void')
            e = '((%s)%s)(%s)' % (ft, s.v(('ptr',), c), ', '.join(av)); thr = s.ind_throw
        if any(x == 'nounwind' or (x in s.m.attrs and re.search(r'\bnounwind\b', s.m.attrs[x])) for x in a['attrs']): thr = False
        out.append(' %s%s;' % (d + ' = ' if d else '', e))
        if i.op == 'invoke':
            if thr: out.append(' if (vp_exc) { %s }' % s.edge(b, a['bad'], lab, bset))
            out.append(' ' + s.edge(b, a['ok'], lab, bset))
        elif thr: out.append(' if (vp_exc) ' + s.retundef())
        return out
    def argv(s, x, out):
        t, v, at = x
        e = s.v(t, v)
        if 'byval' in at:
            n = 'bv%d' % id(x); ty = at['byval']
            n = 'bv_%d' % s.bvn() ; out.append(' %s %s = *(%s *)%s;' % (s.ct(ty), n, s.ct(ty), e)); return '((void *)&%s)' % n
        return e
    _bv = 0
    def bvn(s): s._bv += 1; return s._bv
    def lit(s, v):
        if v[0] == 'ce': v = v[3][0][1]
        g = s.m.globals[v[1]]; t = g.init[1].rstrip(b'\0').decode('latin1')
        return re.sub(r'["\\\n]', '_', t)
    def intrinsic(s, n, i, d):
        a = i.a; A = [(x[0], x[1]) for x in a['args']]
        av = lambda k: s.v(*A[k])
        if n.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.va_end', 'llvm.stackrestore', 'llvm.experimental.noalias', 'llvm.invariant')): return []
        if n.startswith('llvm.assume'): return []
        if n.startswith('llvm.stacksave'): return [' %s = (void *)0;' % d]
        if n.startswith('llvm.va_copy'): return [' *(struct vp_va_tag *)%s = *(struct vp_va_tag *)%s;' % (av(0), av(1))]
        if n.startswith('llvm.va_start'): return [' { struct vp_va_tag *q = (struct vp_va_tag *)%s; q->gp = 48; q->fp = 176; q->over = vp_va; q->save = (void *)0; }' % av(0)]
        if n.startswith(('llvm.memcpy', 'llvm.memmove')):
            if A[2][1][0] == 'int':
                z = A[2][1][1]
                if z == 0: return []
                t = s.matches(s.ptype(A[0][1]), z) or s.matches(s.ptype(A[1][1]), z) or s.bytes_t(z)
                if z <= 8192: return [' *(%s *)%s = *(%s *)%s;' % (s.ct(t), av(0), s.ct(t), av(1))]
            nm = 'memcpy' if 'memcpy' in n else 'memmove'
            s.ref(nm); return [' %s(%s, %s, %s);' % (s.fname(nm), av(0), av(1), av(2))]
        if n.startswith('llvm.memset'):
            if A[2][1][0] == 'int' and A[1][1] == ('int', 0):
                z = A[2][1][1]
                if z == 0: return []
                t = s.matches(s.ptype(A[0][1]), z) or s.bytes_t(z)
                if z <= 65536: return [' *(%s *)%s = %s;' % (s.ct(t), av(0), s.const(t, ('zero',)))]
            s.ref('memset'); return [' %s(%s, %s, %s);' % (s.fname('memset'), av(0), av(1), av(2))]
        if n.startswith('llvm.eh.typeid.for'): return [' %s = %dU;' % (d, s.typeid(A[0][1]))]
        if n.startswith('llvm.expect'): return [' %s = %s;' % (d, av(0))]
        if n.startswith('llvm.trap') or n.startswith('llvm.ubsantrap'): return [' __CPROVER_assert(0, "trap");', ' __CPROVER_assume(0);']
        t = i.ty
        if n.startswith('llvm.umin'): return [' %s = %s < %s ? %s : %s;' % (d, av(0), av(1), av(0), av(1))]
        if n.startswith('llvm.umax'): return [' %s = %s > %s ? %s : %s;' % (d, av(0), av(1), av(0), av(1))]
        if n.startswith(('llvm.smin', 'llvm.smax')):
            return [' %s = (%s)%s %s (%s)%s ? %s : %s;' % (d, s.st(t), av(0), '<' if 'smin' in n else '>', s.st(t), av(1), av(0), av(1))]
        if n.startswith('llvm.abs'): return [' %s = (%s)%s < 0 ? (%s)-(%s)%s : %s;' % (d, s.st(t), av(0), s.ct(t), s.st(t), av(0), av(0))]
        if n.startswith('llvm.usub.sat'): return [' %s = %s > %s ? %s - %s : 0;' % (d, av(0), av(1), av(0), av(1))]
        if n.startswith('llvm.is.constant'): return [' %s = 0;' % d]
        if n.startswith('llvm.objectsize'): return [' %s = (u64)-1;' % d]
        if n.startswith('llvm.bswap'):
            nb = t[1] // 8
            return [' %s = %s;' % (d, s.norm(t, ' | '.join('((%s >> %d) & 255) << %d' % ('(%s)%s' % (s.ct(t), av(0)), 8 * k, t[1] - 8 - 8 * k) for k in range(nb)).replace('((', '((%s)((' % s.ct(t)).replace(' & 255)', ' & 255))')))]
        if n.startswith(('llvm.fshl', 'llvm.fshr')):
            w = t[1]; x, y, z = av(0), av(1), av(2); L = 'fshl' in n
            return [' %s = (%s & %d) == 0 ? %s : %s;' % (d, z, w - 1, x if L else y, s.norm(t, '(%s << (%s)) | (%s >> (%s))' % ((x, '%s & %d' % (z, w-1), y, '%d - (%s & %d)' % (w, z, w-1)) if L else (x, '%d - (%s & %d)' % (w, z, w-1), y, '%s & %d' % (z, w-1)))))]
        if n.startswith(('llvm.ctlz', 'llvm.cttz', 'llvm.ctpop')):
            w = t[1]; o = []; x = av(0); k = n[5:9]
            if k == 'ctpo': return [' %s = %s;' % (d, s.norm(t, ' + '.join('((%s >> %d) & 1)' % (x, j) for j in range(w))))]
            rng = range(w) if k == 'cttz' else range(w - 1, -1, -1)
            e = str(w)
            for j in reversed(list(rng)): e = '((%s >> %d) & 1) ? %d : (%s)' % (x, j, j if k == 'cttz' else w - 1 - j, e)
            return [' %s = %s;' % (d, s.norm(t, e))]
        m = re.match(r'llvm\.([us])(add|sub|mul)\.with\.overflow', n)
        if m:
            et = s.L.res(t)[1][0]; w = et[1]; c = {'add': '+', 'sub': '-', 'mul': '*'}[m.group(2)]
            W = 'u128' if m.group(1) == 'u' else 's128'; sx = s.ct(et) if m.group(1) == 'u' else s.st(et)
            e = '((%s)(%s)%s %s (%s)(%s)%s)' % (W, sx, av(0), c, W, sx, av(1))
            return [' %s.f0 = (%s)%s; %s.f1 = %s != (%s)(%s)%s.f0;' % (d, s.ct(et), e, d, e, W, sx, d)]
        raise NotImplementedError('intrinsic ' + n)

def translate(ll_text, root='harness'):
    m = llir.parse(ll_text)
    e = E(m, root); c = e.run()
    return c, e
