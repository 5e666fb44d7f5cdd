"""Parser for the textual LLVM IR (clang/opt 18, opaque pointers) the checks work on.

Types are tuples:
  ('i', n) ('ptr',) ('void',) ('float',) ('double',) ('fp80',) ('arr', n, T) ('struct', (T...), packed)
  ('named', name) ('vec', n, T) ('fn', ret, (params...), vararg) ('label',) ('metadata',) ('opaque',)
Values are tuples:
  ('loc', name) ('glob', name) ('int', v) ('fp', text) ('null',) ('undef',) ('zero',)
  ('cstr', bytes) ('agg', kind, [(T, V)...]) ('ce', op, ...)
"""
import re

TOK = re.compile(r'''
   \s+ | ;[^\n]*
 | (?P<cstr>c"(?:[^"])*")
 | (?P<name>[%@$!](?:"[^"]*"|[-\w.$]+))
 | (?P<str>"[^"]*")
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?\d+(?:\.\d*(?:[eE][-+]?\d+)?)?)
 | (?P<word>[A-Za-z_][\w.]*)
 | (?P<attr>\#\d+)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*:!|])
''', re.X)

class Tok:
    __slots__ = ('k', 'v')
    def __init__(s, k, v): s.k, s.v = k, v
    def __repr__(s): return '%s:%s' % (s.k, s.v)

def lex(text):
    out = []; i = 0; n = len(text)
    while i < n:
        m = TOK.match(text, i)
        if not m: raise SyntaxError('lex: %r' % text[i:i+60])
        i = m.end()
        k = m.lastgroup
        if k is None: continue
        v = m.group(k)
        if k == 'name' and len(v) > 1 and v[1] == '"': v = v[0] + v[2:-1]
        out.append(Tok(k, v))
    return out

def unescape(s):
    b = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\': b.append(92); i += 2
            else: b.append(int(s[i+1:i+3], 16)); i += 3
        else: b += s[i].encode('latin1', 'replace'); i += 1
    return bytes(b)

PARAM_ATTR = {'noundef','nonnull','nocapture','readonly','writeonly','readnone','noalias','signext','zeroext',
  'returned','immarg','inreg','nofree','nest','swiftself','noext','dead_on_unwind','writable','allocptr'}
PARAM_ATTR_P = {'align','dereferenceable','dereferenceable_or_null','sret','byval','byref','inalloca','preallocated','elementtype','range','captures','initializes','memory','nofpclass','allocsize'}
LINK = {'private','internal','available_externally','linkonce','weak','common','appending','extern_weak','linkonce_odr','weak_odr','external',
  'default','hidden','protected','dllimport','dllexport','dso_local','dso_preemptable','unnamed_addr','local_unnamed_addr','externally_initialized','thread_local',
  'fastcc','ccc','coldcc','tail','musttail','notail','nnan','ninf','nsz','arcp','contract','afn','reassoc','fast'}

class P:
    def __init__(s, toks): s.t = toks; s.i = 0
    def peek(s, o=0): return s.t[s.i+o] if s.i+o < len(s.t) else Tok('eof', '')
    def next(s): t = s.peek(); s.i += 1; return t
    def at(s, v): t = s.peek(); return t.v == v and t.k not in ('str', 'cstr')
    def acc(s, v):
        if s.at(v): s.i += 1; return True
        return False
    def exp(s, v):
        t = s.next()
        if t.v != v: raise SyntaxError('expected %r got %r near %r' % (v, t, s.t[max(0, s.i-8):s.i+6]))
    # ---- types
    def type(s):
        t = s.next()
        if t.k == 'word':
            v = t.v
            if v[0] == 'i' and v[1:].isdigit(): r = ('i', int(v[1:]))
            elif v == 'ptr':
                r = ('ptr',)
                if s.at('addrspace'): s.next(); s.exp('('); s.next(); s.exp(')')
            elif v in ('void','float','double','label','metadata','opaque','token'): r = (v,)
            elif v == 'x86_fp80': r = ('fp80',)
            else: raise SyntaxError('type %r' % v)
        elif t.k == 'name' and t.v[0] == '%': r = ('named', t.v[1:])
        elif t.v == '[':
            n = int(s.next().v); s.exp('x'); e = s.type(); s.exp(']'); r = ('arr', n, e)
        elif t.v == '{': r = ('struct', tuple(s.tlist('}')), False)
        elif t.v == '<':
            if s.at('{'):
                s.next(); r = ('struct', tuple(s.tlist('}')), True); s.exp('>')
            else:
                n = int(s.next().v); s.exp('x'); e = s.type(); s.exp('>'); r = ('vec', n, e)
        else: raise SyntaxError('type %r' % t)
        while True:
            if s.at('('):  # function type
                s.next(); ps = []; va = False
                while not s.acc(')'):
                    if s.acc('...'): va = True
                    else: ps.append(s.type())
                    s.acc(',')
                r = ('fn', r, tuple(ps), va)
            else: return r
    def tlist(s, end):
        r = []
        while not s.acc(end):
            r.append(s.type()); s.acc(',')
        return r
    def istype(s):
        t = s.peek()
        if t.k == 'word':
            return (t.v[0] == 'i' and t.v[1:].isdigit()) or t.v in ('ptr','void','float','double','x86_fp80','label','metadata','token')
        return (t.k == 'name' and t.v[0] == '%') or t.v in ('[','{','<')
    # ---- attributes on params / returns
    def pattrs(s):
        d = {}
        while True:
            t = s.peek()
            if t.k == 'word' and t.v in PARAM_ATTR: d[t.v] = True; s.next()
            elif t.k == 'word' and t.v in PARAM_ATTR_P:
                s.next()
                if s.acc('('):
                    if s.istype(): d[t.v] = s.type()
                    depth = 1
                    while depth:
                        x = s.next().v
                        if x == '(': depth += 1
                        elif x == ')': depth -= 1
                else: d[t.v] = s.next().v
            elif t.k == 'str':
                s.next()
                if s.acc('='): s.next()
            else: return d
    # ---- values
    def val(s, ty):
        t = s.next()
        if t.k == 'name':
            if t.v[0] == '%': return ('loc', t.v[1:])
            if t.v[0] == '@': return ('glob', t.v[1:])
            if t.v[0] == '!': return ('meta',)
        if t.k == 'num':
            if ty[0] in ('i',): return ('int', int(t.v))
            return ('fp', t.v)
        if t.k == 'hex': return ('fp', t.v)
        if t.k == 'cstr': return ('cstr', unescape(t.v[2:-1]))
        if t.k == 'word':
            v = t.v
            if v == 'true': return ('int', 1)
            if v == 'false': return ('int', 0)
            if v == 'null': return ('null',)
            if v in ('undef', 'poison'): return ('undef',)
            if v == 'zeroinitializer' or v == 'none': return ('zero',)
            if v in ('getelementptr',):
                inb = s.acc('inbounds'); s.exp('('); bt = s.type(); s.exp(',')
                ops = [s.tv()]
                while s.acc(','):
                    s.acc('inrange'); ops.append(s.tv())
                s.exp(')'); return ('ce', 'gep', bt, ops)
            if v in ('bitcast','inttoptr','ptrtoint','trunc','zext','sext','addrspacecast'):
                s.exp('('); a = s.tv(); s.exp('to'); bt = s.type(); s.exp(')'); return ('ce', v, a, bt)
            if v in ('add','sub','mul','and','or','xor','shl','lshr','ashr'):
                while s.peek().v in ('nuw','nsw','exact','disjoint'): s.next()
                s.exp('('); a = s.tv(); s.exp(','); b = s.tv(); s.exp(')'); return ('ce', v, a, b)
            if v == 'icmp':
                pr = s.next().v; s.exp('('); a = s.tv(); s.exp(','); b = s.tv(); s.exp(')'); return ('ce', 'icmp', pr, a, b)
            if v == 'select':
                s.exp('('); a = s.tv(); s.exp(','); b = s.tv(); s.exp(','); c = s.tv(); s.exp(')'); return ('ce', 'select', a, b, c)
        if t.v == '[': return ('agg', 'arr', s.vlist(']'))
        if t.v == '{': return ('agg', 'struct', s.vlist('}'))
        if t.v == '<':
            if s.acc('{'):
                r = s.vlist('}'); s.exp('>'); return ('agg', 'struct', r)
            return ('agg', 'vec', s.vlist('>'))
        if t.v == '!':
            return ('meta',)
        raise SyntaxError('value %r near %r' % (t, s.t[max(0, s.i-10):s.i+5]))
    def vlist(s, end):
        r = []
        while not s.acc(end):
            r.append(s.tv()); s.acc(',')
        return r
    def tv(s):
        ty = s.type(); s.pattrs(); return (ty, s.val(ty))

class Instr:
    __slots__ = ('op', 'dst', 'ty', 'a')
    def __init__(s, op, dst, ty, **a): s.op, s.dst, s.ty, s.a = op, dst, ty, a
    def __repr__(s): return 'I(%s %s %s %s)' % (s.dst, s.op, s.ty, s.a)

class Func:
    def __init__(s): s.name = ''; s.ret = None; s.params = []; s.vararg = False; s.blocks = None; s.attrs = []; s.linkage = set(); s.order = []

class Global:
    def __init__(s): s.name = ''; s.ty = None; s.init = None; s.const = False; s.linkage = set(); s.alias = None

class Module:
    def __init__(s): s.types = {}; s.globals = {}; s.funcs = {}; s.attrs = {}

def fnhead(p, f):
    while p.peek().k == 'word' and (p.peek().v in LINK): f.linkage.add(p.next().v)
    f.rattrs = p.pattrs()
    f.ret = p.type()
    f.name = p.next().v[1:]
    p.exp('(')
    while not p.acc(')'):
        if p.acc('...'): f.vararg = True
        else:
            ty = p.type(); at = p.pattrs(); nm = None
            if p.peek().k == 'name' and p.peek().v[0] == '%': nm = p.next().v[1:]
            f.params.append((ty, nm, at))
        p.acc(',')
    while p.peek().k != 'eof' and not p.at('{'):
        t = p.next()
        if t.k == 'attr': f.attrs.append(t.v)
        elif t.k == 'word' and t.v in ('nounwind', 'noreturn'): f.attrs.append(t.v)
    return f

BIN = {'add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor','fadd','fsub','fmul','fdiv','frem'}
CAST = {'trunc','zext','sext','fptrunc','fpext','fptoui','fptosi','uitofp','sitofp','ptrtoint','inttoptr','bitcast','addrspacecast'}

def call_tail(p, kind):
    while p.peek().k == 'word' and p.peek().v in LINK: p.next()
    rat = p.pattrs()
    ty = p.type()
    fnty = None
    if ty[0] == 'fn': fnty = ty; ty = ty[1]
    if p.peek().v == 'asm':
        while not p.at('('): p.next()
        callee = ('asm',)
    else:
        callee = p.val(('ptr',))
    p.exp('('); args = []
    while not p.acc(')'):
        aty = p.type()
        if aty[0] == 'metadata':
            depth = 0
            while not (depth == 0 and (p.at(',') or p.at(')'))):
                v = p.next().v
                if v in ('(',): depth += 1
                if v in (')',): depth -= 1
            args.append((aty, ('meta',), {}))
        else:
            at = p.pattrs(); v = p.val(aty); args.append((aty, v, at))
        p.acc(',')
    attrs = []
    while p.peek().k == 'attr' or (p.peek().k == 'word' and p.peek().v in ('nounwind','noreturn','readonly','readnone','builtin','nobuiltin','cold','memory')):
        t = p.next(); attrs.append(t.v)
        if t.v == 'memory':
            while not p.acc(')'): p.next()
    a = dict(callee=callee, args=args, attrs=attrs, fnty=fnty)
    if kind == 'invoke':
        p.exp('to'); p.exp('label'); a['ok'] = p.next().v[1:]; p.exp('unwind'); p.exp('label'); a['bad'] = p.next().v[1:]
    return ty, a

def parse_instr(p):
    dst = None
    if p.peek().k == 'name' and p.peek(1).v == '=':
        dst = p.next().v[1:]; p.next()
    op = p.next().v
    while op in ('tail', 'musttail', 'notail'): op = p.next().v
    if op == 'ret':
        ty = p.type()
        return Instr('ret', None, ty, v=None if ty[0] == 'void' else p.val(ty))
    if op == 'br':
        ty = p.type()
        if ty[0] == 'label': return Instr('br', None, None, to=p.next().v[1:])
        c = p.val(ty); p.exp(','); p.exp('label'); a = p.next().v[1:]; p.exp(','); p.exp('label'); b = p.next().v[1:]
        return Instr('cbr', None, None, c=c, t=a, f=b)
    if op == 'switch':
        ty, v = p.tv(); p.exp(','); p.exp('label'); d = p.next().v[1:]; p.exp('['); cs = []
        while not p.acc(']'):
            cty, cv = p.tv(); p.exp(','); p.exp('label'); cs.append((cv, p.next().v[1:]))
        return Instr('switch', None, ty, v=v, d=d, cs=cs)
    if op == 'unreachable': return Instr('unreachable', None, None)
    if op == 'resume':
        ty, v = p.tv(); return Instr('resume', None, ty, v=v)
    if op in BIN:
        fl = []
        while p.peek().v in ('nuw','nsw','exact','disjoint') or p.peek().v in LINK: fl.append(p.next().v)
        ty = p.type(); a = p.val(ty); p.exp(','); b = p.val(ty)
        return Instr('bin', dst, ty, o=op, x=a, y=b, fl=fl)
    if op == 'fneg':
        while p.peek().v in LINK: p.next()
        ty, v = p.tv(); return Instr('fneg', dst, ty, v=v)
    if op in CAST:
        while p.peek().v in ('nneg','nuw','nsw'): p.next()
        ty, v = p.tv(); p.exp('to'); to = p.type()
        return Instr('cast', dst, to, o=op, fty=ty, v=v)
    if op in ('icmp', 'fcmp'):
        while p.peek().v in LINK or p.peek().v == 'samesign': p.next()
        pr = p.next().v; ty = p.type(); a = p.val(ty); p.exp(','); b = p.val(ty)
        return Instr(op, dst, ('i', 1), pr=pr, oty=ty, x=a, y=b)
    if op == 'phi':
        while p.peek().v in LINK: p.next()
        ty = p.type(); inc = []
        while True:
            p.exp('['); v = p.val(ty); p.exp(','); l = p.next().v[1:]; p.exp(']'); inc.append((v, l))
            if not (p.at(',') and p.peek(1).v == '['): break
            p.next()
        return Instr('phi', dst, ty, inc=inc)
    if op == 'select':
        while p.peek().v in LINK: p.next()
        c = p.tv(); p.exp(','); a = p.tv(); p.exp(','); b = p.tv()
        return Instr('select', dst, a[0], c=c[1], x=a[1], y=b[1])
    if op == 'alloca':
        p.acc('inalloca'); ty = p.type(); n = None
        if p.at(',') and p.peek(1).k == 'word' and p.peek(1).v != 'align' and p.peek(1).v != 'addrspace':
            p.next(); n = p.tv()
        return Instr('alloca', dst, ('ptr',), aty=ty, n=n)
    if op == 'load':
        at = p.acc('atomic'); p.acc('volatile'); ty = p.type(); p.exp(','); q = p.tv()
        return Instr('load', dst, ty, p=q[1])
    if op == 'store':
        p.acc('atomic'); p.acc('volatile'); v = p.tv(); p.exp(','); q = p.tv()
        return Instr('store', None, v[0], v=v[1], p=q[1])
    if op == 'getelementptr':
        while p.peek().v in ('inbounds', 'nuw', 'nusw'): p.next()
        bt = p.type(); p.exp(','); b = p.tv(); idx = []
        while p.at(',') and p.peek(1).k != 'name' or (p.at(',') and p.peek(1).v[0] == '%'):
            p.next(); idx.append(p.tv())
        return Instr('gep', dst, ('ptr',), bt=bt, b=b[1], idx=idx)
    if op == 'extractvalue':
        v = p.tv(); ix = []
        while p.acc(','):
            if p.peek().k == 'name': break
            ix.append(int(p.next().v))
        return Instr('extractvalue', dst, None, v=v, ix=ix)
    if op == 'insertvalue':
        v = p.tv(); p.exp(','); w = p.tv(); ix = []
        while p.acc(','):
            if p.peek().k == 'name': break
            ix.append(int(p.next().v))
        return Instr('insertvalue', dst, v[0], v=v, w=w, ix=ix)
    if op == 'freeze':
        ty, v = p.tv(); return Instr('freeze', dst, ty, v=v)
    if op == 'landingpad':
        ty = p.type(); cleanup = False; cl = []
        while True:
            if p.acc('cleanup'): cleanup = True
            elif p.acc('catch'): cl.append(('catch', p.tv()))
            elif p.acc('filter'): cl.append(('filter', p.tv()))
            else: break
        return Instr('landingpad', dst, ty, cleanup=cleanup, cl=cl)
    if op in ('call', 'invoke'):
        ty, a = call_tail(p, op); return Instr(op, dst, ty, **a)
    if op == 'fence': return Instr('nop', None, None)
    if op == 'atomicrmw':
        p.acc('volatile'); o = p.next().v; q = p.tv(); p.exp(','); v = p.tv()
        return Instr('atomicrmw', dst, v[0], o=o, p=q[1], v=v[1])
    if op == 'cmpxchg':
        p.acc('weak'); p.acc('volatile'); q = p.tv(); p.exp(','); c = p.tv(); p.exp(','); n = p.tv()
        return Instr('cmpxchg', dst, ('struct', (c[0], ('i', 1)), False), p=q[1], c=c[1], n=n[1])
    raise SyntaxError('instr %r' % op)

LABEL = re.compile(r'^(?:"([^"]*)"|([-\w.$]+)):')

def parse(text):
    m = Module(); lines = text.split('\n'); i = 0; n = len(lines)
    while i < n:
        ln = lines[i]; i += 1
        if not ln or ln[0] in ';!\n' : continue
        if ln.startswith(('source_filename', 'target ', '$', 'module asm', 'uselistorder')): continue
        if ln.startswith('attributes '):
            k = ln.split()[1]; m.attrs[k] = ln; continue
        if ln[0] == '%':
            p = P(lex(ln)); nm = p.next().v[1:]; p.exp('='); p.exp('type'); m.types[nm] = p.type(); continue
        if ln[0] == '@':
            p = P(lex(ln)); g = Global(); g.name = p.next().v[1:]; p.exp('=')
            while True:
                t = p.peek()
                if t.k == 'word' and t.v in LINK:
                    g.linkage.add(p.next().v)
                    if t.v == 'thread_local' and p.acc('('):
                        while not p.acc(')'): p.next()
                elif t.v == 'addrspace': p.next(); p.exp('('); p.next(); p.exp(')')
                else: break
            kw = p.next().v
            if kw == 'alias':
                g.ty = p.type(); p.exp(','); g.alias = p.tv()[1]; m.globals[g.name] = g; continue
            g.const = kw == 'constant'; g.ty = p.type()
            if p.peek().k != 'eof' and not p.at(','): g.init = p.val(g.ty)
            m.globals[g.name] = g; continue
        if ln.startswith('declare'):
            p = P(lex(ln)); p.next(); f = fnhead(p, Func()); m.funcs.setdefault(f.name, f); continue
        if ln.startswith('define'):
            p = P(lex(ln)); p.next(); f = fnhead(p, Func()); f.blocks = {}
            # implicit numbering: unnamed params, then entry block
            cur = None; first = True
            cnt = 0
            for j, (ty, nm, at) in enumerate(f.params):
                if nm is None: f.params[j] = (ty, str(cnt), at); cnt += 1
                elif nm.isdigit(): cnt = int(nm) + 1
            while lines[i] != '}':
                l = lines[i]; i += 1
                s = l.strip()
                if not s or s[0] == ';': continue
                mm = LABEL.match(l)
                if mm and not l.startswith(' '):
                    cur = mm.group(1) if mm.group(1) is not None else mm.group(2)
                    f.blocks[cur] = []; f.order.append(cur); continue
                if cur is None:
                    cur = str(cnt); f.blocks[cur] = []; f.order.append(cur)
                # multi-line: switch [...], invoke, landingpad clauses
                if s.startswith('switch ') :
                    while ']' not in lines[i-1]: s += ' ' + lines[i].strip(); i += 1
                if re.match(r'(%\S+ = )?invoke ', s) and ' unwind ' not in s:
                    s += ' ' + lines[i].strip(); i += 1
                if ' landingpad ' in s:
                    while lines[i].strip().startswith(('cleanup', 'catch', 'filter')): s += ' ' + lines[i].strip(); i += 1
                try: ins = parse_instr(P(lex(s)))
                except Exception as e: raise SyntaxError('%s in %s: %s' % (e, f.name, s))
                f.blocks[cur].append(ins)
            i += 1
            m.funcs[f.name] = f; continue
        raise SyntaxError('line %r' % ln[:100])
    return m

# ---- layout (x86-64)
def align_up(n, a): return (n + a - 1) // a * a
class Layout:
    def __init__(s, m): s.m = m; s.c = {}
    def res(s, t):
        while t[0] == 'named': t = s.m.types[t[1]]
        return t
    def sa(s, t):
        if t in s.c: return s.c[t]
        r = s._sa(t); s.c[t] = r; return r
    def _sa(s, t):
        k = t[0]
        if k == 'i':
            n = t[1]; b = 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
            return (b, min(b, 16)) if n <= 64 else (16, 16)
        if k == 'ptr': return (8, 8)
        if k == 'float': return (4, 4)
        if k == 'double': return (8, 8)
        if k == 'fp80': return (16, 16)
        if k == 'named': return s.sa(s.m.types[t[1]])
        if k == 'arr':
            z, a = s.sa(t[2]); return (z * t[1], a)
        if k == 'vec':
            z, a = s.sa(t[2]); return (z * t[1], z * t[1])
        if k == 'struct':
            o = 0; A = 1
            for e in t[1]:
                z, a = s.sa(e)
                if t[2]: a = 1
                o = align_up(o, a) + z; A = max(A, a)
            return (align_up(o, A), A)
        if k == 'opaque': return (1, 1)
        raise ValueError(t)
    def size(s, t): return s.sa(t)[0]
    def off(s, t, i):
        t = s.res(t); o = 0
        for j, e in enumerate(t[1]):
            z, a = s.sa(e)
            if t[2]: a = 1
            o = align_up(o, a)
            if j == i: return o
            o += z
