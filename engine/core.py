"""Driver of engine E1: harness + real sources -> LLVM IR -> C -> CBMC, witness and counterexample replay, evidence."""
import os, sys, re, json, time, subprocess, shutil, tempfile, hashlib, threading, resource, signal
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import emit
REPO = os.environ.get('VP_REPO', '/repo')
CLANG, CLANGXX, OPT, LINK = '/usr/bin/clang-18', '/usr/bin/clang++-18', '/usr/bin/opt-18', '/usr/bin/llvm-link-18'
PASSES = 'internalize,globaldce,function(sroa,mem2reg,simplifycfg,early-cse,instsimplify,simplifycfg)'
CFLAGS = ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-fno-builtin', '-fno-strict-aliasing', '-w', '-Wno-error=implicit-function-declaration', '-Wno-error=int-conversion', '-D__NO_CTYPE',
          '-D_FORTIFY_SOURCE=0', '-U_FORTIFY_SOURCE', '-ffp-contract=off', '-fno-stack-protector', '-I' + REPO, '-I' + HERE, '-I' + os.path.join(VERIF, 'harness')]
NPROC = int(os.environ.get('VP_JOBS', '8'))

class ToolError(Exception): pass

class T:
    """One solver task: a harness, the real sources linked into it, and its bounds."""
    def __init__(s, name, harness, srcs=(), defs=None, unwind=10, unwindset=None, bounds='', timeout=420, flags=(), solver=None, wraps=(),
                 libs=(), kf=None, retry=4, leak=True, validate=False, extra=(), mem=6, fixfs=False, rflags=(), rdefs=None, cdefs=None, uw=None, subs=()):
        s.name, s.harness, s.srcs, s.defs, s.unwind = name, harness, list(srcs), dict(defs or {}), unwind
        s.unwindset = unwindset or {}; s.bounds = bounds; s.timeout = timeout; s.flags = list(flags); s.solver = solver; s.wraps = list(wraps)
        s.libs = list(libs); s.kf = kf; s.retry = retry; s.validate = validate; s.extra = list(extra); s.mem = mem; s.rflags = list(rflags); s.rdefs = dict(rdefs or {}); s.cdefs = dict(cdefs or {}); s.uw = uw or {}; s.subs = tuple(subs)

import ctypes
LIBC = ctypes.CDLL(None)
def sh(cmd, timeout=None, mem=None, **kw):
    def pre():
        os.setsid(); LIBC.prctl(1, 9)  # the child ends with this process
        if mem: resource.setrlimit(resource.RLIMIT_AS, (mem << 30, mem << 30))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre, **kw)
    try: o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        p.communicate(); return None, '', 'timeout'
    return p.returncode, o.decode('utf8', 'replace'), e.decode('utf8', 'replace')

def asan(t):
    """the telling part of a sanitizer report"""
    m = re.search(r'ERROR: (\w+Sanitizer: \S+)', t); return t if not m else m.group(1) + ' ' + ' '.join(re.findall(r' in (\w[\w:~]*)', t)[:4])
class Build:
    """Caches IR per (file, defines) inside one run; everything is rebuilt from /repo's working tree on every run."""
    def __init__(s, work): s.w = work; s.c = {}; s.lk = threading.Lock(); s.locks = {}
    def once(s, key, fn):
        with s.lk: l = s.locks.setdefault(key, threading.Lock())
        with l:
            if key not in s.c:
                try: s.c[key] = (True, fn())
                except Exception as e: s.c[key] = (False, e)
        ok, v = s.c[key]
        if not ok: raise v
        return v
    def ir(s, path, defs, subs=()):
        ds = ['-D%s=%s' % kv if kv[1] is not None else '-D%s' % kv[0] for kv in sorted(defs.items())]
        key = ('ir', path, tuple(ds), subs)
        def go():
            src = path; inc = []
            if subs:
                x = open(path).read()
                for rx, rp in subs: x = re.sub(rx, rp, x)
                src = os.path.join(s.w, hashlib.md5(repr(key).encode()).hexdigest() + '-' + os.path.basename(path)); open(src, 'w').write(x); inc = ['-iquote', os.path.dirname(path)]
            out = os.path.join(s.w, hashlib.md5(repr(key).encode()).hexdigest() + '.bc')
            if path.endswith('.c'): cmd = [CLANG, '-std=gnu11']
            else: cmd = [CLANGXX, '-std=c++11', '-nostdinc++', '-isystem', os.path.join(VERIF, 'models', 'cxx')]
            rc, o, e = sh(cmd + CFLAGS + inc + ds + ['-emit-llvm', '-c', src, '-o', out], timeout=120)
            if rc != 0: raise ToolError('clang failed on %s: %s' % (path, ' '.join(re.findall(r'error: [^\n]*', e)[:4])[:900]))
            return out
        return s.once(key, go)
    def others(s, t):
        """the library's other sources, linked in only where the encoded ones call into them"""
        mine = {p if p.startswith('/') else os.path.join(REPO, p) for p in t.srcs}
        d = os.path.join(REPO, 'coda')
        return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(('.c', '.cpp')) and os.path.join(d, f) not in mine]
    def csource(s, t):
        """-> (c file, emitter)"""
        def go():
            hp = os.path.join(VERIF, 'harness', t.harness)
            parts = [s.ir(hp, {**t.defs, **t.cdefs})] + [s.ir(p if p.startswith('/') else os.path.join(REPO, p), t.cdefs, t.subs) for p in t.srcs] + [s.ir(os.path.join(HERE, 'rt.c'), {})]
            base = os.path.join(s.w, hashlib.md5(repr(parts).encode()).hexdigest())
            rc, o, e = sh([LINK, '-o', base + '.l.bc'] + parts, timeout=120)
            if rc != 0: raise ToolError('llvm-link: ' + e[-2000:])
            for rnd in (0, 1): # second round: pull in other repo files the encoded functions call into
              if rnd:
                if not un: break
                need = []
                for p in s.others(t):
                    try: need.append(s.ir(p, t.cdefs))
                    except ToolError: pass
                rc, o, e = sh([LINK, '--only-needed', '-o', base + '.l2.bc', base + '.l.bc'] + need, timeout=120)
                if rc != 0: break
                os.replace(base + '.l2.bc', base + '.l.bc')
              rc, o, e = sh([OPT, '-S', '-passes=' + PASSES, '-internalize-public-api-list=harness', base + '.l.bc', '-o', base + '.ll'], timeout=120)
              if rc != 0: raise ToolError('opt: ' + e[-2000:])
              code = "import sys;sys.path.insert(0,%r);import emit,json;c,e=emit.translate(open(%r).read());open(%r,'w').write(c);print(json.dumps([e.emitted,e.unmodelled]))" % (HERE, base + '.ll', base + '.c')
              rc, o, e = sh([sys.executable, '-c', code], timeout=300)
              if rc != 0: raise ToolError('translate %s: %s' % (t.harness, e[-2000:]))
              em, un = json.loads(o.strip().split('\n')[-1])
            return base + '.c', em, un
        key = ('c', t.harness, tuple(sorted(t.defs.items())), tuple(sorted(t.cdefs.items())), tuple(t.srcs), t.subs)
        return s.once(key, go)

def cbmc_cmd(t, cfile, unwind, extra=(), ub=None):
    cmd = ['cbmc', cfile, '--no-standard-checks', '--pointer-check', '--unwinding-assertions', '--unwind', str(unwind),
           '--drop-unused-functions', '--no-malloc-may-fail', '--object-bits', '8', '--json-ui', '--verbosity', '8', '--64', '--flush'] + t.flags
    cmd = [c for c in cmd if c != '--flush']
    ub = {**{'x_' + k: v for k, v in t.unwindset.items()}, **(ub or {})}
    if ub: cmd += ['--unwindset', ','.join('%s:%d' % (k, v + 1) for k, v in ub.items())]
    if t.solver: cmd += ['--sat-solver', t.solver]
    return cmd + list(extra)

def parse_cbmc(o):
    try: js = json.loads(o)
    except Exception:
        try: js = json.loads(o[:o.rindex('},') + 1] + ']')
        except Exception: return None
    r = dict(results=None, status=None, steps=0, vcc=0, vcc_left=0, vars=0, clauses=0, solver_s=0.0, solves=0, errors=[])
    for m in js:
        if 'result' in m: r['results'] = m['result']
        if 'cProverStatus' in m: r['status'] = m['cProverStatus']
        tx = m.get('messageText', '')
        if m.get('messageType') == 'ERROR': r['errors'].append(tx)
        x = re.match(r'size of program expression: (\d+) steps', tx)
        if x: r['steps'] = int(x.group(1))
        x = re.match(r'Generated (\d+) VCC\(s\), (\d+) remaining', tx)
        if x: r['vcc'], r['vcc_left'] = int(x.group(1)), int(x.group(2))
        x = re.match(r'(\d+) variables, (\d+) clauses', tx)
        if x: r['vars'], r['clauses'] = int(x.group(1)), int(x.group(2))
        x = re.match(r'Runtime Solver: ([\d.e+-]+)s', tx)
        if x: r['solver_s'] += float(x.group(1)); r['solves'] += 1
    return r

def nd_values(o):
    """values of the harness's symbolic inputs, in order, from a CBMC JSON trace"""
    js = json.loads(o); vals = None
    for m in js:
        for res in m.get('result', []):
            if res.get('trace') is not None:
                vals = []
                for st in res['trace']:
                    if st.get('stepType') == 'assignment' and st.get('lhs') == 'vp_nd_log' and not st.get('hidden') and st.get('sourceLocation', {}).get('function', '').startswith('x_nd_'):
                        b = st['value'].get('binary')
                        vals.append(int(b, 2) if b else int(re.sub(r'\D', '', st['value'].get('data', '0')) or 0))
    return vals

class Runner:
    def __init__(s, prop, tier, seed, work):
        s.prop, s.tier, s.seed = prop, tier, seed; s.b = Build(work); s.w = work; s.rb = {}
        s.end = time.time() + float(os.environ.get('VP_DEADLINE', 780 if tier == 'quick' else 10 ** 7)); s.stop = False
    # ---- replay
    def rbin(s, t, variant):
        opt = {'O1': ['-O1'], 'O2': ['-O2']}[variant]
        def go():
            objs = []
            base = os.path.join(s.w, 'r' + hashlib.md5(repr((t.harness, sorted(t.defs.items()), t.srcs, t.subs, variant)).encode()).hexdigest())
            ds = ['-D%s=%s' % kv if kv[1] is not None else '-D%s' % kv[0] for kv in sorted({**t.defs, **t.rdefs}.items())] + ['-DVP_REPLAY']
            fl = opt + ['-g', '-w', '-fsanitize=address', '-fno-omit-frame-pointer', '-fno-sanitize-recover=all', '-ftrivial-auto-var-init=pattern', '-fno-builtin', '-fno-strict-aliasing', '-I' + REPO, '-I' + HERE, '-I' + os.path.join(VERIF, 'harness')] + t.rflags
            srcs = [(os.path.join(VERIF, 'harness', t.harness), ds)] + [(p if p.startswith('/') else os.path.join(REPO, p), []) for p in t.srcs] + [(os.path.join(HERE, 'replay_rt.c'), [])]
            srcs = [x for x in srcs if '/models/' not in x[0]]
            for k, (p, d) in enumerate(srcs):
                if t.subs and p.startswith(REPO + '/'):
                    x = open(p).read()
                    for rx, rp in t.subs: x = re.sub(rx, rp, x)
                    d = d + ['-iquote', os.path.dirname(p)]; p = '%s_%d%s' % (base, k, os.path.splitext(p)[1]); open(p, 'w').write(x)
                cc = ['gcc', '-std=gnu11'] if p.endswith('.c') else ['g++', '-std=c++11', '-Wno-deprecated']
                ob = '%s_%d.o' % (base, k)
                rc, o, e = sh(cc + fl + d + ['-c', p, '-o', ob], timeout=180)
                if rc != 0: raise ToolError('replay compile %s: %s' % (p, e[-2000:]))
                objs.append(ob)
            def link(more): return sh(['g++', '-fsanitize=address'] + ['-Wl,--wrap=' + w for w in ['malloc', 'calloc', 'realloc'] + t.wraps] + objs + more + ['-o', base] + t.libs + ['-lpthread'], timeout=180)
            rc, o, e = link([])
            if rc != 0 and 'undefined reference' in e:
                ar = []
                for k, p in enumerate(s.b.others(t)):
                    ob = '%s_o%d.o' % (base, k); cc = ['gcc', '-std=gnu11'] if p.endswith('.c') else ['g++', '-std=c++11', '-Wno-deprecated']
                    if sh(cc + fl + ['-c', p, '-o', ob], timeout=180)[0] == 0: ar.append(ob)
                sh(['ar', 'rcs', base + '.a'] + ar); rc, o, e = link([base + '.a'])
            if rc != 0: raise ToolError('replay link: ' + e[-2000:])
            return base
        return s.b.once(('rbin', t.harness, tuple(sorted(t.defs.items())), tuple(t.srcs), t.subs, variant), go)
    def replay(s, t, vals, variant='O1', fill='0xbe'):
        b = s.rbin(t, variant)
        d = tempfile.mkdtemp(dir=s.w); vf = os.path.join(d, 'v')
        open(vf, 'w').write('\n'.join(map(str, vals)) + '\n')
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=100000:malloc_fill_byte=%d:detect_stack_use_after_return=1:abort_on_error=0:exitcode=43' % int(fill, 16), TZ='UTC')
        rc, o, e = sh([b, vf], timeout=20, cwd=d, env=env)
        if rc is None: return 'HANG', o, e
        if 'REPLAY-FAIL' in o: return 'FAIL', o, e
        if 'AddressSanitizer' in e: return 'ASAN', o, e
        if rc == 42: return 'ASSUME', o, e
        if rc == 0: return 'OK', o, e
        return 'CRASH rc=%s' % rc, o, e
    # ---- one task
    def task(s, t):
        t0 = time.time(); r = dict(task=t.name, harness=t.harness, defs=t.defs, unwind=t.unwind, bounds=t.bounds, verdict=None, notes=[])
        if s.stop: r['verdict'] = 'SKIPPED'; r['wall_s'] = 0; return r
        try:
            cfile, em, un = s.b.csource(t)
            r['functions'] = em; r['unmodelled'] = un
            unwind = t.unwind; tries = 0; ub = s.loops(t, cfile)
            while True:
                left = min(t.timeout - (time.time() - t0), s.end - time.time())
                if left < 5: r['verdict'] = 'TIMEOUT'; break
                rc, o, e = sh(cbmc_cmd(t, cfile, unwind, ub=ub), timeout=left, mem=t.mem)
                if rc is None: r['verdict'] = 'TIMEOUT'; break
                p = parse_cbmc(o)
                if p is None or p['results'] is None:
                    r['verdict'] = 'ERROR'; r['notes'].append('cbmc rc=%s %s %s' % (rc, (p or {}).get('errors'), (o[-300:] + e[-300:]) if not p else '')); break
                r.update({k: p[k] for k in ('steps', 'vcc', 'vcc_left', 'vars', 'clauses', 'solver_s', 'solves')})
                r['unwind'] = unwind
                fails = [x for x in p['results'] if x['status'] == 'FAILURE']
                r['properties'] = len(p['results'])
                wit = [x for x in p['results'] if x['description'].startswith('WITNESS ')]
                r['witnesses'] = [x['description'][8:] for x in wit if x['status'] == 'FAILURE']
                dead = sorted({x['description'][8:] for x in wit} - {x['description'][8:] for x in wit if x['status'] == 'FAILURE'})
                real = [x for x in fails if not x['description'].startswith('WITNESS ')]
                unw = [x for x in real if 'unwinding assertion' in x['description'] or 'recursion unwinding' in x['description']]
                unm = [x for x in real if x['description'].startswith('UNMODELLED')]
                bnd = [x for x in real if x['description'].startswith('VP-BOUND')]
                oth = [x for x in real if x not in unw and x not in unm and x not in bnd]
                if unw and not oth and tries < t.retry:
                    tries += 1
                    for x in unw:
                        m = re.match(r'(.*)\.unwind\.(\d+)$', x['property'])
                        if m: k = '%s.%s' % m.groups(); ub[k] = 2 * ub.get(k, t.unwindset.get(k[2:], unwind)) + 1; r['notes'].append('%s: %d' % (k, ub[k]))
                        else: unwind *= 2; r['notes'].append('unwind raised to %d' % unwind)
                    continue
                if bnd: r['notes'].append('library model capacity exceeded'); oth = oth + bnd
                if oth or unw:
                    s.confirm(t, r, cfile, (unwind, ub), oth or unw, bool(oth))
                    if r['verdict'] is None: r['verdict'] = 'UNREPRODUCED'
                    if r['verdict'] == 'UNREPRODUCED' and unm: r['notes'].append('unmodelled: ' + ', '.join(x['description'] for x in unm))
                elif unm: r['verdict'] = 'ERROR'; r['notes'].append('unmodelled: ' + ', '.join(sorted({x['description'] for x in unm})))
                elif dead: r['verdict'] = 'VACUOUS'; r['notes'].append('unreached witnesses: ' + ', '.join(dead))
                elif not wit: r['verdict'] = 'ERROR'; r['notes'].append('harness has no witness')
                else:
                    r['verdict'] = 'HOLDS'
                    if t.validate: s.validate(t, r, cfile, (unwind, ub), [x for x in wit if x['status'] == 'FAILURE'])
                break
        except ToolError as ex: r['verdict'] = 'ERROR'; r['notes'].append(str(ex))
        except Exception as ex:
            import traceback; r['verdict'] = 'ERROR'; r['notes'].append(traceback.format_exc()[-1500:])
        r['wall_s'] = round(time.time() - t0, 2)
        if r['verdict'] == 'VIOLATED' and t.kf is None and not os.environ.get('VP_ALL'): s.stop = True
        return r
    def loops(s, t, cfile):
        """loop bounds by function name"""
        if not t.uw: return {}
        def go():
            rc, o, e = sh(['cbmc', cfile, '--show-loops', '--drop-unused-functions'], timeout=60)
            return re.findall(r'^Loop (\S+):', o or '', re.M)
        ub = {}
        for l in s.b.once(('loops', cfile), go):
            for rx, k in t.uw.items():
                if re.search(rx, l): ub[l] = k
        return ub
    def trace(s, t, cfile, unwind, prop, timeout=None):
        rc, o, e = sh(cbmc_cmd(t, cfile, unwind[0], ['--trace', '--property', prop], ub=unwind[1]), timeout=min(timeout or t.timeout, max(20, s.end + 60 - time.time())), mem=t.mem)
        if rc is None: return None
        try: return nd_values(o)
        except Exception: return None
    def confirm(s, t, r, cfile, unwind, cands, strong):
        tried = set()
        for x in cands[:6]:
            vals = s.trace(t, cfile, unwind, x['property'])
            if vals is None: r['notes'].append('no trace for ' + x['description']); continue
            if tuple(vals) in tried: continue
            tried.add(tuple(vals))
            for variant, fill in (('O1', '0xbe'), ('O2', '0x00'), ('O1', '0x01')):
                st, o, e = s.replay(t, vals, variant, fill)
                r['notes'].append('%s: %s replay[%s]=%s %s' % (x['property'], x['description'], variant, st, ' '.join(l for l in o.split('\n') if 'REPLAY-FAIL' in l)))
                if st == 'FAIL' or st == 'ASAN' or st.startswith('CRASH') or st == 'HANG':
                    r['verdict'] = 'VIOLATED'
                    m = re.search(r'ERROR: AddressSanitizer: [^\n]*', e)
                    what = ' '.join(l[12:] for l in o.split('\n') if 'REPLAY-FAIL' in l) or (m.group(0) if m else st)
                    fr = re.findall(r'#\d+ 0x\w+ in (\S+) (/repo/\S+)', e)
                    r['cex'] = dict(values=vals, solver_property=x['description'], replay=st, what=what, where=fr[:3], variant=variant, fill=fill)
                    return
                if st == 'ASSUME': break
        r['verdict'] = 'UNREPRODUCED'
    def validate(s, t, r, cfile, unwind, wit):
        """drive the real build along the solver's witness and require it to get there"""
        v = []
        for x in wit[:2]:
            vals = s.trace(t, cfile, unwind, x['property'])
            if vals is None: v.append(dict(witness=x['description'][8:], replay='no trace')); continue
            try: st, o, e = s.replay(t, vals)
            except ToolError as ex: v.append(dict(witness=x['description'][8:], replay='not built: ' + str(ex)[:200])); continue
            ok = ('REPLAY-WITNESS ' + x['description'][8:]) in o
            v.append(dict(witness=x['description'][8:], input=vals[:64], replay=st, reached=ok))
        r['validated'] = v

def demangle(names):
    try:
        rc, o, e = sh(['c++filt'] + names[:400]); return o.strip().split('\n')
    except Exception: return names

def main(prop, mod, tier, seed):
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, '.work'), exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + '-', dir=os.path.join(VERIF, '.work'))
    try: return _main(prop, mod, tier, seed, work, t0)
    finally:
        if not os.environ.get('VP_KEEP'): shutil.rmtree(work, ignore_errors=True)

def _main(prop, mod, tier, seed, work, t0):
    R = Runner(prop, tier, seed, work)
    tasks = mod.tasks(tier)
    only = os.environ.get('VP_ONLY')
    if only: tasks = [t for t in tasks if re.search(only, t.name)]
    val = {}
    for t in tasks:
        if t.kf is None and t.harness not in val: val[t.harness] = t; t.validate = True
    with ThreadPoolExecutor(NPROC) as ex: rs = list(ex.map(lambda t: t.run(R) if hasattr(t, 'run') else R.task(t), tasks))
    kfs = {}
    try: kfs = {k['id']: k for k in json.load(open(os.path.join(VERIF, 'known_findings.json')))['findings'] if k.get('status') == 'open'}
    except FileNotFoundError: pass
    viol = 0; bad = []; known = []
    rdir = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    for t, r in zip(tasks, rs):
        if t.kf is not None:
            if t.kf not in kfs: bad.append('known finding %s is not listed' % t.kf)
            if r['verdict'] == 'VIOLATED': known.append('KNOWN-FINDING: property=%s %s: %s' % (prop, t.kf, kfs.get(t.kf, {}).get('summary', '')))
            elif r['verdict'] not in ('HOLDS', 'VIOLATED'): bad.append('%s: %s %s' % (t.name, r['verdict'], '; '.join(r['notes'])[:800]))
            continue
        if r['verdict'] == 'VIOLATED':
            viol += 1; path = os.path.join(rdir, '%s-%s.json' % (prop, re.sub(r'\W+', '_', t.name)))
            json.dump(dict(property=prop, task=t.name, harness=getattr(t, 'harness', ''), defs=getattr(t, 'defs', {}), srcs=getattr(t, 'srcs', []), wraps=getattr(t, 'wraps', []), subs=getattr(t, 'subs', ()), libs=getattr(t, 'libs', []), rflags=getattr(t, 'rflags', []), rdefs=getattr(t, 'rdefs', {}), cex=r.get('cex'), how='python3 /verif/engine/replay.py ' + path), open(path, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  task %s: %s' % (t.name, (r.get('cex') or {}).get('what', '')))
        elif r['verdict'] not in ('HOLDS', 'SKIPPED'): bad.append('%s: %s %s' % (t.name, r['verdict'], '; '.join(r['notes'])[:1500]))
    for k in known: print(k)
    fns = sorted({f for r in rs for f in r.get('functions', [])})
    dm = dict(zip(fns, demangle(fns))) if fns else {}
    libc = set(re.findall(r'^W [^\n(]*?(\w+)\(', open(os.path.join(HERE, 'rt.c')).read(), re.M))
    enc = sorted({dm.get(f, f) for f in fns if f not in libc and not dm.get(f, f).startswith('std::') and f != 'harness'})
    vs = [v for r in rs for v in r.get('validated', [])]
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'other'),
        coverage=dict(
            explanation='Symbolic execution of the real code (clang 18 IR of /repo, translated to C and decided by CBMC/SAT, or by the IR executor with z3 where a task says so). Every task is decided for all values inside its stated bounds; unwinding assertions are on, so a too small loop bound is reported, never silently cut. Each harness carries reachability witnesses that must be satisfiable, and the first task of each harness replays the solver\'s witness on the real build.',
            tasks=[{k: r.get(k) for k in ('task', 'harness', 'bounds', 'unwind', 'verdict', 'properties', 'vcc', 'vcc_left', 'vars', 'clauses', 'solves', 'solver_s', 'wall_s', 'witnesses', 'queries') if r.get(k) is not None} for r in rs],
            functions_encoded=enc, tasks_run=len(rs),
            queries_discharged=sum(r.get('solves', 0) + r.get('queries', 0) for r in rs), assertions_decided=sum(r.get('properties', 0) for r in rs),
            verification_conditions=sum(r.get('vcc', 0) for r in rs), symex_steps=sum(r.get('steps', 0) for r in rs),
            solver_s=round(sum(r.get('solver_s', 0) for r in rs), 2),
            traces_validated_against_impl=sum(1 for v in vs if v.get('reached')), samples=[v for v in vs][:8] or [dict(task=r['task'], verdict=r['verdict']) for r in rs][:3],
            known_findings=known, undecided=[b[:300] for b in bad], skipped_after_violation=sum(1 for r in rs if r['verdict'] == 'SKIPPED')),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(time.time() - t0, 2), violations=viol)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    nh = sum(1 for r in rs if r['verdict'] == 'HOLDS')
    print('%s %s: %d/%d tasks hold, %d violated, %d undecided, %.1fs' % (prop, tier, nh, len(rs), viol, len(bad), time.time() - t0))
    if os.environ.get('VP_V'):
        for r in rs:
            if os.environ['VP_V'] == '1' and r['verdict'] == 'HOLDS' and not [v for v in r.get('validated', []) if not v.get('reached')]: continue
            print('  ', r['task'], r['verdict'], 'unwind', r.get('unwind'), 'steps', r.get('steps'), 'vars', r.get('vars'), 'solver %.1f' % r.get('solver_s', 0), 'wall', r['wall_s'], r.get('witnesses'), [n[:300] for n in r['notes']][:6] if r['verdict'] != 'HOLDS' else '', (r.get('cex') or {}).get('values', '') if r.get('cex') else '', (r.get('cex') or {}).get('where', ''), [(v['witness'], v['replay'], v.get('reached')) for v in r.get('validated', [])])
    if viol: return 1
    if bad:
        for x in bad: print('UNDECIDED ' + x.replace('\n', ' ')[:700])
        return 2 if 3 * len(bad) > len(rs) else 0
    return 0
