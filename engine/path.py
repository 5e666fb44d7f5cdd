"""Engine E2 on the harness API of vp.h: every path of a harness over symbolic inputs; obligations decided by z3.
A task is a core.T (same harnesses, stubs and replay as engine E1) that is decided path by path instead of by CBMC."""
import os, re, json, time, hashlib
import core
class P(core.T):
    limit = 400000000; passes = 'internalize,globaldce,function(sroa,mem2reg,simplifycfg<bonus-inst-threshold=8>,early-cse,simplifycfg<bonus-inst-threshold=8>,instsimplify)'
    def key(t): return (t.harness, tuple(sorted(t.defs.items())), tuple(sorted(t.cdefs.items())), tuple(t.srcs), t.subs)
    def ll(t, R, more=False):
        def go():
            V = core.VERIF
            parts = [R.b.ir(os.path.join(V, 'harness', t.harness), {**t.defs, **t.cdefs})] + [R.b.ir(p if p.startswith('/') else os.path.join(core.REPO, p), t.cdefs, t.subs) for p in t.srcs] + [R.b.ir(os.path.join(core.HERE, 'rt.c'), {})]
            o = os.path.join(R.w, 'p' + hashlib.md5(repr((parts, more)).encode()).hexdigest())
            rc, _, e = core.sh([core.LINK, '-o', o + '.bc'] + parts, timeout=120)
            if rc: raise core.ToolError('llvm-link: ' + e[-900:])
            if more:
                need = []
                for p in R.b.others(t):
                    try: need.append(R.b.ir(p, t.cdefs))
                    except core.ToolError: pass
                rc, _, e = core.sh([core.LINK, '--only-needed', '-o', o + '2.bc', o + '.bc'] + need, timeout=120)
                if rc == 0: os.replace(o + '2.bc', o + '.bc')
            rc, _, e = core.sh([core.OPT, '-S', '-passes=' + t.passes, '-internalize-public-api-list=harness', o + '.bc', '-o', o + '.ll'], timeout=120)
            if rc: raise core.ToolError('opt: ' + e[-900:])
            return o + '.ll'
        return R.b.once(('path', more) + t.key(), go)
    def run(t, R):
        t0 = time.time(); r = dict(task=t.name, harness=t.harness, defs=t.defs, bounds=t.bounds, verdict=None, notes=[], unwind=None)
        if R.stop: r['verdict'] = 'SKIPPED'; r['wall_s'] = 0; return r
        try:
            for more in (False, True):
                end = min(t0 + t.timeout, R.end); left = end - time.time()
                if left < 5: r['verdict'] = 'TIMEOUT'; break
                ll = t.ll(R, more); r['notes'] = []
                rc, o, e = core.sh(['python3-vt', os.path.join(core.HERE, 'lia.py'), R.prop, R.tier, t.name, ll, str(end)], timeout=left + 20, mem=t.mem)
                try: d = json.loads(o.strip().split('\n')[-1])
                except Exception: d = dict(verdict='TIMEOUT' if rc is None else 'ERROR', notes=['%s %s' % (rc, (e or '')[-900:])])
                r.update(d)
                if not (d['verdict'] == 'ERROR' and 'call of ' in ' '.join(d['notes'])): break
            if d.get('cex_model') is not None:
                for variant, fill in (('O1', '0xbe'), ('O2', '0x00'), ('O1', '0x01')):
                    st, o, e = R.replay(t, d['cex_model'], variant, fill)
                    r['notes'].append('replay[%s]=%s %s' % (variant, st, ' '.join(l for l in o.split('\n') if 'REPLAY-FAIL' in l)))
                    if st in ('FAIL', 'ASAN', 'HANG') or st.startswith('CRASH'):
                        what = ' '.join(l[12:] for l in o.split('\n') if 'REPLAY-FAIL' in l) or core.asan(e)[:300] or st
                        r['verdict'] = 'VIOLATED'; r['cex'] = dict(values=d['cex_model'], solver_property=d['what'], replay=st, what='%s' % what, variant=variant, fill=fill, where=re.findall(r'#\d+ 0x\w+ in (\S+) (/repo/\S+)', e)[:3]); break
            elif t.validate and r['verdict'] == 'HOLDS':
                v = []
                for n, vals in (d.get('sample') or [])[:2]:
                    try: st, o, e = R.replay(t, vals)
                    except core.ToolError as x: v.append(dict(witness=n, replay='not built: ' + str(x)[:300], reached=False)); continue
                    v.append(dict(witness=n, input=vals[:64], replay=st, reached=('REPLAY-WITNESS ' + n) in o))
                r['validated'] = v
        except core.ToolError as ex: r['verdict'] = 'ERROR'; r['notes'].append(str(ex))
        except Exception:
            import traceback; r['verdict'] = 'ERROR'; r['notes'].append(traceback.format_exc()[-900:])
        r.pop('sample', None); r['wall_s'] = round(time.time() - t0, 2)
        if r['verdict'] == 'VIOLATED' and t.kf is None and not os.environ.get('VP_ALL'): R.stop = True
        return r
    def solve(t, text, deadline):
        import lia, z3
        r = dict(notes=[]); x = lia.Run(text, deadline, t.limit); x.inputs = []; x.oom = False; x.hooks = {}; x.seen = set(); x.nd = {}; x.samples = []; x.witness = set(re.findall(r'@vp_witness\([^)]*?@([\w.$-]+)', text))
        x.lits = {}; x.dom[-1] = 1; x.bvals[-1] = [0]; x.zv_ = None
        try:
            x.base.info['nd'] = (); x.scope = [[]]
            x.run(x.base, 'harness', [], lambda st, ret: x.flush())
            dead = {x.text(n) for n in x.witness} - x.seen; r['verdict'] = 'HOLDS'
            if dead: r['verdict'] = 'VACUOUS'; r['notes'].append('unreached: %s' % sorted(dead))
            elif not x.witness: r['verdict'] = 'ERROR'; r['notes'].append('harness has no witness')
        except lia.Found as f: r.update(verdict='UNREPRODUCED', cex_model=f.model, what=f.what); r['notes'].append(f.what + ' ' + str(f.model)[:300])
        except lia.Unsupported as e: r['verdict'] = 'ERROR'; r['notes'].append('not encodable: %s' % e)
        except (TimeoutError, z3.Z3Exception) as e: r['verdict'] = 'TIMEOUT'; r['notes'].append(str(e))
        except Exception:
            import traceback; r['verdict'] = 'ERROR'; r['notes'].append(traceback.format_exc()[-900:])
        r.update(functions=sorted(x.fns), queries=x.queries, solver_s=round(x.solver_s, 2), paths=x.paths, properties=x.obl, steps=x.steps, witnesses=sorted(x.seen), vars=len(x.vars), sample=x.samples)
        return r
