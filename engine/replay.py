#!/usr/bin/env python3
"""replay.py FILE: rebuilds the real code with the harness of a stored counterexample and runs it on the solver's values."""
import sys, json, os, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
d = json.load(open(sys.argv[1])); w = tempfile.mkdtemp(prefix='vp-replay-')
try:
    if d.get('cmd'): sys.exit(os.system(d['cmd']))
    t = core.T(d['task'], d['harness'], d['srcs'], d['defs'], wraps=d.get('wraps', ()), libs=d.get('libs', ()), rflags=d.get('rflags', ()), rdefs=d.get('rdefs'), subs=d.get('subs', ()))
    c = d['cex']; st, o, e = core.Runner(d['property'], 'replay', 1, w).replay(t, c['values'], c['variant'], c['fill'])
    print(st); print(o); print(e[-3000:]); sys.exit(0 if st in ('OK', 'ASSUME') else 1)
finally: shutil.rmtree(w, ignore_errors=True)
