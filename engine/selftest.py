"""setup_cmd: the tools the engine relies on are here, and the encoding agrees with itself on aliasing patterns that
CBMC 6.11 resolves wrongly when they are written naively (harness/h_self.cpp)."""
import subprocess, sys, os, tempfile, shutil
for c in (['/usr/bin/clang-18', '--version'], ['/usr/bin/opt-18', '--version'], ['/usr/bin/llvm-link-18', '--version'], ['cbmc', '--version'], ['gcc', '--version'], ['g++', '--version'], ['python3-vt', '-c', 'import z3']):
    r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode: sys.exit('missing tool: %s: %s' % (c, r.stdout[-300:]))
print('tools present')
import core
w = tempfile.mkdtemp(prefix='self-', dir='/tmp')
try:
    R = core.Runner('self', 'quick', 1, w); bad = 0
    for m in (0, 1, 2):
        r = R.task(core.T('self-%d' % m, 'h_self.cpp', [], dict(MODE=m), unwind=130 if m == 1 else 8, bounds='-'))
        print(r['task'], r['verdict'], r['wall_s'], r['notes'] if r['verdict'] != 'HOLDS' else ''); bad += r['verdict'] != 'HOLDS'
finally: shutil.rmtree(w, ignore_errors=True)
sys.exit(1 if bad else 0)
