"""Runs small changes of the code against the checks of their property.

    python3 tools/mutate.py FILE CLONE [TAG...]

FILE defines MUTANTS: list of (tag, 'Cxx[,Cyy]', file below src/pyinterp, old, new).
CLONE is a clone of /repo (left as it was). Prints CAUGHT / MISSED / BROKEN."""
import os
import subprocess
import sys
import time

spec = {}
exec(open(sys.argv[1]).read(), spec)
clone, wanted = sys.argv[2], sys.argv[3:]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for tag, props, name, old, new in spec['MUTANTS']:
    if wanted and tag not in wanted:
        continue
    path = f'{clone}/src/pyinterp/{name}'
    text = open(path).read()
    if text.count(old) != 1:
        print(f'{tag}: BADSPEC {text.count(old)}', flush=True)
        continue
    try:
        open(path, 'w').write(text.replace(old, new))
        for p in props.split(','):
            t = time.time()
            r = subprocess.run(['python3', 'lib/run.py', p], cwd=V, env={**os.environ, 'PYINTERP_REPO': clone}, capture_output=True, text=True)
            what = [l for l in r.stdout.split('\n') if l and not l.startswith(('build', 'VIOL', 'KNOWN'))]
            state = {0: 'MISSED', 1: 'CAUGHT'}.get(r.returncode, 'BROKEN')
            print(f'{tag} {p}: {state} {time.time() - t:.0f}s {what[0][:110] if what else r.stderr[-300:]}', flush=True)
    finally:
        open(path, 'w').write(text)
