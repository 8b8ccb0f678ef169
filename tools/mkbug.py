#!/usr/bin/env python3
"""Records a planted bug: mkbug.py ID < spec, spec being Python code that sets
property, needs, breaks, edits (list of (file, old, new)) and demo (dict name -> text).
/repo is left as it was."""
import json
import os
import subprocess
import sys

REPO = os.environ.get('PYINTERP_REPO', '/repo')
bug = sys.argv[1]
spec = {}
exec(sys.stdin.read(), spec)
root = f'/verif/seeded/{bug}'
os.makedirs(root, exist_ok=True)
assert not subprocess.run(f'git -C {REPO} status --porcelain -uno', shell=True, capture_output=True, text=True).stdout
try:
    for name, old, new in spec['edits']:
        path = REPO + '/src/pyinterp/' + name
        text = open(path).read()
        assert text.count(old) == 1, (name, text.count(old), old)
        open(path, 'w').write(text.replace(old, new))
    diff = subprocess.run(['git', '-C', REPO, 'diff'], capture_output=True, text=True, check=True).stdout
finally:
    subprocess.run(['git', '-C', REPO, 'checkout', '-q', '--', '.'], check=True)
with open(root + '/patch.diff', 'w') as f:
    f.write(diff)
for name, text in spec['demo'].items():
    with open(f'{root}/{name}', 'w') as f:
        f.write(text)
if 'demo.sh' not in spec['demo'] and any(n.endswith('.cpp') for n in spec['demo']):
    with open(root + '/demo.sh', 'w') as f:
        f.write('''#!/bin/bash
# Compiles demo.cpp against the headers of the working tree, and runs it.
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
repo=$(pwd)
g++ -std=c++17 -O1 -w -I"$repo/src/pyinterp/core/include" -isystem /usr/include/eigen3 \\
  "$here/demo.cpp" -o "$tmp/demo" EXTRA
"$tmp/demo"
'''.replace(' EXTRA', ' ' + spec.get('extra', '')))
os.chmod(root + '/demo.sh', 0o755)
with open(root + '/meta.json', 'w') as f:
    json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, f, indent=1)
    f.write('\n')
