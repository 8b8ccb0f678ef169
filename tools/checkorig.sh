#!/bin/bash
# Tells which planted bugs only remove lines which the original repository has.
base=6928329
cd /verif/seeded
for id in *; do
  python3 - $id $base <<'P'
import subprocess, sys
bug, base = sys.argv[1:]
name = None
ok = bad = 0
for line in open(f'/verif/seeded/{bug}/patch.diff').read().split('\n'):
    if line.startswith('--- a/'):
        name = line[6:]
        text = subprocess.run(['git', '-C', '/repo', 'show', f'{base}:{name}'], capture_output=True, text=True).stdout.split('\n')
    elif line.startswith('-') and not line.startswith('---'):
        if line[1:] in text: ok += 1
        else: bad += 1
print(bug, 'original lines', ok, 'later lines', bad)
P
done
