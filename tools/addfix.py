"""Lists in known_findings.json the fix commits of /repo it does not list.
Usage: addfix.py PROPERTY commit... (or `hash=PROPERTY` pairs)"""
import json
import subprocess
import sys

P = '/verif/known_findings.json'
d = json.load(open(P))
log = dict(x.split(' ', 1) for x in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s', '--grep=^fix:'], text=True).splitlines())
for a in sys.argv[1:]:
    h, p = a.split('=')
    h = next(k for k in log if k.startswith(h) or h.startswith(k))
    line = f'fixed: property={p} {h} ' + log[h].removeprefix('fix: ')
    if not any(f' {h} ' in x for x in d['fixed']):
        d['fixed'].append(line)
json.dump(d, open(P, 'w'), indent=1)
listed = ' '.join(d['fixed'])
for h, s in log.items():
    if h not in listed:
        print('not listed:', h, s)
