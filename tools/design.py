"""Refreshes the generated lists of DESIGN.md (fixes, planted bugs)."""
import glob
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(V, 'DESIGN.md')
text = open(path).read()


def fill(name, body):
    global text
    text = re.sub(rf'<!-- {name} -->.*?<!-- /{name} -->', lambda m: f'<!-- {name} -->\n{body}\n<!-- /{name} -->', text, flags=re.S)


fixes = json.load(open(os.path.join(V, 'known_findings.json')))['fixed']
by = {}
for f in fixes:
    m = re.match(r'fixed: property=(\w+) (\w+) (.*)', f)
    by.setdefault(m[1], []).append(f'{m[2]} {m[3]}')
fill('fixes', '\n'.join(f'* **{k}** ({len(v)}): ' + '; '.join(v) + '.' for k, v in sorted(by.items())))
status = {}
p = os.path.join(V, 'tools', 'caught.json')
if os.path.exists(p):
    status = json.load(open(p))
rows = ['| bug | property | needs | first run | now |', '|---|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    s = status.get(i, {})
    rows.append(f"| {i} | {m['property']} | {' '.join(str(m['needs']).split())[:160]} | {s.get('first', 'caught')} | {s.get('now', 'caught')} |")
fill('seeded', '\n'.join(rows))
open(path, 'w').write(text)
