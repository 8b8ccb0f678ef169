"""Prints the stack of the crashes recorded: tools/crash.py C12 [lines]"""
import json, glob, sys
for f in sorted(glob.glob(f'/verif/build/replay/{sys.argv[1]}-*.json')):
    d = json.load(open(f))
    print('##', d['key'][:150], d['section'], d['index'], f)
    r = d.get('report', '').split('\n')
    for l in [l for l in r if 'src/pyinterp' in l or 'ERROR' in l or 'checks/' in l or '  File' in l][:int((sys.argv + ['14'])[2])]:
        print('   ', l[:260])
    print('    ', str(d.get('last'))[:600])
