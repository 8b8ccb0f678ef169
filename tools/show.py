import json, sys, glob
n = int(sys.argv[2]) if len(sys.argv) > 2 else 5
files = sorted(glob.glob(f'/verif/build/replay/{sys.argv[1]}-*.json'))
import os, time
for f in files[:n]:
    d = json.load(open(f))
    print('##', d.get('key'), '|', d.get('section'), d.get('index'), '|', str(d.get('what'))[:1500])
    print(json.dumps(d.get('witness', d))[:2500], '\n')
