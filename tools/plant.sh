#!/bin/bash
# plant.sh ID...: applies each planted bug to /repo, builds, runs the tests, the
# demonstration and the check of its property, and undoes it.
cd /verif
for id in "$@"; do
  d=seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd /repo && bash /verif/$d/demo.sh >/tmp/plant.demo0 2>&1); clean=$?
  git -C /repo apply $PWD/$d/patch.diff || continue
  bash /opt/vp/build.sh >/tmp/plant.build 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/plant.json >/tmp/plant.test 2>&1
  t=$(python3 -c "import json;d=json.load(open('/tmp/plant.json'));print(len(d['passed']),len(d['failed']))")
  (cd /repo && bash /verif/$d/demo.sh >/tmp/plant.demo 2>&1); dirty=$?
  out=$(VERIF_SEED=${VERIF_SEED:-1} python3 lib/run.py ${CHECK:-$prop} 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $prop: demo clean=$clean patched=$dirty build=$b tests=$t check rc=$rc"
  echo "$out" | grep -v "^build\|KNOWN" | tail -${LINES_:-3} | cut -c1-200
  rm -f build/replay/*
done
bash /opt/vp/build.sh >/tmp/plant.build 2>&1
