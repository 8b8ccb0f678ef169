#!/bin/bash
# Commits /repo's working tree as one repair, once it builds and its tests pass.
set -e
cd /repo
bash /opt/vp/build.sh > /tmp/cf-build.log 2>&1
bash /opt/vp/test.sh /tmp/cf.json > /tmp/cf-test.log 2>&1
grep -q "134 passed, 0 failed" /tmp/cf-test.log
git commit -qam "$1"
git log --oneline | head -1
