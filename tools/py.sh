#!/bin/bash
# Runs python on the last build of a flavour: tools/py.sh script [args]
d=$(ls -td /verif/build/pkg/mon* | head -1)
PYTHONPATH=$d:/verif/lib:/verif/lib/stubs:/verif/checks:/verif/build/vt exec python3-vt "$@"
