#!/bin/bash
# rfcopy.sh GROUP DIR: a scratch copy of /repo with one group of tools/refactors.py applied
set -e
mkdir -p "$2"; cp -a /repo/. "$2"/
python3 - "$1" "$2" "$(dirname "$0")" <<'P'
import sys
sys.path.insert(0, sys.argv[3])
from refactors import R
for e in R[sys.argv[1]]:
    f = sys.argv[2] + "/" + e[0]
    s = open(f).read()
    assert e[1] in s, e
    open(f, "w").write(s.replace(e[1], e[2]) if len(e) > 3 else s.replace(e[1], e[2], 1))
P
