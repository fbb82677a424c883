#!/bin/bash
# Nothing is kept between runs: each check builds its drivers from /repo's
# current tree.  This only makes sure that everything builds.
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys; sys.path.insert(0, "tools")
from common import *
w = Work("setup")
try:
    classes(w)
    import os
    for h in sorted(os.listdir("harness")):
        if os.path.isdir("harness/" + h) and h != "vh":
            build_harness(w, h)
    build_program(w)
finally:
    w.close()
P
