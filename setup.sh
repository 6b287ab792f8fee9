#!/bin/bash
# Builds every world once (the checks rebuild what they need when /repo changes).
cd "$(dirname "$0")"
python3 - <<'PY' | xargs -P 4 -n 1 bash sim/build.sh >/dev/null
import sys
sys.path.insert(0, '.')
from sim.registry import PROPS
for w in sorted({w for p in PROPS.values() for w in p["worlds"]}):
    print(w)
PY
