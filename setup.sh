#!/bin/sh
# everything is built by the checks themselves; here the tools are only tried out
set -e
cd "$(dirname "$0")"
java -version >/dev/null 2>&1
mpicxx --version >/dev/null
python3 -c "import json, concurrent.futures"
python3 - <<'P'
import sys; sys.path.insert(0, '.')
from vp import build
build.driver()
P
