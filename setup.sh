#!/bin/bash
# Builds the simulator's native parts into /verif/build (git-ignored); checks rebuild them when missing.
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.path.insert(0, "lib")
import pyrun
pyrun.build_shim()
P
echo setup done
