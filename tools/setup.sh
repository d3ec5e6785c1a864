#!/bin/bash
# builds what the checks need (they also build it themselves when it is missing or out of date)
set -e
cd "$(dirname "$0")/.."
python3 - <<'P'
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, 'tools')
import check, os
os.makedirs(check.BUILD, exist_ok=True)
check.classes()
for v in ('rel', 'wrap', 'asan', 'tsan', 'vg'): print(check.build(v))
P
