#!/bin/bash
# Checks that the tools are there and that the harness builds against /repo.
set -e
cd "$(dirname "$0")"
command -v tlc java setpriv python3 >/dev/null
python3 - <<'P'
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, "lib")
import core
c = core.Ctx("setup", "quick")
try:
    c.harness()
finally:
    c.cleanup()
print("harness builds")
P
