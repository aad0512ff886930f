#!/bin/bash
# builds the extraction driver and the crates of /repo under analysis (both profiles, and with the stable toolchain); offline
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.path.insert(0, "lib")
import build
build.ensure_driver()
for p in ("dev", "nodebug", "stable"):
    build.ensure_base(p)
build.crate_items()
P
