#!/bin/bash
# Warms the Go build cache; the checks build from /repo themselves.
cd "$(dirname "$0")" && python3 - <<'P'
import sys; sys.path.insert(0, "lib"); sys.dont_write_bytecode = True
from vlib import Ctx
Ctx("setup").build()
P
