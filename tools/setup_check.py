#!/usr/bin/env python3-vt
"""Setup: nothing to build; confirms that the tools the checks need are there."""
import os
import sys

import z3

for p in ("/opt/venv/bin/python", "/opt/venv/lib/python3.12/site-packages/textx", "/repo/asn1_parser/main.py"):
    if not os.path.exists(p):
        sys.exit("missing: " + p)
s = z3.Solver()
x = z3.BitVec("x", 8)
s.add(x * 3 == 9)
if s.check() != z3.sat:
    sys.exit("z3 does not work")
print("ok: z3", z3.get_version_string())
