#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] [extra runner args] - builds from /repo and runs one property's simulation."""
import os, subprocess, sys
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build
prop = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
binp = build.build([prop])[0]
cmd = [binp, "--tier", tier, "--verif", VERIF] + sys.argv[3:]
sys.exit(subprocess.call(cmd, cwd=VERIF))
