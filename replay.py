#!/usr/bin/env python3
"""replay.py FILE: rebuild the simulator from /repo and replay one recorded violation exactly."""
import subprocess, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import simbuild
from checks_cfg import CHECKS
prop = next(l.split()[1] for l in open(sys.argv[1], errors="replace") if l.startswith("property "))
c = CHECKS[prop]
exe = simbuild.build(prop, c["scn"], c.get("epochs", [2025, 2026]), extra=c.get("extra"))
sys.exit(subprocess.call([exe, "--replay", sys.argv[1]]))
