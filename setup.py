#!/usr/bin/env python3
"""Builds every simulator binary (the checks rebuild what changed since)."""
import sys
sys.dont_write_bytecode = True
from concurrent.futures import ThreadPoolExecutor
import simbuild
from checks_cfg import CHECKS
def one(p):
    c = CHECKS[p]
    simbuild.build(p, c["scn"], c.get("epochs", [2025, 2026]), extra=c.get("extra"))
    return p
for p in sorted(CHECKS):
    print("built", one(p))
