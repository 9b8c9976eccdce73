#!/usr/bin/env python3
"""Builds every harness binary once, so that the checks find them in the cache."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from suites import SUITES
tg = []
for pid, cfg in SUITES.items():
    for r in cfg["runs"]:
        tg.append(("prop", pid, r[0]))
    for t in cfg.get("needs", {}).values():
        tg.append(tuple(t))
B.build(list(dict.fromkeys(tg)))
print("built %d targets" % len(set(tg)))
