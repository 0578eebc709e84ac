#!/usr/bin/env python3
"""Builds the explorers once, so that the first check does not pay for it. Every check also builds
what it needs by itself."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from driver import build, plan
seen = set()
for prop, spec in plan.PLAN.items():
    for part in spec["parts"]:
        if part.deep:
            continue
        key = part.build_key()
        if key in seen:
            continue
        seen.add(key)
        try:
            path, notes = part.build()
            if path:
                os.unlink(path)
            print("built", key, *notes, flush=True)
        except build.CheckError as e:
            sys.exit(f"setup: {e}")
