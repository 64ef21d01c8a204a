#!/usr/bin/env python3
"""Builds all harnesses once (each check rebuilds what it needs anyway)."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import build as B
from props import PROPS
done = set()
for s in PROPS.values():
    for r in s["runs"]:
        k = (r["harness"], r.get("variant", "asan"))
        if k not in done:
            done.add(k)
            B.build(r["harness"], r["mods"], k[1], r.get("extra_c", ()), r.get("cflags", ()), r.get("ldflags", ()))
print("built", len(done), "harnesses")
