#!/usr/bin/env python3
"""setup_cmd: checks the toolchain and warms the object cache (checks rebuild whatever is missing)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, props
need = {}
for p in props.PROPS.values():
    for j in p["jobs"]:
        if callable(j): continue
        n = need.setdefault(j["cfg"], (set(), set()))
        n[0].update(props.LIB[d] for d in j["doms"].split(",") if d); n[0].update(j.get("libs", ())); n[1].add(j["prog"])
try:
    for cfg, (libs, progs) in need.items(): print(build.build(cfg, sorted(libs), sorted(progs)))
except build.BuildError as e:
    print(e, file=sys.stderr); sys.exit(1)
