#!/usr/bin/env python3
"""developer tool: explore.py CONFIG PROG MODE DOMS COUNT [SEED] [--leaks]"""
import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, runner
args = [a for a in sys.argv[1:] if not a.startswith("--")]
cfg, prog, mode, dm, count = args[:5]
seed = int(args[5]) if len(args) > 5 else 1
chunk = 100
for a in sys.argv:
    if a.startswith("--chunk="): chunk = int(a[8:])
t = time.time()
r = runner.run_jobs([runner.Job(build.outdir(cfg), prog, mode, int(count), "" if dm == "-" else dm, seed, chunk, leaks="--leaks" in sys.argv)])
print("cases", r.cases, "evals", r.evals, "distinct", len(r.hashes), "crashes", r.crashes, "timeouts", len(r.timeouts), "errors", r.errors[:3], "%.1fs" % (time.time() - t))
if "--stats" in sys.argv:
    for k in sorted(r.stats): print("  ", k, r.stats[k])
from collections import Counter
if r.timeouts: print("timeouts:", Counter(l for _, _, l in r.timeouts).most_common(10), [c for _, c, _ in r.timeouts][:5])
W = 400 if "--full" not in sys.argv else 3000
N = next((int(a[4:]) for a in sys.argv if a.startswith("--n=")), 12)
tot = len(r.viols)
for k, v in sorted(r.viols.items(), key=lambda kv: -kv[1]["n"])[:N]:
    print("%5d  %s  [case %d]\n        %s" % (v["n"], k, v["case"], v["desc"][:W] if "crash" not in k else v["desc"][-W:]))
if tot > N: print("... %d more keys:" % (tot - N), "; ".join("%s(%d)" % (k, v["n"]) for k, v in sorted(r.viols.items(), key=lambda kv: -kv[1]["n"])[N:])[:1500])
