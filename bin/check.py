#!/usr/bin/env python3
"""check.py P01: decides one property on /repo's working tree.

Builds what the property needs, runs its workloads (bin/props.py) under its monitors, matches every
violation against known_findings.txt, writes evidence/<id>.json, and
  exits 0  when no unlisted violation was observed,
  exits 1  after printing "VIOLATION property=<id> replay=<path>",
  exits 2  when it could not do its work (build failure, harness failure, nothing observed).
"""
import os, sys, re, json, time, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, runner, props

V = build.VERIF

def load_known():
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)$", l)
            if m:
                out.append((m.group(1).split(","), re.compile(m.group(2).replace("%20", " ") + r"\Z"), m.group(3)))
    return out

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    P = props.PROPS[pid]
    t0 = time.time()
    known = load_known()
    try:
        jobs, extra = [], []
        need = {}
        for j in P["jobs"]:
            if callable(j): extra.append(j); continue
            n = need.setdefault(j["cfg"], (set(), set()))
            for d in j["doms"].split(","):
                if d: n[0].add(props.LIB[d])
            n[0].update(j.get("libs", ()))
            n[1].add(j["prog"])
        for cfg, (libs, progs) in need.items():
            build.build(cfg, sorted(libs), sorted(progs))
    except build.BuildError as e:
        print("check: cannot build:", e, file=sys.stderr)
        return 2
    scale = float(os.environ.get("VERIF_SCALE") or 1)
    for j in P["jobs"]:
        if callable(j): continue
        n = max(1, int((j["quick"] if tier == "quick" else j.get("thorough", j["quick"] * 20)) * scale))
        if j.get("fixed"): n = j["quick"]
        jobs.append(runner.Job(build.outdir(j["cfg"]), j["prog"], j["mode"], n, j["doms"], seed, j.get("chunk", 100),
                               j.get("limit_ms", 4000), pid, j.get("leaks", False), j.get("extra", ())))
    deadline = time.time() + (600 if tier == "quick" else 6 * 3600)
    res = runner.run_jobs(jobs, deadline=deadline) if jobs else runner.Result()
    for f in extra:
        f(res, tier, seed, pid)
    # hangs: a few slow cases are inconclusive, a domain that keeps timing out is not
    per = {}
    for mode, case, lab in res.timeouts:
        per.setdefault(lab or mode, []).append((mode, case))
    for lab, l in per.items():
        if len(l) >= 25 and len(l) > 0.02 * max(1, res.cases):
            j = [x for x in jobs if x.mode == l[0][0]][0]
            res.viol("hang:" + lab, l[0][1], "%d calls did not return within %d ms of CPU time" % (len(l), j.limit_ms), j, len(l))
    # classify
    newv, hits = [], {}
    for key, v in sorted(res.viols.items()):
        if P.get("only") and not re.match(P["only"], key): continue   # belongs to another property
        for i, (pids, rx, what) in enumerate(known):
            if pid in pids and rx.match(key):
                hits.setdefault(i, []).append(key)
                break
        else:
            newv.append((key, v))
    cov = {
        "evaluations": res.evals, "distinct_nontrivial": len(res.hashes), "rule": P["rule"],
        "samples": res.samples[:5] or ["(none)"], "cases": res.cases, "workloads": len(jobs),
        "timeouts_inconclusive": len(res.timeouts), "crashes_observed": res.crashes,
        "observed": {k: res.stats[k] for k in sorted(res.stats)[:400]},
        "known_findings_observed": sum(len(x) for x in hits.values()),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": P.get("assumptions", props.ASSUME), "wall_s": round(time.time() - t0, 2), "violations": len(newv)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    tmp = os.path.join(V, "evidence", pid + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(V, "evidence", pid + ".json"))
    for i in sorted(hits):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[i][2]))
    print("%s %s seed %d: %d cases, %d judgements, %d distinct, %d timeouts, %d crashes, %.1f s" %
          (pid, tier, seed, res.cases, res.evals, len(res.hashes), len(res.timeouts), res.crashes, time.time() - t0))
    if newv:
        rd = os.path.join(V, "replay")
        os.makedirs(rd, exist_ok=True)
        for key, v in newv[:20]:
            p = os.path.join(rd, "%s-%s.json" % (pid, hashlib.sha1(key.encode()).hexdigest()[:10]))
            job = v["job"]
            spec = job.spec() if hasattr(job, "spec") else dict(job or {})
            spec.update(property=pid, key=key, case=v["case"], count=v["n"], what=v["desc"],
                        replay="python3 bin/build.py ... && bin/case.sh %s %s %s %s %s %s" % (spec.get("config"), spec.get("prog"), spec.get("mode"), spec.get("doms"), v["case"], spec.get("seed")))
            json.dump(spec, open(p, "w"), indent=1)
            print("  %s (%d): %s" % (key, v["n"], v["desc"][:500].replace("\n", " ")))
            print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    if res.errors:
        print("check: errors:", res.errors[:3], file=sys.stderr)
        return 2
    if res.evals < P.get("min_evals", 100) or len(res.hashes) < P.get("min_distinct", 20):
        print("check: the run observed too little to conclude", file=sys.stderr)
        return 2
    return 0

if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
