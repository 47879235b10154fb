"""Runs harness programs in parallel chunks, survives crashes, attributes every event to a case."""
import os, re, subprocess, struct, tempfile, threading, queue, time, shutil, json

ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=66:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_abort=0:symbolize=1:strict_string_checks=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=0:exitcode=66:silence_unsigned_overflow=1",
    "LSAN_OPTIONS": "exitcode=67:report_objects=0:max_leaks=20",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:history_size=4",
    "LANG": "C.UTF-8", "PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": "/tmp",
}

def frames(text, n=4):
    """repository functions of the first stack in a sanitizer report, innermost first"""
    out = []
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ (?:in )?(.+?)(?: \(|\s+)(/\S+?):(\d+)", text):
        fn, path = m.group(1), m.group(2)
        fn = fn.split("(")[0].strip()
        if "/harness/tsanwrap.h" in path:
            continue
        if "/harness/" in path:
            break
        if "/libsanitizer/" in path or fn.startswith("__interceptor") or "/usr/" in path:
            continue
        out.append("%s" % fn)
        if len(out) >= n:
            break
    return out

def crash_key(rc, err):
    m = re.search(r"(\S+?):(\d+): (.*?): Assertion `(.*?)' failed", err)
    if m:
        fn = m.group(3).split("(")[0].split()[-1]
        pre = re.findall(r"^(\w+_check: .*)$", err[:m.start()], re.M)
        return "assert:%s:%s:%s%s" % (os.path.basename(m.group(1).strip(":")), fn, m.group(4)[:80], ":" + pre[-1] if pre else "")
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
    if m:
        fr = frames(err[m.start():])
        kind = m.group(1)
        if kind == "attempting": kind = "bad-free"
        return "asan:%s:%s" % (kind, (fr or ["?"])[0])
    m = re.search(r"terminate called.*", err)
    if m:
        return "terminate:" + m.group(0)[:80]
    m = re.search(r"HARNESS-ERROR.*", err)
    if m:
        return "harness:" + m.group(0)
    if rc < 0:
        return "signal:%d" % -rc
    return "exit:%d" % rc

def ubsan_events(err):
    """list of (key, text) for UBSan runtime errors"""
    ev = {}
    for m in re.finditer(r"^(\S+?):(\d+):(\d+): runtime error: (.*)$", err, re.M):
        f = os.path.basename(m.group(1))
        msg = m.group(4)
        kind = re.sub(r"-?\d[\d.e+]*|0x[0-9a-f]+|'[^']*'", "N", msg)[:70]
        tail = err[m.end():m.end() + 1500]
        fr = frames(tail.split("runtime error")[0])
        key = "ubsan:%s:%s:%s" % (f, (fr or ["?"])[0], kind)
        ev.setdefault(key, "%s:%s %s" % (f, m.group(2), msg))
    return list(ev.items())

def tsan_events(err):
    """list of (key, text) for ThreadSanitizer reports: one per pair of library functions"""
    ev = {}
    for blk in re.split(r"^={18}$", err, flags=re.M):
        m = re.search(r"WARNING: ThreadSanitizer: (.+?) \(pid", blk)
        if not m: continue
        fr = []
        for part in re.split(r"^  (?:Previous |Atomic |As if )?(?:[Rr]ead|[Ww]rite|atomic)", blk, flags=re.M)[1:3]:
            f = [x for x in frames(part.split("\n\n")[0], 8) if x not in ("malloc", "calloc", "realloc", "free", "memcpy", "memset", "memmove", "operator new", "operator delete")]
            fr.append((f or ["?"])[0])
        if not fr:
            fr = (frames(blk, 1) or ["?"])
        ev.setdefault("race:%s:%s" % (m.group(1).replace(" ", "-"), "+".join(sorted(set(fr)))), blk.strip()[:900])
    return list(ev.items())

class Result:
    def __init__(self):
        self.cases = self.evals = 0
        self.stats = {}
        self.hashes = set()
        self.samples = []
        self.viols = {}      # key -> dict(case, desc, n, prog, args)
        self.timeouts = []   # (case, label)
        self.errors = []
        self.crashes = 0
    def viol(self, key, case, desc, job, n=1):
        v = self.viols.setdefault(key, dict(case=case, desc=desc, n=0, job=job))
        v["n"] += n
        if case < v["case"]:
            v.update(case=case, desc=desc, job=job)

class Job:
    """one workload: prog --mode M over cases [0, count)"""
    def __init__(self, outdir, prog, mode, count, doms="", seed=1, chunk=100, limit_ms=4000, prop="", leaks=False, extra=(), ub=True):
        self.__dict__.update(outdir=outdir, prog=prog, mode=mode, count=count, doms=doms, seed=seed, chunk=chunk,
                             limit_ms=limit_ms, prop=prop, leaks=leaks, extra=list(extra), ub=ub)
    def cmd(self, start, count, status=None):
        c = [os.path.join(self.outdir, self.prog), "--mode", self.mode, "--seed", str(self.seed), "--start", str(start),
             "--count", str(count), "--libs", self.outdir, "--limit-ms", str(self.limit_ms), "--prop", self.prop]
        if self.doms: c += ["--dom", self.doms]
        if status: c += ["--status", status]
        return c + self.extra
    def spec(self):
        return dict(config=os.path.basename(self.outdir), prog=self.prog, mode=self.mode, doms=self.doms, seed=self.seed, leaks=self.leaks, limit_ms=self.limit_ms, extra=self.extra)

def run_jobs(jobs, workers=None, deadline=None):
    workers = workers or (os.cpu_count() or 4)
    res = Result()
    lock = threading.Lock()
    q = queue.Queue()
    items = []
    for j in jobs:
        for s in range(0, j.count, j.chunk):
            items.append((j, s, min(j.chunk, j.count - s)))
    # interleave jobs so that a deadline cuts all of them evenly
    items.sort(key=lambda t: t[1] / max(1, t[0].count))
    for it in items: q.put(it)
    tmp = tempfile.mkdtemp(prefix="verif-run-")
    def one(j, start, count, wid):
        end = start + count
        cur = start
        ncrash = 0
        while cur < end:
            st = os.path.join(tmp, "st%d" % wid)
            env = dict(ENV)
            if j.leaks: env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1")
            try:
                p = subprocess.run(j.cmd(cur, end - cur, st), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env,
                                   timeout=60 + (end - cur) * 2, cwd=tmp)
                rc, out, err = p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
            except subprocess.TimeoutExpired as e:
                rc, out, err = -999, (e.stdout or b"").decode("utf8", "replace"), (e.stderr or b"").decode("utf8", "replace")
            case, label = cur, ""
            try:
                b = open(st, "rb").read()
                case = struct.unpack("q", b[:8])[0]
                label = b[8:].split(b"\0")[0].decode("utf8", "replace")
            except Exception:
                pass
            done = False
            with lock:
                for line in out.splitlines():
                    f = line.split("\t")
                    if f[0] == "VIOL" and len(f) >= 4:
                        res.viol(f[2], int(f[1]), f[3], j)
                    elif f[0] == "DONE":
                        done = True; res.cases += int(f[1]); res.evals += int(f[2])
                    elif f[0] == "STAT":
                        res.stats[f[1]] = res.stats.get(f[1], 0) + int(f[2])
                    elif f[0] == "SAMPLE" and len(res.samples) < 5:
                        res.samples.append(f[1])
                    elif f[0] == "HASHES" and len(f) > 1:
                        res.hashes.update(f[1].split())
                if "ThreadSanitizer" in err:
                    for key, txt in tsan_events(err):
                        res.viol(key, cur if done else case, "in cases %d..%d: %s" % (cur, case, txt), j)
                if j.ub:
                    for key, txt in ubsan_events(err):
                        res.viol(key, case, "undefined behaviour: " + txt, j)
            if done and rc == 67 or (done and "LeakSanitizer" in err):
                fr = re.split(r"\n\n", err)
                with lock:
                    for blk in fr:
                        m = re.search(r"(Direct|Indirect) leak of (\d+) byte", blk)
                        if m and m.group(1) == "Direct":
                            f4 = [x for x in frames(blk, 6) if x not in ("malloc", "calloc", "realloc", "operator new")]
                            res.viol("leak:" + ">".join(f4[:3]), cur, "leak in cases %d..%d: %s" % (cur, end - 1, blk[:600]), j)
                return
            if done and rc == 0:
                return
            if done:
                # sanitizer exit code after completion with recoverable reports
                if rc in (66,) and ("runtime error" in err or "ThreadSanitizer" in err): return
                with lock: res.errors.append("exit %d after completion: %s" % (rc, err[-500:]))
                return
            # crashed inside `case`
            with lock:
                res.cases += max(0, case - cur) + 1
                if rc == 77:
                    res.timeouts.append((j.mode, case, label))
                elif rc == -999:
                    res.timeouts.append((j.mode, case, label + " (wall)"))
                elif rc == 3 or "HARNESS-ERROR" in err:
                    res.errors.append(err[-600:])
                    return
                elif rc == -9:
                    res.errors.append("killed (memory?) in %s case %d %s" % (j.mode, case, label)); 
                else:
                    res.crashes += 1
                    k = crash_key(rc, err)
                    res.viol("crash:%s:%s" % (label, k), case, "the library crashed: " + err[-1500:], j)
            ncrash += 1
            cur = case + 1
            if ncrash > 400: return
    def work(wid):
        while True:
            try: j, s, c = q.get_nowait()
            except queue.Empty: return
            if deadline and time.time() > deadline:
                with lock: res.stats["chunks-skipped-deadline"] = res.stats.get("chunks-skipped-deadline", 0) + 1
                continue
            one(j, s, c, wid)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(workers)]
    for t in ts: t.start()
    for t in ts: t.join()
    shutil.rmtree(tmp, ignore_errors=True)
    return res
