#!/usr/bin/env python3
"""Builds /repo's current working tree for the checks, outside /repo.

build(config, targets) compiles the C/C++ sources of the requested libraries with the
flags of `config` and links shared objects, plus the harness programs of /verif/harness.
Objects are cached by a hash of (flags, the source, every header of the tree), so a second
call is cheap, but nothing depends on the cache being there.
"""
import os, re, sys, hashlib, subprocess, concurrent.futures, glob, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))

COMMON = ["-U__STRICT_ANSI__", "-fPIC", "-w", "-pthread"]
CONFIGS = {
    # what users get: the project's optimised flags
    "rel": dict(cc="gcc", cxx="g++", flags=["-DNDEBUG", "-O3", "-g1"], link=[]),
    # address + undefined-behaviour + leak sanitizers, internal assertions on
    "asan": dict(cc="gcc", cxx="g++",
                 flags=["-UNDEBUG", "-O1", "-g1", "-fno-omit-frame-pointer",
                        "-fsanitize=address,undefined", "-fno-sanitize=alignment",
                        "-fsanitize-address-use-after-scope"],
                 link=["-fsanitize=address,undefined"]),
    "tsan": dict(cc="gcc", cxx="g++",
                 flags=["-DNDEBUG", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
                 link=["-fsanitize=thread"]),
    # uninitialised reads, library code only (third-party libraries are wrapped)
    "dbg": dict(cc="gcc", cxx="g++", flags=["-UNDEBUG", "-O0", "-g3"], link=[]),
}
EXTRA_FLAGS = {}   # config -> extra flags (hooks)
INCDIRS = ["num", "itv", "apron", "box", "octagons", "newpolka", "taylor1plus", "ppl",
           "products", "avoct", "fppol", "apronxx"]

NUM = dict(D="NUM_DOUBLE", Dl="NUM_LONGDOUBLE", MPQ="NUM_MPQ", MPFR="NUM_MPFR",
           Rll="NUM_LONGLONGRAT", Rl="NUM_LONGRAT", Il="NUM_LONGINT", Ill="NUM_LONGLONGINT",
           MPZ="NUM_MPZ")

UNITS = dict(nums=["itvshim.c"])   # C files of a harness program, compiled once per number type
REPO_UNITS = dict(cxx=[("apronxx", "apronxx.cc")])   # sources of /repo linked into a harness program

class BuildError(Exception):
    pass

def makevar(path, var):
    """value of a Makefile variable (continuations joined), as a list of words"""
    txt = open(path).read().replace("\\\n", " ")
    m = re.search(r"^%s\s*:?=\s*(.*)$" % re.escape(var), txt, re.M)
    if not m:
        return []
    return [w for w in m.group(1).split() if w]

def sources(lib):
    """(dir, [files], define) of a library name such as octD"""
    m = re.match(r"(box|oct|polka|t1p|avo|fpp)(D|Dl|MPQ|MPFR|Rll|Rl|Il|Ill|MPZ)$", lib)
    R = REPO
    if m:
        base, num = m.groups()
        d, var, suf = {"box": ("box", "CCMODULES", ".c"), "oct": ("octagons", "CCSOURCES", ""),
                       "polka": ("newpolka", "CCMODULES", ".c"),
                       "t1p": ("taylor1plus", "CCMODULES", ".c"),
                       "avo": ("avoct", "CCSOURCES", ""), "fpp": ("fppol", "CCSOURCES", "")}[base]
        fs = [w + suf for w in makevar(f"{R}/{d}/Makefile", var)]
        if not fs:
            raise BuildError(f"no sources found for {lib}")
        return d, fs, ["-D" + NUM[num]]
    if lib == "ppl":
        return "ppl", makevar(f"{R}/ppl/Makefile", "CXXSOURCES"), []
    if lib == "pkgrid":
        return "products", [w + ".c" for w in makevar(f"{R}/products/Makefile", "CCMODULES")], ["-DNUM_MPQ"]
    raise BuildError("unknown library " + lib)

def apron_units():
    R = REPO
    out = []
    for f in makevar(f"{R}/apron/Makefile", "C_FILES"):
        out.append(("apron", f, [], ""))
    for n in ("MPQ", "D", "Dl", "MPFR"):
        for f in makevar(f"{R}/apron/Makefile", "C_FILES_AUX"):
            out.append(("apron", f, ["-D" + NUM[n]], n))
    for f in ("itv.c", "itv_linexpr.c", "itv_linearize.c"):
        for n in NUM:
            out.append(("itv", f, ["-D" + NUM[n]], n))
    return out

_hdr = None
def headers_hash():
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        for d in INCDIRS + ["japron/apron", "japron/gmp"]:
            for f in sorted(glob.glob(f"{REPO}/{d}/*.h") + glob.glob(f"{REPO}/{d}/*.hh")):
                if os.path.basename(f) == "ap_version.h":
                    continue
                h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
        h.update(open(f"{REPO}/version.mk", "rb").read())
        _hdr = h.hexdigest()
    return _hdr

def gen_version():
    d = os.path.join(CACHE, "gen")
    os.makedirs(d, exist_ok=True)
    v = dict(re.findall(r"^(VERSION_\w+)\s*=\s*(\S+)", open(f"{REPO}/version.mk").read(), re.M))
    s = v.get("VERSION_STR", "0.0.0")
    s = re.sub(r"\$\((\w+)\)", lambda m: v.get(m.group(1), ""), s)
    txt = ('#ifndef AP_VERSION\n#define AP_VERSION_MAJOR %s\n#define AP_VERSION_MINOR %s\n'
           '#define AP_VERSION_MICRO %s\n#define AP_VERSION "%s"\n#endif\n' %
           (v.get("VERSION_MAJOR", "0"), v.get("VERSION_MINOR", "0"), v.get("VERSION_MICRO", "0"), s))
    p = os.path.join(d, "ap_version.h")
    if not os.path.exists(p) or open(p).read() != txt:
        open(p + ".tmp%d" % os.getpid(), "w").write(txt)
        os.replace(p + ".tmp%d" % os.getpid(), p)
    return d

def run(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("%s failed:\n%s\n%s" % (what, " ".join(cmd), p.stdout[-4000:]))

def incs():
    return ["-I" + gen_version()] + [f"-I{REPO}/{d}" for d in INCDIRS]

def compile_one(config, d, f, defs, srcroot=None, extra_hash="", incflags=None):
    c = CONFIGS[config]
    src = f if srcroot is None and os.path.isabs(f) else os.path.join(srcroot or REPO, d, f)
    cxx = src.endswith((".cc", ".cpp"))
    flags = COMMON + c["flags"] + EXTRA_FLAGS.get(config, []) + defs + (["-std=c++17"] if cxx else ["-std=c99"])
    inc = incs() + (incflags or [])
    h = hashlib.sha256()
    h.update(("\0".join([src, config, c["cc"]] + flags + inc) + headers_hash() + extra_hash).encode())
    h.update(open(src, "rb").read())
    obj = os.path.join(CACHE, "obj", h.hexdigest()[:32] + ".o")
    if not os.path.exists(obj):
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        tmp = obj + ".%d.tmp" % os.getpid()
        run([c["cxx"] if cxx else c["cc"]] + flags + inc + ["-c", src, "-o", tmp], "compiling " + f)
        os.replace(tmp, obj)
    return obj

def link(config, objs, out, libs, shared=True, cxx=False):
    c = CONFIGS[config]
    h = hashlib.sha256(("\0".join(objs + libs + c["link"]) + str(shared)).encode()).hexdigest()[:24]
    stamp = out + ".stamp"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h:
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d.tmp" % os.getpid()
    run([c["cxx"] if cxx else c["cc"]] + (["-shared"] if shared else ["-rdynamic"]) + c["link"] + ["-pthread", "-o", tmp]
        + objs + libs, "linking " + out)
    os.replace(tmp, out)
    open(stamp, "w").write(h)
    return out

def outdir(config):
    return os.path.join(CACHE, config)

def build(config, libs, programs=(), jobs=None):
    """libs: domain libraries; programs: names of /verif/harness/<name>.cpp (or dict with sources).
    Returns the output directory: libapron.so, lib<lib>.so, <program>."""
    jobs = jobs or min(16, (os.cpu_count() or 4) * 2)
    od = outdir(config)
    os.makedirs(od, exist_ok=True)
    gen_version()
    headers_hash()
    hh = hashlib.sha256()
    for f in sorted(glob.glob(f"{VERIF}/harness/*.h")):
        hh.update(open(f, "rb").read())
    hh = hh.hexdigest()
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        progf = {}
        for p in programs:
            fs = [(p + ".cpp", [])] + [(f, ["-D" + NUM[n]]) for f in UNITS.get(p, []) for n in NUM]
            progf[p] = [ex.submit(compile_one, config, "harness", f, ["-DHARNESS"] + d, VERIF, hh) for f, d in fs] + [ex.submit(compile_one, config, d, f, []) for d, f in REPO_UNITS.get(p, [])]
        af = [ex.submit(compile_one, config, d, f, defs) for d, f, defs, _ in apron_units()]
        lf = {}
        for l in libs:
            d, fs, defs = sources(l)
            lf[l] = [ex.submit(compile_one, config, d, f, defs) for f in fs]
        ap = [x.result() for x in af]
        lf = {l: [x.result() for x in v] for l, v in lf.items()}
        progf = {l: [x.result() for x in v] for l, v in progf.items()}
        mp = ["-lmpfr", "-lgmp", "-lm"]
        link(config, ap, f"{od}/libapron.so", mp)
        L = [f"-L{od}", "-lapron", f"-Wl,-rpath,{od}"]
        todo = []
        order = sorted(lf, key=lambda l: 1 if l.startswith("t1p") else 2 if l == "pkgrid" else 0)
        for l in order:
            if l.startswith("t1p"):
                b = "box" + l[3:]
                if b not in lf:
                    d, fs, defs = sources(b)
                    lf[b] = [compile_one(config, d, f, defs) for f in fs]
                if "polkaMPQ" not in lf:
                    d, fs, defs = sources("polkaMPQ")
                    lf["polkaMPQ"] = [compile_one(config, d, f, defs) for f in fs]
                objs, extra = lf[l] + lf[b] + lf["polkaMPQ"], []
            elif l == "pkgrid":
                objs = list(lf[l])
                for b in ("polkaMPQ", "ppl"):
                    if b not in lf:
                        d, fs, defs = sources(b)
                        lf[b] = [compile_one(config, d, f, defs) for f in fs]
                    objs += lf[b]
                extra = ["-lppl_c", "-lppl", "-lgmpxx"]
            elif l == "ppl":
                objs, extra = lf[l], ["-lppl", "-lgmpxx"]
            elif l.startswith("fpp"):
                objs, extra = lf[l], ["-lglpk"]
            else:
                objs, extra = lf[l], []
            cxx = l in ("ppl", "pkgrid")
            todo.append(ex.submit(link, config, objs, f"{od}/dom_{l}.so", L + extra + mp, True, cxx))
        for p, objs in progf.items():
            todo.append(ex.submit(link, config, objs, f"{od}/{p}",
                                  L + ["-lppl", "-lgmpxx", "-ldl"] + mp, False, True))
        for t in todo:
            t.result()
    return od

if __name__ == "__main__":
    cfg = sys.argv[1]
    args = sys.argv[2:]
    progs = [a[1:] for a in args if a.startswith("@")]
    ls = [a for a in args if not a.startswith("@")]
    try:
        print(build(cfg, ls, progs))
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
