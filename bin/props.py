"""Which workloads decide which property."""

LIB = {d: d for d in "boxD boxMPQ boxMPFR octD octMPQ octMPFR octMPZ octRll octIll ppl".split()}
LIB.update(polka="polkaMPQ", polkas="polkaMPQ", polkaeq="polkaMPQ", polkaRll="polkaRll", polkasRll="polkaRll", polkaeqRll="polkaRll",
           ppls="ppl", pplgrid="ppl", pkgrid="pkgrid", pkgrids="pkgrid", t1pD="t1pD", t1pMPQ="t1pMPQ", t1pMPFR="t1pMPFR")
WEAK = "boxD,boxMPQ,boxMPFR,octD,octMPQ,octMPFR,octMPZ"
STRONG = "polka,polkas,polkaeq,ppl,ppls,pplgrid,pkgrid,pkgrids"
OCTS = "octD,octMPQ,octMPFR,octMPZ"
THR = "boxD,boxMPQ,boxMPFR,octD,octMPQ,octMPFR,octMPZ,polka,polkas,polkaeq"
LIND = "boxMPQ,boxD,polka,octD"
ALL = WEAK + "," + STRONG
ASSUME = [
    "GMP, MPFR and PPL are correct; PPL's C++ interface is the reference for exact polyhedra",
    "exploration: the verdict covers the executions made (pseudo-random from VERIF_SEED), not all inputs",
    "calls that exceed their CPU limit are inconclusive and counted, not judged",
]

def J(cfg, prog, mode, doms, quick, **k):
    return dict(cfg=cfg, prog=prog, mode=mode, doms=doms, quick=quick, **k)

DOMRULE = ("one case = a random value of a random domain built by a random sequence of library calls around known rational points, "
           "then one call of the operation; non-trivial when the result is neither bottom nor top; distinct by the text of the inputs")
def dom(mode, weak=160000, strong=60000, asan=12000, prog="dom", **k):
    return [J("rel", prog, mode, WEAK, weak), J("rel", prog, mode, STRONG, strong), J("asan", prog, mode, ALL, asan, chunk=50, **k)]
def dom2(mode, **k): return dom(mode, prog="dom2", **k)

PROPS = {
    "P01": dict(jobs=dom("assign"), rule=DOMRULE),
    "P02": dict(jobs=dom("substitute"), rule=DOMRULE),
    "P03": dict(jobs=dom("meet"), rule=DOMRULE),
    "P04": dict(jobs=dom("join"), rule=DOMRULE),
    "P05": dict(jobs=dom("dims") + [J("asan", "known", "k_forget", "polka,polkas", 2, fixed=True, chunk=1)], rule=DOMRULE),
    "P06": dict(jobs=dom2("pred") + [J("asan", "known", "k_strict", "polka,polkaeq", 3, fixed=True, chunk=1)], rule=DOMRULE),
    "P07": dict(jobs=dom2("extract"), rule=DOMRULE),
    "P08": dict(jobs=[J("rel","dom","flags","boxMPQ,octMPQ",250000), J("rel","dom","flags","polka,polkas,polkaeq,ppl,ppls",150000), J("asan","dom","flags","boxMPQ,octMPQ,polka,polkas,polkaeq,ppl,ppls",5000,chunk=50)], rule=DOMRULE),
    "P09": dict(jobs=dom2("widen", weak=120000, strong=45000, asan=10000) + [J("asan", "known", "k_strict_w", "polka", 1, fixed=True, chunk=1)], rule=DOMRULE),
    "P10": dict(jobs=dom("pure", weak=60000, strong=40000, asan=6000, prog="dom3") + dom("laws", weak=60000, strong=40000, asan=6000, prog="dom3"), rule=DOMRULE),
    "P11": dict(jobs=[J("asan", prog, m, w, n, leaks=True, chunk=50) for w, n in ((WEAK, 8000), (STRONG, 4000)) for prog, m in (("dom","assign"),("dom","substitute"),("dom","meet"),("dom","join"),("dom","dims"),("dom2","pred"),("dom2","extract"),("dom2","widen"),("dom3","pure"),("dom3","errors"),("level1","level1"))]
                + [J("asan", "dom", m, "octD,boxMPQ", 15000, leaks=True, chunk=50) for m in ("assign", "substitute", "meet", "dims")]
                + [J("asan", "data", "env", "", 20000, leaks=True), J("asan", "lin", "eval", LIND, 2000, leaks=True), J("asan", "lin", "cons", LIND, 2000, leaks=True)]
                + [J("asan", "expr", m, "", 6000, leaks=True) for m in ("linexpr", "linexpr1", "texpr", "texpr1", "scalar", "coeff")]
                + [J("asan", "nums", m, "", 8000, chunk=2000, leaks=True) for m in ("nitv", "nbound", "nconv")]
                + [J("asan", "known", "k_forget", "polka,polkas", 2, fixed=True, chunk=1)],
                only=r"(crash:|ubsan:|leak:|hang:|asan:)", rule="one case = one random sequence of library calls of a workload of the other properties, run with AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer and the library's own assertions; distinct by the text of the inputs"),
    "P12": dict(jobs=[J("rel", "data", "env", "", 1500000), J("asan", "data", "env", "", 100000, leaks=True)],
                rule="one case = a pool of environments over few names built by a random sequence of environment calls, each checked against a model (ordered name lists); non-trivial when an environment has variables of both types; distinct by the text of the sequence"),
    "P13": dict(jobs=dom("level1", weak=120000, strong=100000, asan=12000, prog="level1", leaks=True), rule="one case = a random value over a random environment and one call of an operation over variables, compared with the same operation on dimensions and with known states; distinct by the text of the inputs"),
    "P14": dict(jobs=[J("rel", "expr", m, "", 400000) for m in ("linexpr", "linexpr1")] + [J("asan", "expr", m, "", 40000, leaks=True) for m in ("linexpr", "linexpr1")],
                rule="one case = a random linear expression, constraint, generator or array of them (dense or sparse, with unused terms, over dimensions or an environment) and one operation, compared with the same operation on a map from dimensions to coefficients; non-trivial with at least two terms; distinct by the text of the inputs"),
    "P15": dict(jobs=[J("rel", "expr", m, "", 400000) for m in ("texpr", "texpr1")] + [J("asan", "expr", m, "", 30000, leaks=True) for m in ("texpr", "texpr1")],
                rule="one case = a random tree expression or tree constraint (over dimensions or an environment) and one operation, compared with the same operation on a copy of the tree; non-trivial when the tree has an operator; distinct by the text of the inputs"),
    "P16": dict(jobs=[J("rel", "lin", m, LIND, 250000) for m in ("eval", "cons")] + [J("asan", "lin", m, LIND, 15000, leaks=True) for m in ("eval", "cons")],
                rule="one case = a random value or box around known rational points and a random expression or constraint, linearised or evaluated; non-trivial when the expression is not already in the requested form; distinct by the text of the inputs"),
    "P17": dict(jobs=[J("rel", "nums", m, "", 1200000, chunk=4000) for m in ("nitv", "nbound", "nconv")] + [J("asan", "nums", m, "", 80000, chunk=2000, leaks=True) for m in ("nitv", "nbound", "nconv")],
                rule="one case = one operation of the number, bound or interval layer of one of nine number types on random operands (infinities, zeros, aliased result, exact and inexact values), compared with exact rationals at sampled points and with the best bounds; distinct by the text of the inputs"),
    "P18": dict(jobs=[J("rel", "expr", m, "", 400000) for m in ("scalar", "coeff")] + [J("asan", "expr", m, "", 40000, leaks=True) for m in ("scalar", "coeff")],
                rule="one case = two random scalars, intervals or coefficients (all number types, infinities, values around the limits of doubles and machine integers) and a sequence of assignments or one query, compared with exact rationals; distinct by the text of the inputs"),
    "P19": dict(jobs=dom("errors", weak=100000, strong=60000, asan=10000, prog="dom3"), rule="one case = a random value and one call with an invalid argument (or, as control, a valid one); distinct by kind of misuse and text of the inputs"),
    "P20": dict(jobs=[J("rel", "expr", "print", "", 400000), J("asan", "expr", "print", "", 30000, leaks=True)] + dom("dprint", weak=150000, strong=100000, asan=12000, prog="io", leaks=True)
                + [J("rel", "io", "serial", OCTS, 60000), J("asan", "io", "serial", OCTS, 5000, leaks=True), J("asan", "io", "serial", "boxD,boxMPQ,boxMPFR," + STRONG, 4000, leaks=True)],
                rule="one case = a random value, expression, constraint, generator, environment or dimension change, printed (with or without names) or serialized, and the text or bytes read back by an independent reader; distinct by the text of the inputs"),
    "P24": dict(jobs=[J("tsan", "threads", "threads", THR, 5000, chunk=20, limit_ms=20000), J("rel", "threads", "threads", THR, 24000, chunk=100, limit_ms=20000), J("asan", "threads", "threads", THR, 1000, chunk=25, limit_ms=20000)],
                rule="one case = 2 to 6 threads, each running a random script of library calls on its own managers, values, environments and expressions, then the same scripts one at a time; distinct by the pair of operations seen running at the same time",
                assumptions=ASSUME[:2] + ["GMP and MPFR are built with thread-local state (they are here); their own accesses are not instrumented", "PPL is not thread-safe here: ppl and the reduced product are not run in threads"]),
}
TECH = "runtime monitoring: randomized workloads judged by an exact rational oracle (witness states and a PPL reference), plus ASan/UBSan builds"
NOTE = "Exploration: holds on all executions made. Oracles compute with GMP rationals and, for regions, PPL; nothing is read back from the code under test but its results."
NOT_APPLICABLE = {}
