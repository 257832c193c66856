"""Configurations of the specification (see spec/Progs.tla) and what each check runs."""

BASE = ["Get", "DynRead", "DynMut", "Invalidate", "Purge", "ClearArtifacts", "ClearAll",
        "Collect", "Drop", "SetState", "RetErr", "Panic"]
LEAN = [o for o in BASE if o not in ("SetState", "DynMut", "DynRead")]
LIGHT = [o for o in BASE if o not in ("SetState", "DynMut", "Panic")]


def cfg(prog, n=3, m=1, ops=None, vals=(2,), uses="UsesAll", flavours="rab", feat=""):
    return dict(prog=prog, n=n, m=m, ops=ops or BASE, vals=list(vals), uses=uses,
                flavours=flavours, feat=feat)


# flavours: r(c) a(rc) b(oxed)
CONFIGS = {
    "chain":   cfg("ProgChain"),
    "free":    cfg("ProgFree"),
    "artown":  cfg("ProgArtOwn"),
    "dynown":  cfg("ProgDynOwn"),
    "mixown":  cfg("ProgMixOwn"),
    "fault":   cfg("ProgChain", ops=BASE + ["InitPanic"]),
    "dropin":  cfg("ProgFree", ops=LEAN + ["DropIn", "DynRead"]),
    "vals":    cfg("ProgChain", n=2, vals=(1, 2, 3), ops=BASE + ["InitPanic", "DropIn"]),
    "simple":  cfg("ProgSimple"),
    "two":     cfg("ProgChain", n=2, m=2, ops=BASE + ["Renew"]),
    "two1":    cfg("ProgChain", n=2, m=2, ops=BASE + ["Renew"], vals=(1,)),
    "one2":    cfg("ProgChain", n=1, m=2, ops=BASE + ["Renew", "InitPanic"], vals=(1, 2, 3)),
    "cross":   cfg("ProgChain", n=2, m=2, vals=(2,), ops=LEAN + ["DynMut", "Cross"]),
    "crossf":  cfg("ProgFree", n=2, m=2, vals=(1,), ops=LEAN + ["DynRead", "InitPanic", "Cross", "Renew"]),
    "crossw":  cfg("ProgFwd", n=3, m=2, vals=(1,), ops=["Get", "Invalidate", "ClearAll", "RetErr", "Cross"], flavours="ra"),
    "twofree": cfg("ProgFree", n=2, m=2, ops=BASE + ["Renew"], vals=(1,)),
    "mut":     cfg("ProgChain", ops=BASE + ["Mut"], vals=(1,), flavours="b", feat="mutbox"),
    "mut2":    cfg("ProgChain", n=2, ops=BASE + ["Mut", "InitPanic"], flavours="b", feat="mutbox"),
    "mutfree": cfg("ProgFree", ops=LEAN + ["Mut", "DynMut", "InitPanic"], vals=(1,), flavours="b", feat="mutbox"),
    "keep":    cfg("ProgChain", ops=[o for o in BASE if o != "SetState"] + ["Keep"], vals=(1,), flavours="ra"),
    # stand-ins
    "fwd":     cfg("ProgFwd", flavours="ra"),
    "clone":   cfg("ProgClone"),
    "fwd2":    cfg("ProgFwd2", flavours="ra"),
    "clo2":    cfg("ProgClo2"),
    "fwdclo":  cfg("ProgFwdClo", flavours="ra"),
    "clofwd":  cfg("ProgCloFwd", flavours="ra"),
    "feign":   cfg("ProgFeign", flavours="ra"),
    "feignr":  cfg("ProgFeignR", flavours="ra"),
    "redd":    cfg("ProgRedD", flavours="ra"),
    "redn":    cfg("ProgRedN", flavours="ra"),
    "redfwd":  cfg("ProgRedFwd", flavours="ra"),
    "redclo":  cfg("ProgRedClo", flavours="ra"),
    "fwdred":  cfg("ProgFwdRed", flavours="ra"),
    "clored":  cfg("ProgCloRed", flavours="ra"),
    "redred":  cfg("ProgRedRed", flavours="ra"),
    "func":    cfg("ProgFunc"),
    "funcf":   cfg("ProgFuncF", flavours="ra"),
    "func0":   cfg("ProgFunc0"),
    "func0f":  cfg("ProgFunc0F", flavours="ra"),
    "conf":    cfg("ProgConf"),
    "conff":   cfg("ProgConfF", flavours="ra"),
    "const":   cfg("ProgConst", flavours="ra"),
    "leaves":  cfg("ProgLeaves", flavours="ra"),
    "conf2":   cfg("ProgConF", flavours="ra"),
    "simw":    cfg("ProgSimW", flavours="ra"),
    "redw2":   cfg("ProgRedD", n=3, m=1, ops=BASE + ["InitPanic"], flavours="ra"),
    "wtwo":    cfg("ProgFwd2", m=2, ops=LEAN + ["Renew", "DynMut"], flavours="ra"),
    "rtwo":    cfg("ProgRedFwd", m=2, ops=LEAN + ["Renew"], flavours="ra"),
    # stand-ins with two caches
    "red2n":   cfg("ProgRed2N", n=2, m=2, ops=BASE + ["Renew"], flavours="ra"),
    "red2d":   cfg("ProgRed2D", n=2, m=2, ops=BASE + ["Renew"], flavours="ra"),
    "red2q":   cfg("ProgRed2N", n=2, m=2, ops=["Get", "Purge", "Invalidate", "RetErr", "Renew"], flavours="ra"),
    "red2r":   cfg("ProgRed2D", n=2, m=2, ops=["Get", "Purge", "ClearArtifacts", "RetErr", "ClearAll"], flavours="ra"),
    "conf2c":  cfg("ProgConf2", n=2, m=2, ops=BASE + ["Renew"], vals=(1, 2)),
    "func2c":  cfg("ProgFunc2", n=2, m=2, ops=BASE + ["Renew"], flavours="ra"),
    "leaf2c":  cfg("ProgLeaf2", n=2, m=2, ops=BASE + ["Renew"], vals=(1, 2), flavours="ra"),
    # larger
    "chain4":  cfg("ProgChain", n=4, vals=(1,)),
    "free4":   cfg("ProgFree", n=4, vals=(1,), ops=BASE),
    "art4":    cfg("ProgArtOwn", n=4, vals=(1,), ops=LEAN),
    "mix4":    cfg("ProgMixOwn", n=4, vals=(1,), ops=LEAN),
    "drop4":   cfg("ProgFree", n=4, vals=(1,), ops=[o for o in LEAN if o != "Panic"] + ["DropIn"]),
    "mut4":    cfg("ProgChain", n=4, vals=(1,), ops=LEAN + ["Mut"], flavours="b", feat="mutbox"),
    "keep4":   cfg("ProgChain", n=3, vals=(2,), ops=BASE + ["Keep"], flavours="ra"),
    "two3":    cfg("ProgChain", n=3, m=2, vals=(1,), ops=[o for o in LEAN if o not in ("Panic", "RetErr")] + ["Renew"]),
    "fault4":  cfg("ProgChain", n=4, vals=(1,), ops=LEAN + ["InitPanic"]),
}
# The same programs with a single cache: what fails there does not concern the independence of caches.
for _n, _c in list(CONFIGS.items()):
    if _c["m"] > 1:
        CONFIGS[_n + "-1"] = dict(_c, m=1, ops=[o for o in _c["ops"] if o != "Cross"])
# Small enough not to be worth an optimising JIT.
SMALL = {"mut2", "vals", "one2", "dropin", "fwd", "fwd2", "clone", "clo2", "fwdclo", "clofwd", "feign", "feignr", "redfwd", "redclo",
         "fwdred", "clored", "func", "funcf", "func0", "func0f", "conf", "conff", "const", "leaves", "conf2", "simw", "conf2c", "func2c", "leaf2c"}
CORE = ["chain", "free", "artown", "dynown", "mixown", "fault", "dropin", "simple"]
WRAP = ["fwd", "clone", "fwd2", "clo2", "fwdclo", "clofwd", "feign", "feignr", "redd", "redn",
        "redfwd", "redclo", "fwdred", "clored", "redred", "func", "funcf", "func0", "func0f", "conf", "conff",
        "const", "leaves", "conf2", "simw"]
RED = ["redd", "redn", "redfwd", "redclo", "fwdred", "clored", "redred", "funcf", "feignr"]

# Properties of the specification that are checked by TLC for each listed property.
MODEL = {
    "C01": ([], ["BuildOnce", "Shared"]),
    "C02": (["Coherent"], ["InvalidateAll"]),
    "C03": ([], ["InvalidateOnly"]),
    "C04": (["HasState"], ["DynLife"]),
    "C05": (["KnownCovers"], ["KnownLife"]),
    "C06": ([], ["GcStep"]),
    "C07": (["GcComplete", "GcComplete0"], ["GcStep"]),
    "C08": (["RunningHasNone", "NoRecursion"], ["FailureAtomic"]),
    "C09": ([], ["NewIsFresh"]),
    "C10": ([], ["Clearing"]),
    "C11": (["Coherent"], ["MutAccess"]),
    "C12": ([], ["DocEvents"]),
    "C13": (["TypeOK"], ["BuildOnce"]),
    "C15": (["Faithful"], ["FailureAtomic"]),
    "C16": ([], ["Isolation"]),
    "C17": (["TypeOK", "KeptLive"], ["NeverRevived"]),
    "C19": (["Faithful"], ["Redeeming"]),
    "C20": (["TypeOK"], ["Shared"]),
}
STD = [("A", "rc"), ("C", "arc"), ("E", "boxed")]
FULL = [("A", "rc"), ("A", "arc"), ("A", "boxed"), ("B", "rc"), ("C", "rc"), ("C", "arc"),
        ("C", "boxed"), ("D", "arc"), ("E", "boxed"), ("D", "rc")]
# A run: variant, flavour, doctor (0 recording, 1 none, 2 graph, 3 textual), accessor (3 mixed), form (9 mixed)


def runs(pairs, doc=0, acc=3, form=9):
    return [dict(v=v, f=f, doc=doc, acc=acc, form=form) for v, f in pairs]


def P(quick, thorough=None, pairs=STD, full=FULL, events=0, compare=None, qruns=None, truns=None, traces=6):
    return dict(quick=quick, thorough=thorough or quick, qruns=qruns or runs(pairs), truns=truns or runs(full),
                events=events, compare=compare, traces=traces)


BIG = ["chain4", "free4", "art4", "mix4", "drop4", "fault4"]
C13_RUNS = (runs([("A", "rc"), ("B", "rc"), ("C", "rc"), ("D", "rc")], doc=0)
            + runs([("F", "rc")], doc=1) + runs([("E", "rc")], doc=2) + runs([("C", "rc")], doc=3)
            + runs([("A", "boxed"), ("E", "boxed"), ("D", "boxed")], doc=0))
C13_MORE = C13_RUNS + runs([("A", "arc"), ("C", "arc"), ("D", "arc"), ("B", "boxed"), ("G", "boxed")]) \
    + runs([("D", "arc")], doc=3) + runs([("E", "arc")], doc=1) + runs([("C", "boxed")], doc=2)
C20_RUNS = ([dict(v="A", f=f, doc=1, acc=3, form=9) for f in ("rc", "arc", "boxed")]
            + [dict(v="C", f="rc", doc=1, acc=a, form=9) for a in (0, 1, 2)]
            + [dict(v="C", f=f, doc=1, acc=3, form=x) for x, f in ((0, "rc"), (1, "boxed"), (2, "arc"), (3, "rc"))])
C20_MORE = C20_RUNS + [dict(v="C", f=f, doc=1, acc=3, form=x) for x in (0, 1, 2, 3) for f in ("rc", "arc", "boxed")] \
    + [dict(v="C", f=f, doc=1, acc=a, form=9) for a in (0, 1, 2) for f in ("arc", "boxed")]

PLAN = {
    "C01": P(["chain", "free", "fault", "simple", "mut2"], CORE + BIG),
    "C02": P(["chain", "free", "fault", "artown"], CORE + BIG),
    "C03": P(["chain", "free", "fault", "dynown"], CORE + BIG),
    "C04": P(["chain", "fault", "dynown", "vals", "mut2"], CORE + ["vals"] + BIG),
    "C05": P(["chain", "free", "fault", "two1", "mut2"], CORE + ["two"] + BIG),
    "C06": P(["free", "artown", "dynown", "mixown"], CORE + BIG),
    "C07": P(["free", "artown", "dynown", "mixown"], CORE + BIG),
    "C08": P(["chain", "fault", "dropin", "redn", "mut2"], CORE + ["redn", "redd", "clone", "fwd"] + BIG),
    "C09": P(["free", "dropin", "twofree"], CORE + ["twofree"] + BIG),
    "C10": P(["chain", "free", "artown", "two1", "mut2"], CORE + ["two", "redd"] + BIG),
    "C11": P(["mut", "mutfree"], ["mut", "mutfree"], pairs=[("E", "boxed"), ("C", "boxed"), ("G", "boxed")],
             full=[("E", "boxed"), ("C", "boxed"), ("G", "boxed"), ("D", "boxed")]),
    "C12": P(["chain", "fault", "mut", "redn"], CORE + WRAP + ["two", "mut", "chain4", "fault4"], events=1,
             pairs=[("C", "rc"), ("E", "arc"), ("E", "boxed")],
             full=[("C", "rc"), ("C", "arc"), ("C", "boxed"), ("D", "rc"), ("D", "arc"), ("E", "boxed"), ("F", "arc")]),
    "C13": P(["chain", "free", "redn"], CORE + WRAP + ["two", "chain4"], qruns=C13_RUNS, truns=C13_MORE,
             compare="C13", traces=6),
    "C15": P(WRAP, WRAP + ["wtwo"], pairs=[("A", "rc"), ("C", "arc"), ("E", "boxed")]),
    "C16": P(["two1", "twofree", "one2", "crossf", "red2q", "red2r", "conf2c", "func2c", "leaf2c"],
             ["two", "twofree", "two3", "wtwo", "cross", "crossw", "red2n", "red2d"], compare="C16"),
    "C17": P(["chain", "keep", "fault", "dynown", "mut2"], CORE + ["keep", "keep4", "redd", "redn", "clone"] + BIG),
    "C19": P(RED, RED + ["redw2", "rtwo"], pairs=[("A", "rc"), ("C", "arc"), ("E", "rc")],
             full=[("A", "rc"), ("A", "arc"), ("B", "rc"), ("C", "rc"), ("C", "arc"), ("D", "arc"), ("E", "arc")]),
    "C20": P(["chain", "free", "clone"], CORE + ["clone", "clo2", "func", "conf", "two"], qruns=C20_RUNS,
             truns=C20_MORE, compare="C20", traces=6),
}
# Shapes of recorded programs: builders, caches, runs, decisions per run.
SMALL_TRACES = [dict(n=12, m=1, runs=14, len=150), dict(n=5, m=1, runs=50, len=70), dict(n=9, m=2, runs=14, len=150),
                dict(n=6, m=2, runs=40, len=90), dict(n=14, m=1, runs=30, len=60, churn=1), dict(n=16, m=1, runs=14, len=150), dict(n=4, m=3, runs=30, len=90),
                dict(n=20, m=1, runs=14, len=150)]
LARGE = [dict(n=100, m=1, runs=1, len=1000, calm=1, wide=70), dict(n=60, m=1, runs=2, len=500, wide=75),
         dict(n=50, m=2, runs=1, len=700, calm=1), dict(n=90, m=1, runs=1, len=1500, calm=1, wide=75, grow=1),
         dict(n=280, m=1, runs=1, len=1400, calm=1, wide=85, grow=1, deep=1, wrap=0)]
TITLE_TECH = "TLA+ specification, TLC model checking, state-graph replay and trace validation"
