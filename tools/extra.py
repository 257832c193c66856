"""Checks with specifications of their own: Can.tla, Handles.tla and DoctorText.tla."""
import json, os
from concurrent.futures import ThreadPoolExecutor
import lib
from lib import ToolError


def consts(c):
    return "SPECIFICATION Spec\nCONSTANTS\n" + "".join(" %s = %s\n" % x for x in c.items())


def forms(fs):
    return "{%s}" % ",".join('"%s"' % f for f in fs)


def run_tlc(work, module, name, text, workers=2, timeout=1500, extra=(), small=True):
    f = os.path.join(work, name + ".cfg")
    open(f, "w").write(text)
    r = lib.tlc(f, module, work, workers=workers, timeout=timeout, out=os.path.join(work, name + ".out"), extra=extra,
                heap="4g", small=small)
    if r["rc"] != 0:
        raise ToolError("TLC failed on %s: rc=%s %s" % (name, r["rc"], r["tail"][-600:]))
    return r


def graph(R, work, module, name, c, inv, props, small=True):
    """Checks the specification and writes its state graph."""
    e = run_tlc(work, module, name + ".emit", consts(c) + "VIEW View\nCHECK_DEADLOCK FALSE\nINVARIANT EmitState\n"
                "ACTION_CONSTRAINT EmitEdge\n", small=small)
    m = run_tlc(work, module, name + ".prop", consts(c) + "VIEW ViewSrc\nCHECK_DEADLOCK FALSE\nINVARIANTS %s\n"
                "PROPERTIES %s\n" % (inv, props), small=small)
    with R.lock:
        R.states += e["distinct"]
        R.transitions += e["generated"]
        R.model_states += m["distinct"]
        R.model_transitions += m["generated"]
    return e["out"]


def small(R, work, binary, desc, g, sut, nh, nv, nt, secs, maxsecs, seed, log):
    """Replays a graph; returns the report."""
    out = os.path.join(work, desc.replace("/", "_").replace(" ", "_") + ".json")
    args = [binary, "small", "graph=" + g, "sut=" + sut, "nh=%d" % nh, "nv=%d" % nv, "nt=%d" % nt]
    rc, so, se = lib.sh(args + ["secs=%s" % secs, "maxsecs=%s" % maxsecs, "threads=4", "seed=%d" % seed, "out=" + out],
                        timeout=maxsecs + 60)
    if rc == 3:
        raise ToolError("%s: %s" % (desc, se[-800:]))
    if rc == 101 and not os.path.exists(out):
        raise ToolError("%s: %s" % (desc, se[-800:]))
    if rc != 0:
        # The library crashed or hung.
        for k in range(6):
            j = os.path.join(work, "journal.%s.%d" % (sut, k))
            rc2, so2, se2 = lib.sh(args + ["secs=3", "maxsecs=30", "threads=1", "seed=%d" % (seed * 77 + k), "journal=" + j,
                                           "out=" + os.path.join(work, "crash.json")], timeout=60)
            if rc2 not in (0, 3):
                break
        ls = open(j, errors="replace").read().splitlines() if os.path.exists(j) else [""]
        what = "hang" if rc2 == -99 else "crash (exit code %s)" % rc2
        op = ls[-1].split("[")[0] if rc2 not in (0, 3) else "?"
        rep = dict(states=0, edges=0, covered=0, steps=0, paths=0, samples=[], signatures={"%s/%s" % (op, what): 1},
                   divs=[dict(what=what, op=op, args=[], src=ls[-1], exp="", act=se[-300:],
                              labels=[l.split(" | ")[0] for l in ls])])
    else:
        rep = json.load(open(out))
    with R.lock:
        R.traces += rep["paths"]
        R.steps += rep["steps"]
        R.runs.append(dict(run=desc, states=rep["states"], edges=rep["edges"], edges_taken=rep["covered"], steps=rep["steps"],
                           behaviours=rep["paths"], divergences=sum(rep["signatures"].values())))
        if rep["covered"] < rep["edges"]:
            R.exhaustive = False
        R.samples += ["%s: %s" % (desc, x) for x in rep["samples"][:1]]
    log("%-46s edges %d/%d, %d steps, %d behaviours, divergences %s"
        % (desc, rep["covered"], rep["edges"], rep["steps"], rep["paths"], rep["signatures"] or "none"))
    for d in rep["divs"]:
        d["signature"] = "%s/%s/%s" % (sut, d["op"], d["what"])
        d["cmd"] = args
    return rep


def parallel(jobs, n):
    with ThreadPoolExecutor(n) as ex:
        return [f.result() for f in [ex.submit(*j) for j in jobs]]


# ------------------------------------------------------------------ C18

CAN_INV, CAN_PROPS = "TypeOK NoLeak BinType WeakExact", "Identity Release UpgradeExact"


def cans(R, prop, tier, seed, work, log):
    quick = tier == "quick"
    variants = ["A", "C", "D"] if quick else list("ABCDE")
    bins = lib.build_all(variants)
    sizes = [(3, 2)] if quick else [(3, 2), (4, 2), (4, 3)]

    def one(kind, nh, nv, unsz, only=False):
        nt = 1 if only else 4 if kind == "ba" else 3
        name = "can-%s-%d-%d%s%s" % (kind, nh, nv, "" if unsz else "-sized", "-many" if only else "")
        g = graph(R, work, "Can.tla", name, dict(NH=nh, NV=nv, NT=nt, Kind='"%s"' % kind, Unsz=str(unsz).upper(),
                                                 Only=str(only).upper()), CAN_INV, CAN_PROPS, small=nh < 4)
        suts = ["ba", "baarc"] if kind == "ba" else [kind]
        for v in variants:
            if not bins.get(v) or ((v in "CD") != unsz) or (kind == "ba" and v not in "CD"):
                continue
            for s in suts:
                if lib.late("%s %s/%s" % (name, v, s), 680):
                    R.exhaustive = False
                    continue
                rep = small(R, work, bins[v], "%s %s/%s" % (name, v, s), g, s, nh, nv, nt, 1.0 if quick else 20.0,
                            20 if quick else 400, seed, log)
                for d in rep["divs"]:
                    R.add("%s %s/%s" % (name, v, s), d, {"C18"})
        os.remove(g)
    parallel([(one, k, nh, nv, u) for nh, nv in sizes for u in (True, False) for k in ("rc", "arc", "box", "ba")
              if u or k != "ba"]
             + [(one, k, 6 if quick else 8, 1, True, True) for k in ("rc", "arc")], 4)


# ------------------------------------------------------------------ C09, C20

FORMS = ["bp", "dyn", "bpu", "bpud"]


def handles(R, prop, tier, seed, work, log):
    quick = tier == "quick"
    # variant, system, forms
    if quick:
        runs = [("C", "h.rc", ["bp", "dyn", "bpu", "bpud"]), ("C", "h.arc", ["bp", "bpu", "bpud"]), ("C", "h.boxed", ["bp", "dyn", "bpu", "bpud"]),
                ("A", "h.boxed", ["bp", "dyn"]), ("A", "h.rc", ["bp", "dyn"]), ("A", "h.arc", ["bp"]),
                # the same with builders that are as small as possible
                ("C", "h.rc.s", FORMS), ("A", "h.boxed.s", ["bp", "dyn"]), ("A", "h.arc.s", ["bp"])]
    else:
        runs = [(v, s, ["bp", "bpu", "bpud"] if s == "h.arc" else FORMS) for v in "CD" for s in ("h.rc", "h.arc", "h.boxed")] \
            + [(v, s, ["bp"] if s == "h.arc" else ["bp", "dyn"]) for v in "ABE" for s in ("h.rc", "h.arc", "h.boxed")]
        runs += [(v, s + ".s", f) for v, s, f in runs]
    bins = lib.build_all(sorted({v for v, s, f in runs}))
    dims = [(3, 2, 1)] if quick else [(3, 2, 1), (3, 2, 2), (3, 3, 1)]
    inv, props = "Unborn", "NewIsFresh SameBuilder OneEntry"
    reports = []

    def one(fs, nh, nb, mz, rs, base):
        name = "handles-%s-%d-%d-%d%s" % ("+".join(fs), nh, nb, mz, "-base" if base else "")
        g = graph(R, work, "Handles.tla", name, dict(NH=nh, NB=nb, MaxZ=mz, Forms=forms(fs)), inv, props, small=len(fs) < 3)
        for v, s in rs:
            if not bins.get(v):
                continue
            if lib.late("%s %s/%s" % (name, v, s), 680):
                R.exhaustive = False
                continue
            rep = small(R, work, bins[v], "%s %s/%s" % (name, v, s), g, s, nh, nb, 0, 1.0 if quick else 10.0,
                        30 if quick else 400, seed, log)
            reports.append((base, v, s, name, rep))
        os.remove(g)
    jobs = []
    for dim in dims:
        for fs in ([FORMS, ["bp", "bpu", "bpud"], ["bp", "dyn"], ["bp"]]):
            if dim == (3, 3, 1) and fs == FORMS:
                fs = ["bp", "dyn", "bpud"]
                rs = [(v, s) for v, s, f in runs if f == FORMS]
            else:
                rs = [(v, s) for v, s, f in runs if f == fs]
            if rs:
                jobs.append((one, fs, *dim, rs, False))
    # Many handles of one builder.
    jobs.append((one, ["bp", "dyn"], 6, 1, 1, [(v, s) for v, s, f in runs if f == ["bp", "dyn"]], False))
    jobs.append((one, ["bp"], 6, 1, 1, [(v, s) for v, s, f in runs if f == ["bp"]], False))
    every = sorted({(v, s) for v, s, f in runs})
    if prop == "C09":
        # What fails with a single handle and builder does not concern identity.
        jobs.append((one, ["bp"], 1, 1, 1, every, True))
    else:
        # What fails with typed handles alone does not concern the form of handles.
        jobs.append((one, ["bp"], 3, 2, 1, every, True))
    parallel(jobs, 4)
    plain = {}
    for base, v, s, name, rep in reports:
        if base:
            plain[(v, s)] = {k for k in rep["signatures"] if prop == "C20" or not k.startswith("Create/")}
            if prop == "C09":
                for d in rep["divs"]:
                    if d["op"] == "Create":
                        R.add(name, d, {"C09"})
    for base, v, s, name, rep in reports:
        if base:
            continue
        for d in rep["divs"]:
            k = "%s/%s" % (d["op"], d["what"])
            if k not in plain.get((v, s), set()):
                R.add("%s %s/%s" % (name, v, s), d, {"C09", "C20"})
            else:
                R.add("%s %s/%s" % (name, v, s), d, {"other"})
    if prop == "C20":
        # The same graph, the same build, several flavours.
        for v in sorted({v for v, s in every}):
            for base, v1, s1, n1, rep in reports:
                if not base or v1 != v:
                    continue
                for _, v2, s2, n2, rep2 in [x for x in reports if x[0] and x[1] == v and x[2] != s1 and x[2].endswith(".s") == s1.endswith(".s")]:
                    for d in rep["divs"]:
                        k = "%s/%s" % (d["op"], d["what"])
                        if rep["signatures"].get(k, 0) >= 8 and k not in rep2["signatures"] and rep2["steps"]:
                            R.add("%s %s/%s but not %s" % (n1, v, s1, s2), d, {"C20"})


# ------------------------------------------------------------------ C14

def doctors(R, prop, tier, seed, work, log):
    quick = tier == "quick"
    variants = ["C", "E", "F"] if quick else ["C", "D", "E", "F"]
    jobs = [("short", dict(NB=2, NA=2, Len0=4 if quick else 5), "INVARIANTS Complete Unambiguous GraphExact Emit\nPROPERTIES Generations\n", ()),
            ("three", dict(NB=3, NA=1, Len0=3 if quick else 4), "INVARIANTS Complete Unambiguous GraphExact Emit\nPROPERTIES Generations\n", ())]
    num = 60 if quick else 600
    for n in (12, 60):
        jobs.append(("long%d" % n, dict(NB=3, NA=3, Len0=n), "INVARIANTS Complete Unambiguous GraphExact EmitLong\n",
                     ("-simulate", "num=%d" % num, "-depth", str(n + 1), "-seed", str(seed * 31 + n))))
    jobs.append(("long300", dict(NB=4, NA=4, Len0=300), "INVARIANTS Complete EmitLong\n",
                 ("-simulate", "num=%d" % (8 if quick else 60), "-depth", "301", "-seed", str(seed * 31))))
    for mode in ("builds", "gens"):
        jobs.append(("long-" + mode, dict(NB=3, NA=3, Len0=1300, Mode='"%s"' % mode), "INVARIANTS EmitLong\n",
                     ("-simulate", "num=%d" % (2 if quick else 12), "-depth", "1301", "-seed", str(seed * 31 + len(mode)))))
    for j in jobs:
        j[1].setdefault("Mode", '"any"')
    outs = {}

    def spec(name, c, lines, extra):
        r = run_tlc(work, "DoctorText.tla", name, consts(c) + "CHECK_DEADLOCK FALSE\n" + lines, workers=1, extra=extra)
        with R.lock:
            R.states += r["distinct"]
            R.transitions += r["generated"]
            R.model_states += r["distinct"]
            R.model_transitions += r["generated"]
        outs[name] = r["out"]
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(lib.build_all, variants)
        parallel([(spec, *j) for j in jobs], 4)
        bins = fut.result()

    def one(v, name):
        desc = "doctors %s %s" % (name, v)
        if lib.late(desc, 680):
            R.exhaustive = False
            return
        out = os.path.join(work, "docs.%s.%s.json" % (v, name))
        args = [bins[v], "docs", "in=" + outs[name], "out=" + out, "threads=4", "secs=%s" % (4 if quick else 60),
                "seed=%d" % (seed * 13 + ord(v))]
        rc, so, se = lib.sh(args, timeout=300)
        if rc == 3 or (rc != 0 and "harness error" in se):
            raise ToolError("%s: %s" % (desc, se[-800:]))
        if rc != 0:
            rep = dict(histories=0, runs=0, events=0, signatures={"crash": 1}, samples=[],
                       divs=[dict(signature="crash", text="exit code %s: %s" % (rc, se[-300:]))])
        else:
            rep = json.load(open(out))
        with R.lock:
            R.traces += rep["runs"]
            R.steps += rep["events"]
            R.runs.append(dict(run=desc, histories=rep["histories"], runs=rep["runs"], events=rep["events"],
                               divergences=sum(rep["signatures"].values())))
            R.samples += ["%s: %s" % (desc, x) for x in rep["samples"][:1]]
        log("%-46s %d histories, %d runs, %d events, divergences %s"
            % (desc, rep["histories"], rep["runs"], rep["events"], rep["signatures"] or "none"))
        for d in rep["divs"]:
            d["cmd"] = args
            R.add(desc, d, {"C14"})
    parallel([(one, v, n) for v in variants if bins.get(v) for n in outs], 2)


EXTRA = {"C14": [doctors], "C18": [cans], "C09": [handles], "C20": [handles]}
