#!/usr/bin/env python3
"""Decides one property:  check.py <property> <quick|thorough>

Exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed."""
import json, os, random, re, shutil, sys, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import lib, plan, classify
from lib import ToolError

T0 = lib.START
PROP = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
WORK = os.path.join(lib.BUILD, "run", "%s-%s" % (PROP, TIER))
REPLAYS = os.path.join(lib.BUILD, "replays")


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


class Result:
    def __init__(self):
        self.lock = threading.Lock()
        self.states = self.transitions = self.traces = self.steps = 0
        self.model_states = self.model_transitions = 0
        self.samples = []
        self.runs = []
        self.found = []          # (source description, divergence, classes)
        self.other = {}          # divergences that violate other properties only
        self.assumptions = []
        self.exhaustive = True

    def add(self, desc, div, classes):
        with self.lock:
            if PROP in classes:
                self.found.append((desc, div, sorted(classes)))
            else:
                sig = div["signature"] if "signature" in div else classify.signature(div)
                k = "%s -> %s" % (sig, ",".join(sorted(classes)))
                self.other[k] = self.other.get(k, 0) + 1


R = Result()


# ------------------------------------------------------------------ replay of the state graph

def walk(binary, run, name, conf, graph, threads, secs, maxsecs, events, tag, more=()):
    """Replays one state graph into one variant."""
    out = os.path.join(WORK, "%s.%s.json" % (name, tag))
    args = ["walk", "graph=" + graph, "flavour=" + run["f"], "doc=%d" % run["doc"], "acc=%d" % run["acc"],
            "form=%d" % run["form"], "len=%d" % path_len(tag, name), "seed=%d" % (SEED * 1000 + hash_of(tag + name)),
            "secs=%s" % secs, "maxsecs=%s" % maxsecs, "threads=%d" % threads, "events=%d" % events, "out=" + out] + list(more)
    if os.path.exists(out):
        os.remove(out)
    rc, so, se = lib.sh([binary] + args, timeout=maxsecs + 120)
    desc = "%s %s/%s doc=%d acc=%d form=%d" % (name, run["v"], run["f"], run["doc"], run["acc"], run["form"])
    if rc == 3:
        raise ToolError("%s: %s" % (desc, se[-800:]))
    if rc != 0 and rc != 4:
        return crash(binary, args, desc, rc, se, graph)
    rep = json.load(open(out))
    if rc == 4:
        return crash(binary, args, desc, rc, "no progress", graph)
    rep["cmd"] = [binary] + args
    return desc, rep


def hash_of(s):
    h = 0
    for ch in s:
        h = (h * 31 + ord(ch)) % 997
    return h


def path_len(tag, name):
    """Short paths meet fresh caches often, long ones get to what needs many operations."""
    return (60, 140, 1500, 140)[(hash_of(tag) + hash_of(name)) % 4]


def crash(binary, args, desc, rc, se, graph):
    """The library crashed or hung: find out at which step, with a journal."""
    last = None
    for k in range(6):
        j = os.path.join(WORK, "journal.%d.txt" % k)
        a = [x for x in args if not x.startswith(("threads=", "out=", "seed=", "maxsecs=", "secs="))]
        a += ["threads=1", "out=" + os.path.join(WORK, "crash.json"), "seed=%d" % (SEED * 77 + k), "maxsecs=40",
              "secs=5", "journal=" + j]
        rc2, so, se2 = lib.sh([binary] + a, timeout=90)
        if rc2 not in (0, 3):
            lines = open(j, errors="replace").read().splitlines() if os.path.exists(j) else []
            if lines:
                last = (lines, rc2, a)
                break
    if last is None:
        raise ToolError("%s: exit code %s, not reproducible with a journal: %s" % (desc, rc, se[-400:]))
    lines, rc2, a = last
    m = re.match(r"(\d+) (\w+)\[(.*?)\] \| (.*)", lines[-1])
    op, ar, src = m.group(2), [int(x) for x in m.group(3).split(",") if x], m.group(4)
    what = "hang" if rc2 in (4, -99) else "crash (exit code %s)" % rc2
    pa = "R pa 0 0" if op in ("Resolve", "RetOk", "RetErr", "Panic", "SetState") else "T pa 0 0"
    div = dict(what="out", op=op, args=ar, src=src, dst=src, exp=[], act=[pa], obs=[], panic=what,
               seed=0, path=[], labels=[re.sub(r"^\d+ ", "", l.split(" | ")[0]) for l in lines])
    return desc, dict(states=0, edges=0, covered=0, steps=0, paths=0, samples=[], signatures={"%s/%s/" % (op, what): 100},
                      divs=[div], cmd=[binary] + a, benign_gc=0)


def kinds_of_graph(graph):
    with open(graph, errors="replace") as f:
        for line in f:
            if '<<\\"P\\"' in line:
                v = classify.parse(json.loads(line))
                return [None] + [b[0] for b in v[4]]
    return None


def campaign():
    p = plan.PLAN[PROP]
    quick = TIER == "quick"
    names = p["quick"] if quick else list(dict.fromkeys(p["thorough"] + p["quick"]))
    if p["compare"] == "C16":
        names = names + [n + "-1" for n in names if n + "-1" in plan.CONFIGS]
    runs = p["qruns"] if quick else p["truns"]
    invs, props = plan.MODEL[PROP]
    variants = sorted({r["v"] for r in runs})
    fl = {"rc": "r", "arc": "a", "boxed": "b"}
    graphs, errors = {}, []
    tlc_slots = threading.Semaphore(4 if quick else 3)
    cpu = threading.Semaphore(2)
    bins = {}
    ready = threading.Event()

    def do_build():
        try:
            bins.update(lib.build_all(variants))
        except Exception as e:
            errors.append(e)
        ready.set()

    def work_list(name):
        conf = plan.CONFIGS[name]
        todo = []
        for r in runs:
            if fl[r["f"]] not in conf["flavours"]:
                continue
            if conf["feat"] == "mutbox" and r["v"] in "ABF":
                continue
            todo.append(r)
        return todo

    per = {}

    def do_config(name):
        conf = plan.CONFIGS[name]
        todo = work_list(name)
        if not todo or late(name):
            return
        with tlc_slots:
            if late(name):
                return
            g = lib.emit_graph(name, conf, WORK, workers=2, timeout=700 if quick else 3000, small=name in plan.SMALL or name.endswith("-1"))
        with tlc_slots:
            mr = dict(distinct=0, generated=0) if late("model check of " + name) else lib.check_model(name, conf, WORK, invs, props, workers=2, timeout=700 if quick else 3000, small=name in plan.SMALL or name.endswith("-1"))
        kinds = kinds_of_graph(g["out"])
        with R.lock:
            R.states += g["distinct"]
            R.transitions += g["generated"]
            R.model_states += mr["distinct"]
            R.model_transitions += mr["generated"]
        ready.wait()
        for r in todo:
            b = bins.get(r["v"])
            if not b or late("%s %s/%s" % (name, r["v"], r["f"]), 680):
                continue
            tag = "%s-%s-d%d-a%d-f%d" % (r["v"], r["f"], r["doc"], r["acc"], r["form"])
            many = len(names) * len(todo)
            secs = max(0.3, min(2.0, 16.0 / many)) if quick else max(2.0, min(30.0, 500.0 / many))
            with cpu:
                desc, rep = walk(b, r, name, conf, g["out"], 4, secs, (15 if quick else 120), p["events"], tag)
            with R.lock:
                R.traces += rep["paths"]
                R.steps += rep["steps"]
                R.runs.append(dict(run=desc, states=rep["states"], edges=rep["edges"], edges_taken=rep["covered"],
                                   steps=rep["steps"], behaviours=rep["paths"], divergences=sum(rep["signatures"].values())))
                if rep["covered"] < rep["edges"]:
                    R.exhaustive = False
                if len(R.samples) < 4:
                    R.samples += ["%s: %s" % (desc, x) for x in rep["samples"][:1]]
                per.setdefault(name, []).append((r, desc, rep))
            shared, apart = set(), set()
            if PROP == "C16" and rep["divs"]:
                shared = needs_others(b, rep["cmd"][1:], rep)
                apart = of_other_caches(b, rep["cmd"][1:], rep)
                if not apart and any(o.startswith(("live_", "bld", "mem", "leak")) for d in rep["divs"] for o in d["obs"]):
                    # What is left in memory hides what comes later: once more, without looking at it.
                    desc2, more = walk(b, r, name, conf, g["out"], 4, 2 * secs, (15 if quick else 120), p["events"],
                                       tag + "-blind", ["blind=1"])
                    apart = of_other_caches(b, more["cmd"][1:], more)
                    for d in more["divs"]:
                        d["cmd"] = more["cmd"]
                    rep["divs"] = [d for d in rep["divs"] if classify.signature(d) not in apart] + more["divs"]
                    for k, n in more["signatures"].items():
                        rep["signatures"][k] = rep["signatures"].get(k, 0) + n
            for d in rep["divs"]:
                d["graph"] = g["out"]
                d.setdefault("cmd", rep["cmd"])
                cl = classify.classify(d, kinds)
                if d.get("cross") and all(x.get("cross") for x in rep["divs"]):
                    # Only seen after a builder running for one cache has used another one.
                    cl.add("C16")
                if p["compare"] == "C16" and "-" in name:
                    cl.discard("C16")
                if classify.signature(d) in shared:
                    d["differs"] = "never without other caches in the process"
                    cl.add("C16")
                if classify.signature(d) in apart:
                    d["differs"] = "never without the operations on other caches"
                    cl.add("C16")
                if p["compare"] is None:
                    R.add(desc, d, cl)
                else:
                    d["classes"] = sorted(cl)
            log("%-46s edges %d/%d, %d steps, %d behaviours, divergences %s"
                % (desc, rep["covered"], rep["edges"], rep["steps"], rep["paths"], rep["signatures"] or "none"))
        if not (p["compare"] == "C16" and any(rep["divs"] for r, desc, rep in per.get(name, []))):
            os.remove(g["out"])

    def do_traces():
        ready.wait()
        if errors:
            return
        todo = []
        combos = []
        for r in runs:
            if (r["v"], r["f"], r["doc"]) not in combos:
                combos.append((r["v"], r["f"], r["doc"]))
        small = p["traces"] if quick else 12
        for i in range(small + len(plan.LARGE)):
            v, f, doc = combos[i % len(combos)]
            if bins.get(v):
                # The large ones take longest, and go first.
                shape = plan.LARGE[i - small] if i >= small else plan.SMALL_TRACES[i % len(plan.SMALL_TRACES)]
                todo.insert(0 if i >= small else len(todo), (i, v, f, doc, shape))
        with ThreadPoolExecutor(3 if quick else 4) as ex:
            list(ex.map(lambda t: late("trace %d" % t[0]) or trace(bins[t[1]], *t, quick=quick, events=p["events"],
                                                                   compare=p["compare"]), todo))

    def guard(f, *a):
        try:
            f(*a)
        except Exception as e:
            errors.append(e)
            log("error:", str(e)[:1500])
            if not isinstance(e, ToolError):
                traceback.print_exc()

    bt = threading.Thread(target=guard, args=(do_build,))
    bt.start()
    tt = threading.Thread(target=guard, args=(do_traces,))
    tt.start()
    # The largest first.
    order = sorted(names, key=lambda n: -(plan.CONFIGS[n]["n"] * 10 + plan.CONFIGS[n]["m"] * 12 + len(plan.CONFIGS[n]["ops"])))
    with ThreadPoolExecutor(6) as ex:
        list(ex.map(lambda n: guard(do_config, n), order))
    bt.join()
    tt.join()
    if p["compare"] == "C16":
        isolation(per)
    elif p["compare"]:
        compare(per, p["compare"])
    if errors and not R.found:
        raise errors[0]


def needs_others(binary, args, rep):
    """Signatures that show again and again, but never when their path is taken by a process that
    has had no other cache: earlier caches, or those of other threads, have a part in it."""
    res = set()
    by = {}
    for d in rep["divs"]:
        if d["path"] and len(d["path"]) < 3000:
            by.setdefault(classify.signature(d), []).append(d)
    out = os.path.join(WORK, "alone.%d.json" % threading.get_ident())
    base = plain_args(args)
    t0 = time.time()
    for sig, ds in sorted(by.items(), key=lambda x: -len(x[1])):
        if len(ds) < 8 or time.time() - t0 > 40 or len(res) >= 3:
            continue
        again = False
        for k in range(24):
            d = sorted(ds, key=lambda d: len(d["path"]))[k % 4]
            rc, so, se = lib.sh([binary] + base + ["path=" + ",".join(map(str, d["path"])), "pseed=%d" % d["seed"],
                                                   "out=" + out], timeout=60)
            if rc != 0 or json.load(open(out))["divs"]:
                again = True
                break
        if not again:
            res.add(sig)
    return res


def without_others(binary, base, d):
    """Does it happen, too, without the operations on other caches (and on earlier ones in the same
    place)?  None if these cannot be left out."""
    out = os.path.join(WORK, "apart.%d.json" % threading.get_ident())
    rc, so, se = lib.sh([binary] + base + ["path=" + ",".join(map(str, d["path"])), "out=" + out, "project=1", "times=24",
                                           "pseed=%d" % d["seed"]], timeout=60)
    if rc == 6:
        return None
    if rc != 0:
        return True
    return bool(json.load(open(out))["divs"])


def plain_args(args):
    return [x for x in args if not x.startswith(("threads=", "out=", "seed=", "maxsecs=", "secs="))]


def of_other_caches(binary, args, rep):
    """Signatures that show again and again, but never when their path is taken without the
    operations on other caches."""
    res = set()
    by = {}
    for d in rep["divs"]:
        if d["path"] and len(d["path"]) < 3000 and not d.get("cross"):
            by.setdefault(classify.signature(d), []).append(d)
    out = os.path.join(WORK, "apart.%d.json" % threading.get_ident())
    base = plain_args(args)
    t0 = time.time()
    for sig, ds in sorted(by.items(), key=lambda x: -len(x[1])):
        if len(ds) < 4 or time.time() - t0 > 40 or len(res) >= 3:
            continue
        votes = []
        for d in sorted(ds, key=lambda d: len(d["path"]))[:12]:
            rc, so, se = lib.sh([binary] + base + ["path=" + ",".join(map(str, d["path"])), "out=" + out,
                                                   "pseed=%d" % d["seed"]], timeout=60)
            again = rc == 0 and bool(json.load(open(out))["divs"])
            votes.append(again and without_others(binary, base, d) is False)
        # Some paths have another cause, or one which showed by chance.
        if sum(votes) >= 3 and sum(votes) * 2 > len(votes):
            res.add(sig)
    return res


def isolation(per):
    """What goes wrong with several caches, but never in the same program with a single one."""
    for name, rs in per.items():
        if name.endswith("-1"):
            for r, desc, rep in rs:
                for d in rep["divs"]:
                    if d.get("differs"):
                        R.add(desc, d, {"C16"})
            continue
        one = per.get(name + "-1", [])
        alone = {s for r, desc, rep in one for s in rep["signatures"]}
        for r, desc, rep in rs:
            only = {}
            for d in rep["divs"]:
                cl = set(d["classes"])
                sig = classify.signature(d)
                if d.get("differs") is None and not d.get("cross") and one and all(x[2]["steps"] for x in one) and sig not in alone \
                        and rep["signatures"].get(sig, 0) >= 3:
                    if sig not in only:
                        same = sorted((x for x in rep["divs"] if classify.signature(x) == sig), key=lambda x: len(x["path"]))
                        only[sig] = not any(x["path"] and without_others(x["cmd"][0], plain_args(x["cmd"][1:]), x)
                                            for x in same[:6])
                    if only[sig]:
                        d["differs"] = "never with a single cache"
                        cl.add("C16")
                R.add(desc, d, cl)


def compare(per, which):
    """Properties stating that builds, flavours or handle forms behave alike: a divergence which
    some of them show regularly and others never do."""
    for name, rs in per.items():
        rs = [x for x in rs if x[2]["steps"] > 0 or x[2]["divs"]]
        groups = {}
        for r, desc, rep in rs:
            groups.setdefault(1 if which == "C20" else r["f"], []).append((r, desc, rep))
        for gr in groups.values():
            sigs = {}
            for r, desc, rep in gr:
                for d in rep["divs"]:
                    if which == "C13" and d["classes"] == ["C12"]:
                        continue
                    sigs.setdefault(classify.signature(d), {}).setdefault(desc, []).append(d)
            for s, by in sigs.items():
                total = {}
                for r, desc, rep in gr:
                    total[desc] = len(by.get(desc, []))
                lo = [d for d in total if total[d] == 0]
                hi = [d for d in total if total[d] >= 8]
                if lo and hi:
                    d = by[hi[0]][0]
                    d["differs"] = dict(shown_by=hi, not_shown_by=lo)
                    R.add(hi[0] + " but not " + lo[0], d, {which})
                else:
                    for desc in by:
                        R.add(desc, by[desc][0], set(by[desc][0]["classes"]) - {which})


# ------------------------------------------------------------------ trace validation

def trace(binary, i, v, f, doc, shape, quick, events, compare):
    muts = 1 if f == "boxed" and v in "CDEG" else 0
    out = os.path.join(WORK, "trace.%d.ndjson" % i)
    n, m = shape["n"], shape["m"]
    args = ["trace", "out=" + out, "runs=%d" % (shape["runs"] * (1 if quick else 8)), "flavour=" + f, "n=%d" % n, "m=%d" % m,
            "len=%d" % shape["len"], "mut=%d" % muts, "wrap=%d" % shape.get("wrap", i % 2), "panics=%d" % (1 if i % 4 != 3 else 0),
            "seed=%d" % (SEED * 100 + i + hash_of(PROP)), "doc=%d" % doc, "events=%d" % events,
            "calm=%d" % shape.get("calm", 0), "wide=%d" % shape.get("wide", 0),
            "churn=%d" % shape.get("churn", 0), "grow=%d" % shape.get("grow", 0), "deep=%d" % shape.get("deep", 0)]
    rc, so, se = lib.sh([binary] + args, timeout=200)
    desc = "trace %s/%s n=%d m=%d doc=%d" % (v, f, n, m, doc)
    if rc == 3:
        raise ToolError("%s: %s" % (desc, se[-600:]))
    if rc != 0:
        # Crashed or hung while recording: again, with a journal that tells the step.
        j = os.path.join(WORK, "trace.%d.journal" % i)
        rc2, so, se2 = lib.sh([binary] + args + ["journal=" + j], timeout=240)
        lines = open(j, errors="replace").read().splitlines() if os.path.exists(j) else []
        if rc2 == 0 or len(lines) < 2:
            raise ToolError("%s: exit code %s, not reproducible with a journal: %s" % (desc, rc, se[-400:]))
        f = lines[-1].split(" ")
        l = [f[0]] + [int(x) for x in f[1:] if x]
        what = "hang" if rc2 in (4, -99) else "crash (exit code %s)" % rc2
        d = dict(what="out", l=l, exp=[], act=[["R" if l[0] in ("Resolve", "RetOk", "RetErr", "Panic", "SetState") else "T",
                                                 "pa", 0, 0]], obs=[], panic=what, recorded=lines, cmd=[binary] + args)
        prog = json.loads(lines[0])
        cl = classify.classify(d, [None] + [x[0] for x in prog["p"]])
        if compare in ("C13", "C20"):
            cl = cl - {compare}
        R.add(desc, d, cl)
        log(desc, what, "during", lines[-1])
        return
    c = os.path.join(WORK, "trace.%d.cfg" % i)
    open(c, "w").write("SPECIFICATION Spec\nCONSTANTS\n N = %d\n M = %d\n K = 1000000\nINVARIANTS KnownCovers Coherent\n"
                       "POSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n" % (n, m))
    r = lib.tlc(c, "DaabTrace.tla", WORK, workers=1, timeout=600, env={"TRACE": out}, heap="4g")
    if r["rc"] != 0:
        raise ToolError("trace validation failed to run: %s" % r["tail"][-800:])
    lines = open(out).read().splitlines()
    with R.lock:
        R.traces += sum(1 for l in lines if '"Prog"' in l[:14])
        R.transitions += len(lines)
        R.states += r["distinct"]
        if i == 0 and len(lines) > 3:
            R.samples.append("%s: %s" % (desc, lines[2][:300]))
        R.runs.append(dict(run=desc, lines_validated=len(lines)))
    nrep = 0
    for l in open(r["out"], errors="replace"):
        if l.startswith('"{'):
            d = json.loads(json.loads(l))
            nrep += 1
            if d["what"] == "recording":
                raise ToolError("the recording is not a legal program: %s" % d)
            k = d["line"] - 1
            st = k
            while '"Prog"' not in lines[st][:14]:
                st -= 1
            prog = json.loads(lines[st])
            d["recorded"] = lines[st:k + 1]
            d["cmd"] = [binary] + args
            if d["what"] == "mon":
                cl = {x[0] for x in d["obs"]}
                d["signature"] = "monitor/%s/%s" % (d["l"][0], ",".join(sorted({"%s: %s" % (x[0], x[1]) for x in d["obs"]})).replace(" ", "_"))
            else:
                cl = classify.classify(d, [None] + [x[0] for x in prog["p"]])
            if compare in ("C13", "C20"):
                cl = cl - {compare}
            R.add(desc, d, cl)
    log("%-46s %d lines validated, %d rejected" % (desc, len(lines), nrep))


# ------------------------------------------------------------------ the same program twice

def twin_plan(which):
    """What must behave alike: (common parameters, [(variant, flavour, doctor, accessor, form)])."""
    if which == "C13":
        return [(["mut=0"], [("A", "rc", 0, 3, 9), ("B", "rc", 0, 3, 9), ("C", "rc", 0, 3, 9), ("D", "rc", 1, 3, 9),
                             ("E", "rc", 2, 3, 9), ("F", "rc", 1, 3, 9), ("C", "rc", 3, 3, 9), ("G", "rc", 0, 3, 9)]),
                (["mut=0"], [("A", "boxed", 0, 3, 9), ("D", "boxed", 0, 3, 9), ("E", "boxed", 2, 3, 9)]),
                (["mut=1"], [("C", "boxed", 0, 3, 9), ("D", "boxed", 0, 3, 9), ("E", "boxed", 1, 3, 9), ("G", "boxed", 0, 3, 9)]),
                (["mut=0"], [("A", "arc", 0, 3, 9), ("D", "arc", 0, 3, 9), ("C", "arc", 3, 3, 9)])]
    return [(["mut=0", "keep=0", "share=0"],
             [("A", "rc", 1, 3, 9), ("A", "arc", 1, 3, 9), ("A", "boxed", 1, 3, 9), ("C", "rc", 1, 0, 9), ("C", "boxed", 1, 1, 9),
              ("C", "arc", 1, 2, 9), ("C", "rc", 1, 3, 1), ("C", "boxed", 1, 3, 2), ("C", "arc", 1, 3, 3), ("C", "boxed", 1, 3, 0)]),
            (["mut=0"], [("A", "rc", 1, 3, 9), ("A", "arc", 1, 3, 9), ("C", "rc", 1, 0, 9), ("C", "arc", 1, 1, 9), ("C", "rc", 1, 2, 9),
                         ("C", "arc", 1, 3, 0), ("C", "rc", 1, 3, 2), ("C", "arc", 1, 3, 1)])]


TWIN_SHAPES = [dict(n=12, m=1, runs=14, len=150), dict(n=6, m=2, runs=40, len=90), dict(n=14, m=1, runs=30, len=60, churn=1),
               dict(n=16, m=1, runs=14, len=200), dict(n=30, m=1, runs=4, len=500, calm=1, wide=60)]


def twins(R, PROP, TIER, SEED, WORK, log):
    quick = TIER == "quick"
    groups = twin_plan(PROP)
    bins = lib.build_all(sorted({x[0] for _, g in groups for x in g}))
    cfg = os.path.join(WORK, "twin.cfg")
    open(cfg, "w").write("SPECIFICATION Spec\nCONSTANT K = 1000000\nCHECK_DEADLOCK FALSE\n")

    def record(x, common, shape, seed, wrap, tag):
        v, f, doc, acc, form = x
        out = os.path.join(WORK, "twin.%s.ndjson" % tag)
        a = [bins[v], "trace", "out=" + out, "flavour=" + f, "doc=%d" % doc, "acc=%d" % acc, "form=%d" % form, "events=0",
             "seed=%d" % seed, "wrap=%d" % wrap, "panics=%d" % (seed % 4 != 3)] + common + ["%s=%d" % y for y in sorted(shape.items())]
        rc, so, se = lib.sh(a, timeout=200)
        return out, rc, a

    def differences(a, b, tag):
        c = os.path.join(WORK, "twin.%s.cfg" % tag)
        shutil.copyfile(cfg, c)
        r = lib.tlc(c, "DaabTwin.tla", WORK, workers=1, timeout=600, env={"TRACE": a, "TRACE2": b}, heap="2g", small=True)
        if r["rc"] != 0:
            raise ToolError("comparing recordings failed to run: %s" % r["tail"][-600:])
        with R.lock:
            R.states += r["distinct"]
            R.transitions += r["generated"]
        return [json.loads(json.loads(l)) for l in open(r["out"], errors="replace") if l.startswith('"{')]

    def name(x):
        return "%s/%s doc=%d acc=%d form=%d" % x

    def group(job):
        g, k, common, xs, shape = job
        if late("twins %d.%d" % (g, k)):
            return
        xs = [x for x in xs if bins.get(x[0])]
        seed = SEED * 1000 + 17 * k + g
        tag = "%d.%d" % (g, k)
        base, rc0, cmd0 = record(xs[0], common, shape, seed, k % 2, tag + ".0")
        for n, x in enumerate(xs[1:]):
            t = "%s.%d" % (tag, n + 1)
            other, rc, cmd = record(x, common, shape, seed, k % 2, t)
            what = "%s compared with %s (n=%d m=%d)" % (name(x), name(xs[0]), shape["n"], shape["m"])
            if rc == 3 or rc0 == 3:
                raise ToolError("recording failed: " + what)
            if (rc == 0) != (rc0 == 0):
                R.add(what, dict(what="out", l=["Get", 1, 1, 0], exp=[], act=[], obs=[], signature="twin/exit",
                                 text="exit codes %s and %s" % (rc, rc0), cmd=[cmd0, cmd]), {PROP})
                continue
            if rc != 0:
                continue      # both fail alike
            ds = differences(base, other, t)
            if ds:
                # Is the program deterministic with either of them?
                for y, f in ((xs[0], base), (x, other)):
                    for again in (1, 2):
                        f2, rc2, _ = record(y, common, shape, seed, k % 2, t + ".again")
                        own = differences(f, f2, t) if rc2 == 0 else ds
                        bad = {runs_of(f)[d["line"] - 1] for d in own if 0 < d["line"] <= len(runs_of(f))}
                        ref = runs_of(base)
                        ds = [d for d in ds if 0 < d["line"] <= len(ref) and ref[d["line"] - 1] not in bad]
            lines = open(base).read().splitlines() if ds else []
            for d in ds[:5]:
                st = d["line"] - 1
                while st > 0 and '"Prog"' not in lines[st][:14]:
                    st -= 1
                d["recorded"] = lines[st:d["line"]]
                d["cmd"] = [cmd0, cmd]
                d["signature"] = "twin/%s/%s" % (d["l"][0], d["what"])
                R.add(what, d, {PROP})
            with R.lock:
                R.traces += 2 * shape["runs"]
                R.runs.append(dict(run="twin " + what, runs=shape["runs"], differences=len(ds)))
            log("%-70s %s" % (what, "%d runs differ" % len(ds) if ds else "alike"))

    shapes = TWIN_SHAPES[:3] if quick else TWIN_SHAPES * 6
    jobs = [(g, k, common, xs, sh) for k, sh in enumerate(shapes) for g, (common, xs) in enumerate(groups)]
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(group, jobs))


def runs_of(path):
    """The run that each line of a recording belongs to."""
    r, k = [], -1
    for l in open(path):
        if '"Prog"' in l[:14]:
            k += 1
        r.append(k)
    return r


# ------------------------------------------------------------------ reporting

def findings():
    r = []
    for l in open(os.path.join(lib.VERIF, "known_findings.txt")):
        m = re.match(r"finding: property=(\w+) signature=(\S+) (.*)", l)
        if m and m.group(1) == PROP:
            r.append((m.group(2), m.group(3).strip()))
    return r


def finish():
    known = findings()
    fresh, seen = [], set()
    for f in R.found:
        s = classify.signature(f[1]) if "signature" not in f[1] else f[1]["signature"]
        k = [x for x in known if x[0] == s]
        if k:
            seen.add(k[0])
        else:
            fresh.append(f)
    for s, text in sorted(seen):
        print("KNOWN-FINDING: property=%s %s" % (PROP, text))
    ev = dict(property=PROP, tier=TIER, seed=SEED, level="model_checking",
              coverage=dict(states=R.states, transitions=R.transitions, traces_validated_against_impl=R.traces,
                            samples=R.samples or ["none"], steps_replayed=R.steps,
                            model_checked_states=R.model_states, model_checked_transitions=R.model_transitions,
                            exhaustive=R.exhaustive, runs=R.runs, notes=lib.notes(),
                            divergences_attributed_to_other_properties=R.other),
              assumptions=R.assumptions or ["the harness observes the library only through its public interface",
                                            "bounds: see DESIGN.md"],
              wall_s=round(time.time() - T0, 2), violations=len(fresh))
    os.makedirs(os.path.join(lib.VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(lib.VERIF, "evidence", PROP + ".json"), "w"), indent=1)
    for n in lib.notes():
        log("note:", n)
    if R.other:
        log("divergences that concern other properties:", R.other)
    if not fresh:
        log("%s: held (%d states, %d transitions, %d behaviours, %d steps replayed)"
            % (PROP, R.states, R.transitions, R.traces, R.steps))
        return 0
    os.makedirs(REPLAYS, exist_ok=True)
    fresh.sort(key=lambda f: len(f[1].get("path") or f[1].get("labels") or f[1].get("recorded") or []))
    desc, d, cl = fresh[0]
    path = os.path.join(REPLAYS, "%s-%s.json" % (PROP, TIER))
    json.dump(dict(property=PROP, run=desc, classes=cl, divergence=d,
                   more=[dict(run=x[0], signature=classify.signature(x[1]) if "signature" not in x[1] else x[1]["signature"])
                         for x in fresh[1:50]]), open(path, "w"), indent=1)
    log("%s violated: %s: %s" % (PROP, desc, json.dumps({k: d[k] for k in ("op", "args", "l", "what", "exp", "act", "obs", "panic",
                                                                        "labels", "differs", "text") if k in d})[:1500]))
    print("VIOLATION property=%s replay=%s" % (PROP, path), flush=True)
    return 1


def late(what, secs=560):
    if lib.late(what, secs):
        R.exhaustive = False
        return True
    return False


def main():
    lib.QUICK[0] = TIER == "quick"
    shutil.rmtree(WORK, ignore_errors=True)
    os.makedirs(WORK)
    try:
        import extra
        jobs = [campaign] if PROP in plan.PLAN else []
        jobs += [lambda: twins(R, PROP, TIER, SEED, WORK, log)] if PROP in ("C13", "C20") else []
        jobs += [lambda f=f: f(R, PROP, TIER, SEED, WORK, log) for f in extra.EXTRA.get(PROP, [])]
        with ThreadPoolExecutor(len(jobs)) as ex:
            done = [ex.submit(j) for j in jobs]
        for d in done:
            d.result()
        rc = finish()
    except ToolError as e:
        if R.found:
            rc = finish()
        else:
            print("ERROR:", e, flush=True)
            rc = 2
    shutil.rmtree(WORK, ignore_errors=True)
    return rc


if __name__ == "__main__":
    sys.exit(main())
