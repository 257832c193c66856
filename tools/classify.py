"""Which properties does a divergence between library and specification violate?

The library is compared with the specification after every step, so the first difference
of a behaviour is attributed by the step at which it shows and by what differs."""
import re

TARGETED = ("Invalidate", "Purge", "DynMut")
MUT = ("LookupMut", "GetMut")
REQ = ("Get", "Resolve", "RetOk", "RetErr", "Panic", "SetState", "GetMut", "DynRead", "Keep", "Unkeep")
CLEAR = ("ClearArtifacts", "ClearAll", "Renew", "Purge")
WRAPPERS = ("fwd", "clone", "feign", "redeem")
DOC = ("DR", "DB", "DI", "DC")


def parse(t):
    t = re.sub(r"<<", "[", t)
    t = re.sub(r">>", "]", t)
    try:
        return eval(t, {"__builtins__": {}}, {"TRUE": 1, "FALSE": 0})
    except Exception:
        return None


def norm(d):
    """One form for divergences of the replay and of trace validation."""
    if "l" in d:     # trace validation
        l = d["l"]
        obs = [tuple(o) for o in d.get("obs") or []]
        exp = [tuple(e) for e in d.get("exp") or []]
        act = [tuple(e) for e in d.get("act") or []]
        return dict(what=d["what"], op=l[0], args=l[1:], exp=exp, act=act,
                    obs=[(str(o[0]),) + tuple(int(x) for x in o[1:5]) for o in obs],
                    src=None, dst=None, panic="")
    def evs(xs):
        r = []
        for x in xs:
            f = x.split(" ")
            r.append(tuple([f[0]] + [int(y) if re.fullmatch(r"-?\d+", y) else y for y in f[1:]]))
        return r
    obs = []
    for o in d["obs"]:
        f = o.split(":")
        obs.append((f[0],) + tuple(int(x) for x in f[1:5]))
    return dict(what=d["what"], op=d["op"], args=d["args"], exp=evs(d["exp"]), act=evs(d["act"]),
                obs=obs, src=parse(d["src"]), dst=parse(d["dst"]), panic=d.get("panic", ""))


def classify(d0, kinds):
    """kinds: kind of builder per slot (1-based list), or None when unknown."""
    d = norm(d0)
    op, args, obs = d["op"], d["args"], d["obs"]
    r = set()

    def kind(b):
        if kinds and 0 < b < len(kinds):
            return kinds[b]
        return "user"
    user_op = op in ("Get", "DynRead", "DynMut", "Invalidate", "Purge", "LookupMut", "GetMut", "Keep",
                     "ClearArtifacts", "ClearAll", "Renew", "Collect")
    lc = args[0] if user_op and args else 0
    lb = args[1] if user_op and len(args) > 1 else (args[0] if op in ("Resolve",) and args else 0)
    if op not in ("Resolve", "SetState", "RetOk", "RetErr", "Panic", "Drop", "Create", "Unkeep") and lc == 0:
        lc = 1
    if d["src"] and not lc:
        stk = d["src"][3]
        if stk:
            lc = stk[-1][1]
            if not lb:
                lb = stk[-1][0]

    def wrap(b):
        k = kind(b)
        if k in ("fwd", "clone", "feign", "const", "config", "func", "func0", "redeem"):
            r.add("C15")
        if k == "redeem":
            r.add("C19")

    def src(c, b, i):
        try:
            return d["src"][0][c - 1][i][b - 1]
        except Exception:
            return None

    art_seen = any(o[0] == "art" for o in obs)
    dyn_seen = any(o[0] == "dyn" for o in obs)
    for o in obs:
        a, c, b, e, x = (o + (0, 0, 0, 0, 0))[:5]
        if c and lc and c != lc and op not in ("Drop", "Create") and not d0.get("cross"):
            r.add("C16")
        if op == "Create":
            r.add("C09")
        if a == "art":
            wrap(b)
            if x == 0:
                if op in TARGETED:
                    r.add("C03")
                elif op in MUT:
                    r.add("C11")
                elif op == "Collect":
                    r.add("C06")
                elif op in ("RetErr", "Panic"):
                    r.update(("C08", "C03"))
                elif op in ("ClearArtifacts", "ClearAll", "Renew"):
                    r.add("C10")
                else:
                    s = src(c, b, 0)
                    r.add("C01")
                    if s is None or s[0] != 0:
                        r.add("C03")
                if op == "Purge":
                    r.add("C10")
            elif e == 0:
                if op in TARGETED:
                    r.add("C02")
                    if op == "Purge":
                        r.add("C10")
                elif op in MUT:
                    r.add("C11")
                elif op in CLEAR:
                    r.add("C10")
                elif op == "Collect":
                    r.add("C07")
                else:
                    r.update(("C08", "C01"))
            else:
                r.add("C01")
                if op in TARGETED:
                    r.add("C02")
                if op == "Collect":
                    r.add("C06")
        elif a == "val":
            r.update(("C01", "C17"))
            wrap(b)
            if e in (8, 9) or x in (8, 9) or op in MUT:
                r.add("C11")
        elif a == "dyn":
            r.add("C04")
            wrap(b)
            if op in CLEAR:
                r.add("C10")
            if op == "Collect":
                r.add("C07" if e == -1 else "C06")
            if op in MUT:
                r.add("C11")
            if op in ("RetErr", "Panic"):
                r.add("C08")
        elif a in ("known", "count"):
            r.add("C05")
            if op in CLEAR:
                r.add("C10")
            if op == "Collect":
                r.add("C07" if x > e else "C06")
        elif a == "kept":
            r.add("C17")
        elif a in ("live_art", "live_count"):
            if not art_seen:
                r.add("C17")
                less = a == "live_art" or x < e
                if op in TARGETED:
                    r.add("C03" if less else "C02")
                elif op in MUT:
                    r.add("C11")
                elif op == "Collect":
                    r.add("C06" if less else "C07")
                if op in CLEAR and not less:
                    r.add("C10")
                if op in ("RetErr", "Panic") and not less:
                    r.add("C08")
                if less and op in REQ and b:
                    r.add("C01")
        elif a == "live_dyn":
            if not dyn_seen:
                r.update(("C17", "C04"))
                if op == "Collect":
                    r.add("C06" if x < e else "C07")
                if op in CLEAR and x > e:
                    r.add("C10")
                if op in MUT and x < e:
                    r.add("C11")
                if op in ("RetErr", "Panic") and x < e:
                    r.add("C08")
        elif a == "bld":
            if x > e:
                r.add("C07")
                if op in CLEAR:
                    r.update(("C10", "C05"))
            else:
                r.update(("C09", "C17", "C06"))
        elif a == "mem":
            r.add("C07")
            if op in CLEAR:
                r.update(("C10", "C05"))
        elif a == "leak_mem":
            r.update(("C07", "C17"))
        elif a == "leak_bld":
            r.update(("C07", "C17"))
        elif a in ("double_drop", "leak_art", "leak_dyn"):
            r.add("C17")
        elif a == "panic":
            r.update(("C05", "C01", "C04"))
    if d["what"] in ("out", "idle"):
        strip = lambda v: [e for e in v if e[0] not in DOC]
        e2, a2 = strip(d["exp"]), strip(d["act"])
        doc_differs = [e for e in d["exp"] if e[0] in DOC] != [e for e in d["act"] if e[0] in DOC]
        if e2 == a2 and d["what"] == "out":
            r.add("C12")
        else:
            epa = any(e[0] == "T" and e[1] in ("pa", 2) for e in e2)
            apa = any(e[0] in ("T", "R") and e[1] in ("pa", 2) for e in a2)
            # the first event that differs
            i = 0
            while i < len(e2) and i < len(a2) and e2[i] == a2[i]:
                i += 1
            fe = e2[i] if i < len(e2) else None
            fa = a2[i] if i < len(a2) else None
            panicked = fa is not None and fa[0] in ("T", "R") and fa[1] in ("pa", 2)
            if doc_differs and not panicked:
                # events before the first difference do not count
                pass
            if op in TARGETED and panicked:
                r.add("C02")
            if op == "Purge" and panicked:
                r.add("C10")
            if op in MUT:
                r.add("C11")
            if op == "Collect":
                r.add("C06")
            if op in CLEAR and op != "Purge":
                r.add("C10")
            who = set()
            for ev in (fe, fa):
                if ev is None:
                    continue
                if ev[0] == "B":
                    who.add(ev[1])
                    if fe and fa and fe[0] == fa[0] == "B" and fe[1] == fa[1]:
                        r.add("C04")
                    else:
                        r.add("C01")
                elif ev[0] == "I":
                    who.add(ev[1])
                    r.add("C04")
                elif ev[0] == "V":
                    r.add("C04")
                    who.add(lb)
                elif ev[0] in ("R", "T"):
                    k = {0: "ok", 1: "er", 2: "pa", 3: "no"}.get(ev[1], ev[1])
                    if op == "DynRead" or op == "DynMut":
                        r.add("C04")
                    elif op in ("Get", "Resolve", "RetOk", "RetErr", "Panic", "GetMut", "SetState"):
                        if k == "ok" or (fe and fe[0] in ("R", "T") and fe[1] in ("ok", 0)):
                            r.add("C01")
                        if k in ("er", "pa"):
                            r.add("C08")
                        if k == "pa" and op in ("Get", "Resolve", "RetOk"):
                            r.add("C01")
                    who.add(lb)
                elif ev[0] == "X":
                    if ev[1] in (1, 5):
                        r.add("C08")
                    elif ev[1] in (2, 3, 4):
                        r.update(("C12", "C14"))
                    elif ev[1] == 6:
                        r.add("C04")
                    elif ev[1] == 9:
                        r.update(("C05", "C01", "C04"))
            if d["src"]:
                for f in d["src"][3]:
                    who.add(f[0])
            for b in who:
                wrap(b)
            if op in ("Get", "Resolve", "RetOk", "RetErr", "Panic") and kinds and any(k in WRAPPERS for k in kinds[1:]):
                ws = [b for b in range(1, len(kinds)) if kinds[b] in WRAPPERS]
                if d["src"] and not any(f[0] in ws for f in d["src"][3]) and not (lb in ws):
                    pass
                else:
                    for b in ws:
                        if lb == b or (d["src"] and any(f[0] == b for f in d["src"][3])):
                            wrap(b)
            if d["what"] == "idle" and not r:
                r.update(("C01", "C08"))
            if "C12" not in r and doc_differs and not panicked and i == len(e2) == len(a2):
                r.add("C12")
        if any(e[0] == "X" and e[1] in (2, 3, 4) for e in d["act"]):
            r.update(("C12", "C14"))
    # A short way there that leads through a failure or a clearing: everything has to work
    # afterwards as if that had not happened (C08), or with dependencies recorded afresh (C10).
    before = [l.split("[")[0] for l in (d0.get("labels") or [])[:-1]]
    if before and len(before) <= 14 and op in TARGETED + MUT + ("Collect", "Get", "Resolve") \
            and any(o[0] in ("art", "live_art", "live_count", "known", "count") for o in obs):
        if any(l in ("RetErr", "Panic") for l in before):
            r.add("C08")
        if any(l in CLEAR for l in before):
            r.add("C10")
    if not r:
        r.add("C01")
    return r


def signature(d0):
    d = norm(d0)
    return "%s/%s/%s" % (d["op"], d["what"], ",".join(sorted({o[0] for o in d["obs"]})))
