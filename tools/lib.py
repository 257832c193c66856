"""Building the harness, running TLC, and replaying."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, threading, time, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
REPO = "/repo"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

ALL = "diag,mutbox,unsz,tynm"
# name: (toolchain, profile, features of the harness, description)
VARIANTS = {
    "A": ("stable", "dev", "", "default features, debug assertions"),
    "B": ("stable", "release", "", "default features, optimised"),
    "C": ("nightly", "dev", ALL, "all features, debug assertions"),
    "D": ("nightly", "release", ALL, "all features, optimised"),
    "E": ("stable", "dev", "diag,mutbox", "diagnostics and mut_box, debug assertions"),
    "F": ("stable", "release", "diag,tynm", "diagnostics and tynm, optimised"),
    "G": ("stable", "dev", "mutbox", "mut_box only, debug assertions"),
}


class ToolError(Exception):
    pass


def sh(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ)
    e["RUST_BACKTRACE"] = "0"
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           env=e, cwd=cwd, stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        return -99, (x.stdout or b"").decode("utf-8", "replace"), "timeout"


def repo_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(REPO + "/src/**/*", recursive=True)) + [REPO + "/Cargo.toml"]:
        if os.path.isfile(f):
            h.update(f.encode())
            h.update(open(f, "rb").read())
    return h.hexdigest()


_lock = threading.Lock()
_built = {}
_notes = []


def build(variant):
    """Path of the harness built against the current tree; None if that variant does not compile."""
    with _lock:
        if variant not in _built:
            _built[variant] = threading.Lock(), [0, None]
        lk, cell = _built[variant]
    with lk:
        if cell[0]:
            return cell[1]
        tc, profile, feats, _ = VARIANTS[variant]
        tgt = os.path.join(BUILD, "target", variant)
        os.makedirs(tgt, exist_ok=True)
        with open(os.path.join(tgt, ".lock"), "w") as lf:
            fcntl.flock(lf, fcntl.LOCK_EX)
            stamp = os.path.join(tgt, ".stamp")
            want = repo_hash()
            have = open(stamp).read() if os.path.exists(stamp) else ""
            env = {"CARGO_TARGET_DIR": tgt, "CARGO_NET_OFFLINE": "true", "RUSTFLAGS": "-Awarnings"}
            man = os.path.join(HARNESS, "Cargo.toml")
            if have and have != want:
                sh(["cargo", "+" + tc, "clean", "--offline", "--manifest-path", man, "-p", "daab"]
                   + (["--release"] if profile == "release" else []), env=env)
            cmd = ["cargo", "+" + tc, "build", "--offline", "--manifest-path", man]
            if profile == "release":
                cmd.append("--release")
            if feats:
                cmd += ["--features", feats]
            rc, out, err = sh(cmd, timeout=800, env=env)
            cell[0] = 1
            if rc == 0:
                open(stamp, "w").write(want)
                cell[1] = os.path.join(tgt, "debug" if profile == "dev" else "release", "daab-conformance")
            else:
                sys.stderr.write(err[-3000:])
                _notes.append("variant %s (%s) does not build" % (variant, VARIANTS[variant][3]))
        return cell[1]


def build_all(names):
    with ThreadPoolExecutor(max(1, min(4, len(names)))) as ex:
        r = dict(zip(names, ex.map(build, names)))
    if not any(r.values()):
        raise ToolError("the harness does not build against /repo")
    return r


def notes():
    return list(_notes)


# Quick checks begin nothing new when they have run for so long on a slow machine.
START, QUICK = time.time(), [True]


def late(what, secs=560):
    """Is it too late to begin `what`?  If so, the evidence says that it has been left out."""
    if QUICK[0] and time.time() - START > secs:
        _notes.append("left out for lack of time: " + what)
        return True
    return False


# ------------------------------------------------------------------ TLC

def tlc(cfgfile, module, workdir, workers=2, timeout=800, env=None, out=None, heap="3g", extra=(), small=False):
    meta = os.path.join(workdir, "meta-" + os.path.basename(cfgfile))
    shutil.rmtree(meta, ignore_errors=True)
    if small:
        workers = 1
    cmd = ["java", "-Xmx" + heap, "-Xss64m",
           *(["-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1"] if small else ["-XX:+UseParallelGC", "-XX:ParallelGCThreads=2"]),
           "-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", cfgfile, *extra, os.path.join(SPEC, module)]
    e = dict(os.environ)
    if env:
        e.update(env)
    t0 = time.time()
    dst = out or (cfgfile + ".out")
    with open(dst, "wb") as f:
        try:
            rc = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, env=e,
                                cwd=workdir, stdin=subprocess.DEVNULL).returncode
        except subprocess.TimeoutExpired:
            rc = -99
    shutil.rmtree(meta, ignore_errors=True)
    text = ""
    with open(dst, "rb") as f:
        f.seek(0, 2)
        n = f.tell()
        f.seek(max(0, n - 20000))
        text = f.read().decode("utf-8", "replace")
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
    d = re.search(r"depth of the complete state graph search is (\d+)", text)
    return dict(rc=rc, out=dst, tail=text, wall=time.time() - t0,
                generated=int(m.group(1)) if m else 0, distinct=int(m.group(2)) if m else 0,
                depth=int(d.group(1)) if d else 0)


def core_cfg(c, view, lines):
    return """SPECIFICATION Spec
CONSTANTS
 N = %d
 M = %d
 K = 10
 Prog <- %s
 Uses <- %s
 Ops = {%s}
 Vals = {%s}
 Born <- B
VIEW %s
CHECK_DEADLOCK FALSE
%s
""" % (c["n"], c["m"], c["prog"], c["uses"], ",".join('"%s"' % o for o in c["ops"]),
       ",".join(map(str, c["vals"])), view, "\n".join(lines))


def emit_graph(name, c, workdir, workers=2, timeout=700, small=False):
    f = os.path.join(workdir, name + ".emit.cfg")
    open(f, "w").write(core_cfg(c, "Key", ["INVARIANT EmitState", "ACTION_CONSTRAINT EmitEdge"]))
    r = tlc(f, "Progs.tla", workdir, workers, timeout, out=os.path.join(workdir, name + ".graph"), small=small)
    if r["rc"] != 0:
        raise ToolError("TLC failed on %s: rc=%s %s" % (name, r["rc"], r["tail"][-600:]))
    return r


def check_model(name, c, workdir, invs, props, workers=2, timeout=700, small=False):
    f = os.path.join(workdir, name + ".prop.cfg")
    lines = []
    if invs:
        lines.append("INVARIANTS " + " ".join(invs))
    if props:
        lines.append("PROPERTIES " + " ".join(props))
    open(f, "w").write(core_cfg(c, "KeySrc", lines))
    r = tlc(f, "Progs.tla", workdir, workers, timeout, small=small)
    if r["rc"] != 0:
        raise ToolError("the specification does not satisfy %s %s on %s: rc=%s %s"
                        % (invs, props, name, r["rc"], re.findall(r"Error: .*", r["tail"])[:2]))
    return r
