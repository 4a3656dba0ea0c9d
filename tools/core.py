"""Builds the driver from /repo, runs scripts, validates traces with TLC."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

import files

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VQ_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = max(1, min(8, os.cpu_count() or 1))


class Infra(Exception):
    """The machinery failed; says nothing about the library."""


def log(*a):
    print("[vq]", *a, file=sys.stderr, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


# --------------------------------------------------------------------- builds

CXX = ["clang++-18", "-std=c++23", "-stdlib=libc++", "-w", "-gline-tables-only"]
MODES = {
    "asan": ["-fsanitize=address"],
    "tsan": ["-fsanitize=thread"],
    "ubsan": ["-fsanitize=address,undefined", "-fno-sanitize=vptr,function", "-fno-sanitize-recover=all"],
    "memcheck": [],
}
# How a driver is started.
WRAP = {
    "memcheck": ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--leak-check=no", "--expensive-definedness-checks=yes"],
}


def tree_digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def files_under(d, exts):
    out = []
    for root, _, names in os.walk(d):
        for n in names:
            if os.path.splitext(n)[1] in exts:
                out.append(os.path.join(root, n))
    return sorted(out)


def build_driver(mode):
    """Compile the library's sources and the driver; returns the executable."""
    src = files_under(os.path.join(REPO, "src"), {".cpp", ".cc", ".cxx"})
    hdr = files_under(os.path.join(REPO, "include"), {".hpp", ".h", ".ipp", ".inl"}) + \
        files_under(os.path.join(REPO, "src"), {".hpp", ".h", ".ipp", ".inl"})
    drv = files_under(os.path.join(VERIF, "driver"), {".cpp"})
    dh = files_under(os.path.join(VERIF, "driver"), {".hpp"})
    tag = "%s-%s" % (mode, tree_digest(src + hdr + drv + dh + [os.path.abspath(__file__)]))
    out = os.path.join(BUILD, tag)
    exe = os.path.join(out, "driver")
    if os.path.exists(exe):
        return exe
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
    flags = CXX + MODES[mode] + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"),
                                 "-isystem", "/usr/include/eigen3"]

    def one(i_f):
        i, f = i_f
        o = os.path.join(tmp, "%d.o" % i)
        r = sh(flags + ["-O0" if f in drv else "-O1", "-c", f, "-o", o])
        if r.returncode != 0:
            raise Infra("compiling %s failed:\n%s" % (f, r.stdout[-3000:]))
        return o
    try:
        order = sorted(enumerate(src + drv), key=lambda e: -os.path.getsize(e[1]))
        with cf.ThreadPoolExecutor(CORES) as ex:
            objs = list(ex.map(one, order))
        r = sh(CXX + MODES[mode] + objs + ["-pthread", "-o", os.path.join(tmp, "driver")])
        if r.returncode != 0:
            raise Infra("linking failed:\n" + r.stdout[-3000:])
        for o in objs:
            os.unlink(o)
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    log("built %s driver in %.1fs" % (mode, time.time() - t0))
    # keep the last few builds only
    old = sorted((d for d in os.listdir(BUILD) if d.split("-")[0] in MODES),
                 key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
    for d in old[:-8]:
        shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    return exe


def build_java():
    src = files_under(os.path.join(VERIF, "java"), {".java"})
    out = os.path.join(BUILD, "classes-" + tree_digest(src))
    if os.path.isdir(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
    r = sh(["javac", "-d", tmp, "-cp", TLAJAR] + src)
    if r.returncode != 0:
        raise Infra("javac failed:\n" + r.stdout[-3000:])
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


# ------------------------------------------------------------------------ TLC

def spec_dir(module, workdir):
    """MCRat compares modules with renamed copies of themselves."""
    if module != "MCRat":
        return SPEC
    d = tempfile.mkdtemp(prefix="plain-", dir=workdir)
    for m in ("Rat", "Spline", "MCRat"):
        shutil.copy(os.path.join(SPEC, m + ".tla"), d)
    for m in ("Rat", "Spline"):
        with open(os.path.join(SPEC, m + ".tla")) as f:
            text = f.read()
        text = re.sub(r"MODULE %s\b" % m, "MODULE %sPlain" % m, text).replace("EXTENDS Rat,", "EXTENDS RatPlain,")
        with open(os.path.join(d, m + "Plain.tla"), "w") as f:
            f.write(text)
    return d


def tlc(module, cfg, workdir, env=None, timeout=600, workers=1, override=True, extra=(), heap="3g"):
    """Run TLC on spec/<module>.tla with the given cfg text; returns the output."""
    classes = build_java()
    tag = hashlib.sha256(cfg.encode()).hexdigest()[:8]
    name = "%s_%s_%d_%d" % (module, tag, os.getpid(), int(time.time() * 1e6) % 10**9)
    cfgfile = os.path.join(workdir, name + ".cfg")
    with open(cfgfile, "w") as f:
        f.write(cfg)
    meta = os.path.join(workdir, "meta-" + name)
    cmd = ["java", "-Djava.io.tmpdir=" + workdir, "-Xss64m", "-Xmx" + heap, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-XX:TieredStopAtLevel=4",
           "-Dtlc2.tool.queue.IStateQueue=StateDeque" if False else "-Dvq=1"]
    if override:
        cmd += ["-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:vq.Overrides"]
    cmd += ["-cp", classes + ":" + TLAJAR, "tlc2.TLC", "-deadlock", "-noGenerateSpecTE",
            "-metadir", meta, "-workers", str(workers), "-config", cfgfile] + list(extra) + \
        [os.path.join(spec_dir(module, workdir), module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           env=e, timeout=timeout, cwd=workdir)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as x:
        o = x.stdout or b""
        out, rc = (o.decode(errors="replace") if isinstance(o, bytes) else o), -1
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out


TRACE_CFG = """SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
VIEW TraceView
CHECK_DEADLOCK FALSE
"""


def validate_file(path, workdir, timeout=800, module="Trace"):
    """Returns (number of events accepted, number of events)."""
    rc, out = tlc(module, TRACE_CFG, workdir, env={"VQ_TRACE": path}, timeout=timeout)
    m = re.search(r'<<"VQ-ACCEPTED", (\d+), (\d+)>>', out)
    if m:
        return int(m.group(1)), int(m.group(2)), out
    # An evaluation error (e.g. a malformed result) stops TLC at an event: the
    # position in the last state says which one.
    pos = [int(x) for x in re.findall(r"^(?:/\\ )?pos = (\d+)", out, re.M)]
    if "Error:" in out and pos and rc != -1:
        n = sum(1 for _ in open(path))
        return pos[-1] - 1, n, out
    raise Infra("TLC gave no verdict on %s (rc %s):\n%s" % (path, rc, out[-3000:]))


# -------------------------------------------------------------------- running

class Behaviour:
    """A list of script lines, run from a fresh state."""

    def __init__(self, lines, origin):
        self.lines = lines
        self.origin = origin


def script_text(behs):
    return "".join("reset\n" + "\n".join(b.lines) + "\n" for b in behs)


ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:alloc_dealloc_mismatch=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=4096",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0",
}


def run_script(exe, behs, workdir, name, limit=40, max_crashes=40, shards=8):
    """Runs the behaviours; returns a list of event lists (one per behaviour)."""
    if shards > 1 and len(behs) >= 64:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(shards) as ex:
            parts = list(ex.map(lambda k: run_script(exe, behs[k::shards], workdir, "%s-%d" % (name, k), limit, max_crashes, 1), range(shards)))
        events = [None] * len(behs)
        for k in range(shards):
            events[k::shards] = parts[k]
        return events
    wrap = WRAP.get(os.path.basename(os.path.dirname(exe)).split("-")[0], [])
    if wrap:
        limit *= 10
    script = os.path.join(workdir, name + ".script")
    out = os.path.join(workdir, name + ".ndjson")
    scratch = os.path.join(workdir, name + ".files")
    os.makedirs(scratch, exist_ok=True)
    with open(script, "w") as f:
        f.write(script_text(behs))
    if os.path.exists(out):
        os.unlink(out)
    env = dict(os.environ)
    env.update(ENV)
    first = 0
    events = [None] * len(behs)
    crashes = hangs = 0
    while first < len(behs):
        open(out, "w").close()
        err = os.path.join(workdir, name + ".stderr")
        with open(err, "w") as ef:
            try:
                r = subprocess.run(wrap + [exe, script, out, str(first), scratch, str(limit)], stdout=ef, stderr=ef,
                                   env=env, timeout=1700)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                raise Infra("driver ran out of time")
        i = first - 1
        with open(out, errors="replace") as f:
            for line in f:
                if line.startswith('{"op":"reset"'):
                    i += 1
                    events[i] = []
                events[i].append(line.rstrip("\n"))
        if rc == 0:
            break
        if rc == 97 or i < first:
            raise Infra("driver failed (rc %d): %s" % (rc, open(err, errors="replace").read()[-2000:]))
        # the last behaviour ended in a crash, a hang or a race
        if events[i] and not events[i][-1].endswith("}"):
            events[i].pop()
        if rc != 98:
            what = "race" if rc == 66 else "crash"
            events[i].append(json.dumps({"op": what, "ok": 0, "rc": rc, "stderr": open(err, errors="replace").read()[-1500:]}))
        crashes += 1
        hangs += rc == 98
        first = i + 1
        if crashes >= max_crashes or hangs >= 2:
            break
    shutil.rmtree(scratch, ignore_errors=True)
    return events


def write_events(path, evs):
    n = 0
    with open(path, "w") as f:
        for ev in evs:
            for line in ev:
                f.write(line + "\n")
                n += 1
    return n


def cost(ev):
    return sum(len(l) for l in ev) + 200


def validate(evs, workdir, shards=CORES, timeout=800, module="Trace"):
    """evs: list of event lists (None = not run).  Returns the set of indices
    of rejected behaviours (at least one per shard with a rejection) and
    the number of behaviours and events accepted."""
    idx = [i for i, e in enumerate(evs) if e]
    shards = max(1, min(shards, len(idx)))
    bins = [[] for _ in range(shards)]
    load = [0] * shards
    for i in sorted(idx, key=lambda i: -cost(evs[i])):
        j = load.index(min(load))
        bins[j].append(i)
        load[j] += cost(evs[i])
    for b in bins:
        b.sort()

    def one(j):
        rejected, good, nev = [], 0, 0
        todo = bins[j]
        while todo:
            path = os.path.join(workdir, "shard%d.ndjson" % j)
            write_events(path, [evs[i] for i in todo])
            acc, total, out = validate_file(path, workdir, timeout, module)
            if acc >= total:
                good += len(todo)
                nev += total
                break
            # find the behaviour that contains event number acc + 1
            k = acc
            for pos, i in enumerate(todo):
                if k < len(evs[i]):
                    rejected.append((i, k, out))
                    good += pos
                    nev += acc - k
                    todo = todo[pos + 1:]
                    break
                k -= len(evs[i])
            if len(rejected) >= 3:
                break
        return rejected, good, nev
    with cf.ThreadPoolExecutor(CORES) as ex:
        res = list(ex.map(one, range(shards)))
    rej = sorted((r for x in res for r in x[0]), key=lambda r: r[0])
    return rej, sum(x[1] for x in res), sum(x[2] for x in res)


# --------------------------------------------------------------------- models

def run_model(module, cfg, workdir, timeout=600, workers=4, override=True, extra=(), heap="6g"):
    """Exhaustive TLC run.  Returns dict(states, transitions, behaviours, out).
    A violated invariant here is a defect of the specification: Infra."""
    t0 = time.time()
    rc, out = tlc(module, cfg, workdir, timeout=timeout, workers=workers, override=override, extra=extra, heap=heap)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if rc != 0 or not m or "Error:" in out:
        raise Infra("model %s failed (rc %d):\n%s" % (module, rc, out[-4000:]))
    behs = []
    for line in out.splitlines():
        if line.startswith('"VQ-B|'):
            body = line[len('"VQ-B|'):].rstrip()
            if body.endswith('"'):
                body = body[:-1]
            body = body.replace('\\"', '"').replace("\\\\", "\\")
            behs.append([files.render(l) if l.startswith("TXT ") else l for l in body.split(";")])
    gen, dist = int(m[-1][0]), int(m[-1][1])
    log("model %s: %d states, %d transitions, %d behaviours, %.1fs" % (module, dist, gen, len(behs), time.time() - t0))
    return {"module": module, "states": dist, "transitions": gen, "behaviours": behs, "wall": time.time() - t0}
