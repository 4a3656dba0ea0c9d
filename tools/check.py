#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]     run the check of one property
   check.py --replay FILE                  run one recorded script again"""
import argparse
import concurrent.futures as cf
import hashlib
import json
import os
import random
import shutil
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
from core import VERIF, Behaviour, Infra, log

FINDINGS = os.path.join(VERIF, "known-findings.txt")
REPLAYS = os.path.join(VERIF, "replays")


def known_findings(prop):
    """Open findings: lines  'finding: property=ID script=HASH text'."""
    out = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            w = line.split(None, 3)
            if len(w) == 4 and w[0] == "finding:" and w[1] == "property=" + prop:
                out[w[2].split("=", 1)[1]] = w[3].strip()
    return out


def script_hash(lines):
    return hashlib.sha256("\n".join(lines).encode()).hexdigest()[:16]


def write_replay(prop, mode, behs, event, why):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-%s.json" % (prop, script_hash(behs[-1].lines)))
    with open(path, "w") as f:
        json.dump({"property": prop, "mode": mode, "script": [b.lines for b in behs], "rejected_event": event[:20000],
                   "why": why}, f, indent=1)
    return path


def interesting(out):
    """The part of TLC's output that says why evaluation stopped."""
    i = out.find("Error:")
    return out[i:i + 1500] if i >= 0 else "the specification has no step with these arguments and this result"


def confirm(exe, prop, mode, behs, i, k, out, workdir, evs, module):
    """Shrink: the behaviour alone, if that is enough, else everything before it."""
    event = evs[i][k]
    why = interesting(out)
    try:
        one = core.run_script(exe, [behs[i]], workdir, "alone%d" % i)
        rej, _, _ = core.validate(one, workdir, 1, module=module)
        if rej:
            b = behs[i]
            # drop commands that are not needed to see the rejection
            cut = Behaviour(b.lines[:max(1, k)], b.origin)
            if "par" not in " ".join(l.split()[0] for l in b.lines if l):
                r2, _, _ = core.validate(core.run_script(exe, [cut], workdir, "cut%d" % i), workdir, 1, module=module)
                if r2:
                    b = cut
            return write_replay(prop, mode, [b], event, why)
    except Infra as e:
        log("while shrinking:", e)
    return write_replay(prop, mode, behs[:i + 1], event, why + " (seen after the behaviours before it in the same process)")


def run(prop, tier, seed):
    import props
    t0 = time.time()
    spec = props.P[prop]
    T = spec.quick if tier == "quick" else spec.thorough
    os.makedirs(core.BUILD, exist_ok=True)
    workdir = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=core.BUILD)
    try:
        core.build_java()
        with cf.ThreadPoolExecutor(8) as ex:
            fexe = [ex.submit(core.build_driver, m) for m in spec.modes]
            fm = [ex.submit(core.run_model, m[0], m[1], workdir, 3000 if tier == "thorough" else 600,
                            4 if tier == "quick" else 8) for m in T.models]
            rnd = []
            for n, (g, cnt) in enumerate(T.rand):
                R = random.Random("%s/%s/%d/%s" % (prop, g.__name__, seed, tier))
                rnd.append(list(g(R, cnt)))
            models = [f.result() for f in fm]
            exes = [f.result() for f in fexe]
        behs = []
        for m in models:
            behs += [Behaviour(b, m["module"]) for b in (m["behaviours"] if "render" not in m else m["render"])]
        for r in rnd:
            behs += r
        behs = props.finish(prop, behs) if hasattr(props, "finish") else behs
        allbehs, allevs, good, nev, replays, byform = [], [], 0, 0, [], {}
        known = known_findings(prop)
        for mode, exe in zip(spec.modes, exes):
            part = behs[::spec.every.get(mode, 1)]
            t1 = time.time()
            evs = core.run_script(exe, part, workdir, "script-" + mode)
            t2 = time.time()
            rej, g, n = core.validate(evs, workdir, module=spec.module)
            t3 = time.time()
            log("%s (%s): %d behaviours, %d events; driver %.1fs, trace validation %.1fs" % (
                prop, mode, len(part), sum(len(e) for e in evs if e), t2 - t1, t3 - t2))
            bad = []
            for i, k, out in rej:
                h = script_hash(part[i].lines)
                if h in known:
                    print("KNOWN-FINDING: property=%s %s" % (prop, known[h]), flush=True)
                    continue
                bad.append((i, k, out))
            for i, k, out in bad[:2]:
                replays.append(confirm(exe, prop, mode, part, i, k, out, workdir, evs, spec.module))
            allbehs += part
            allevs += evs
            good += g
            nev += n
            byform[mode] = len(part)
            if replays:
                break
        behs, evs = allbehs, allevs
        events = sum(len(e) for e in evs if e)
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": props.LEVEL,
            "wall_s": round(time.time() - t0, 1),
            "coverage": {
                "states": sum(m["states"] for m in models),
                "transitions": sum(m["transitions"] for m in models),
                "models": [{"module": m["module"], "states": m["states"], "transitions": m["transitions"],
                            "behaviours": len(m["behaviours"])} for m in models],
                "traces_validated_against_impl": good,
                "events_validated_against_impl": nev,
                "events_recorded": events,
                "samples": samples(behs, evs),
                "random_behaviours": {g.__name__: len(r) for (g, _), r in zip(T.rand, rnd)},
                "operations": count_ops(evs),
                "behaviours_by_build": byform,
            },
            "violations": len(replays),
            "assumptions": props.ASSUMPTIONS,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for r in replays:
            print("VIOLATION property=%s replay=%s" % (prop, r), flush=True)
        log("%s %s: %s in %.1fs" % (prop, tier, "VIOLATED" if replays else "held", time.time() - t0))
        return 1 if replays else 0
    finally:
        shutil.rmtree(workdir, ignore_errors=True)


def samples(behs, evs):
    """A few of the behaviours of this run, with the last event of each."""
    out, seen = [], {}
    for b, e in zip(behs, evs):
        if e and seen.setdefault(b.origin, 0) < 2:
            seen[b.origin] += 1
            out.append({"origin": b.origin, "script": [l[:300] for l in b.lines[:12]], "last_event": e[-1][:600]})
    return out


def count_ops(evs):
    out = {}
    for e in evs:
        for line in e or ():
            if line.startswith('{"op":"'):
                op = line[7:line.index('"', 7)]
                out[op] = out.get(op, 0) + 1
    return out


def replay(path):
    d = json.load(open(path))
    workdir = tempfile.mkdtemp(prefix="replay-")
    try:
        exe = core.build_driver(d["mode"])
        behs = [Behaviour(l, "replay") for l in d["script"]]
        evs = core.run_script(exe, behs, workdir, "script")
        import props
        rej, good, nev = core.validate(evs, workdir, module=props.P[d["property"]].module)
        if rej:
            i, k, out = rej[0]
            print("rejected: behaviour %d, event %d" % (i, k))
            print(evs[i][k][:4000])
            print(interesting(out))
            print("VIOLATION property=%s replay=%s" % (d["property"], path))
            return 1
        print("accepted: %d events" % nev)
        return 0
    finally:
        shutil.rmtree(workdir, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    try:
        if a.replay:
            sys.exit(replay(a.replay))
        sys.exit(run(a.prop, a.tier, a.seed))
    except Infra as e:
        print("[vq] machinery failure: %s" % e, file=sys.stderr)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)


if __name__ == "__main__":
    main()
