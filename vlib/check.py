#!/usr/bin/env python3
"""Decides one property:  check.py <property id>   or   check.py --replay <file>

Builds the driver from /repo's working tree, runs the property's programs under many schedules, and lets TLC
decide whether every recorded execution is a behaviour of spec/Tpp.tla with the property's aspects enforced.
Exit 0: held.  Exit 1: violation (confirmed by running the same schedule again).  Exit 2: the check itself failed."""
import json
import os
import random
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine
import models
import props
from engine import CheckError, NCPU, Prog, ROOT, Trace, Work

EVID = os.path.join(ROOT, "evidence")


def show(e):
    d = {k: v for k, v in e.items() if k not in ("R", "ret", "l", "l2")}
    return json.dumps(d)


def report(w, pid, t, aspects, at):
    """writes the replay file of a confirmed violation"""
    os.makedirs(EVID, exist_ok=True)
    path = os.path.join(EVID, "%s-violation.json" % pid)
    ev = t.prepared()
    with open(path, "w") as f:
        json.dump({"property": pid, "aspects": aspects, "program_name": t.prog.name, "unit": t.prog.unit,
                   "program": t.prog.text, "schedule": t.key,
                   "how_to_replay": "python3 vlib/check.py --replay " + path,
                   "specification_follows_until": at,
                   "first_event_not_allowed": show(ev[at]) if at < len(ev) else "the end of the execution",
                   "trace": [show(e) for e in ev]}, f, indent=1)
    print("program %s: the specification follows %d of %d events, then does not allow: %s" % (
        t.prog.name, at, len(ev), show(ev[at]) if at < len(ev) else "the end"))
    return path


def confirm(w, cfg, rejected, limit=NCPU * 2):
    """The traces were rejected by the whole specification.  Finds one that violates this property: its aspects alone
    reject it, or it is accepted once they are left out.  The schedule is run again and must give the same answer.
    Returns (trace, enforced aspects, last event followed) and the number of unrepeated traces"""
    seen, first, more = set(), [], []
    mine, _, _ = w.validate(rejected, cfg.aspects, limit=100)
    for t in sorted(rejected, key=lambda t: (t not in mine, len(t.ev))):
        (more if t.prog.name in seen else first).append(t)
        seen.add(t.prog.name)
    pick = (first + more)[:limit]
    lost = 0
    again = []
    for t in pick:
        r = w.replay(t)
        if r.ev == t.ev:
            again.append(r)
        else:
            lost += 1
    own = w.judge(again, cfg.aspects, 45)
    for t, ok in zip(again, own):
        if ok is False:
            return (t, cfg.aspects, w.diagnose(t, cfg.aspects)[2]), lost
    rest = [a for a in engine.ASPECTS if a not in cfg.aspects]
    for t, o, ok in zip(again, own, w.judge(again, rest, 45)):
        if ok or (o is None and ok is None):     # the rejection is certain, if TLC cannot tell the reason it counts
            return (t, engine.ASPECTS, w.diagnose(t, engine.ASPECTS)[2]), lost
    return None, lost


def settle(w, errors):
    """traces the specification gives no meaning to: one that does so again when its schedule is repeated"""
    for t, out in errors:
        if engine.undefined(out):
            r = w.replay(t)
            if r.ev == t.ev:
                return r, engine.ASPECTS, w.diagnose(r, engine.ASPECTS)[2]
    return None


def run(pid):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    cfg = props.PROPS[pid]
    w = Work(cfg.when, cfg.args)
    violation = None
    try:
        w.build()
        tot = dict(programs=0, schedules_run=0, distinct_traces_seen=0, schedule_points=0, traces=0, states=0,
                   transitions=0, unrepeatable=0, other=0)
        samples, mstats, errs, shown = [], [], [], []
        deadline = t0 + (780 if tier == "thorough" else 0)
        rnd = 0
        small = models.choose(random.Random("%s-%d-models" % (pid, seed)), cfg, tier)
        while True:
            rng = random.Random("%s-%d-%d" % (pid, seed, rnd))
            progs = cfg.programs(rng, tier) + (models.programs(small, tier) if rnd == 0 else [])
            traces, st = w.explore(progs, seed * 1000 + rnd, cfg.explore_s * (3 if tier == "thorough" else 1))
            rejected, errors, vs = w.validate(traces, engine.ASPECTS)
            tot["programs"] += len(progs)
            tot["schedules_run"] += st["runs"]
            tot["distinct_traces_seen"] += st["distinct"]
            tot["schedule_points"] += st["points"]
            for k in ("traces", "states", "transitions"):
                tot[k] += vs[k]
            if len(samples) < 3:
                for t in sorted(traces, key=lambda t: len(t.ev))[len(traces) // 2:][:1]:
                    samples.append({"program": t.prog.text.split("\n"), "schedule": t.key,
                                    "trace": [show(e) for e in t.prepared()][:60]})
            if rnd == 0:
                shown = [t for t in traces if t.prog.name.startswith("closed:")]
            if rejected:
                found, lost = confirm(w, cfg, rejected)
                tot["unrepeatable"] += lost
                tot["other"] += len(rejected)
                if found:
                    violation = report(w, pid, *found)
                    break
            found = settle(w, errors)
            if found:
                violation = report(w, pid, *found)
                break
            errs += errors
            if errors:
                break
            if st["bad"] * 20 > st["runs"]:
                raise CheckError("too many executions exceeded the recording limits: %r" % st)
            rnd += 1
            if tier == "quick" or time.time() + (time.time() - t0) / rnd > deadline:
                break
        if not violation:
            mstats = models.compare(models.search(w, small, tier), shown)
            for m in mstats:
                tot["states"] += m["states"]
                tot["transitions"] += m["transitions"]
        if errs and not violation:
            t, out = errs[0]
            raise CheckError("TLC failed on a trace of program %s:\n%s\n%s" % (t.prog.name, t.prog.text, out[-3000:]))
        if tot["traces"] == 0:
            raise CheckError("no trace was validated")
    finally:
        w.close()
    cov = {"states": tot["states"], "transitions": tot["transitions"], "traces_validated_against_impl": tot["traces"],
           "programs": tot["programs"], "schedules_executed": tot["schedules_run"],
           "schedules_with_distinct_trace": tot["distinct_traces_seen"], "scheduling_points": tot["schedule_points"],
           "rejected_traces": tot["other"], "rejections_not_repeated": tot["unrepeatable"], "aspects_of_the_property": cfg.aspects, "samples": samples}
    if mstats:
        cov["closed_models"] = mstats
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "wall_s": round(time.time() - t0, 1), "violations": 1 if violation else 0,
          "assumptions": ["interleavings are sequentially consistent", "virtual clock", "bounded programs and sampled schedules"]}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if violation:
        print("VIOLATION property=%s replay=%s" % (pid, violation))
        return 1
    print("%s held: %d programs, %d schedules, %d traces validated (%d not allowed for other reasons), %d states, %.0f s" % (
        pid, tot["programs"], tot["schedules_run"], tot["traces"], tot["other"], tot["states"], time.time() - t0))
    return 0


def replay(path):
    d = json.load(open(path))
    w = Work(True, True)
    try:
        w.build()
        t = w.replay(Trace(Prog(d["program"], d["program_name"]), d["schedule"], []))
        done, ok, at, out = w.diagnose(t, d["aspects"])
        for i, e in enumerate(t.prepared()):
            print(("  " if i != at else "> ") + show(e))
        print("accepted" if ok else "not allowed at event %d" % (at + 1))
        return 0 if ok else 1
    finally:
        w.close()


if __name__ == "__main__":
    try:
        sys.exit(replay(sys.argv[2]) if sys.argv[1] == "--replay" else run(sys.argv[1]))
    except CheckError as e:
        print("CHECK ERROR: %s" % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        print("CHECK ERROR: unexpected")
        sys.exit(2)
