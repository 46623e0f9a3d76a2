"""Turns the event list of one recorded execution into the form TppTrace.tla reads.

Only renaming and annotation happens here, no judgement:
  * thread numbers become agent numbers (script i, library thread i, 1000+g for the one-shot
    thread behind async/then g, 2000+100p+i for the i-th worker of pool p that shows itself);
  * every call event gets the result its return event reports (R, ret) and its position (l);
  * a call that hands over a task says when and where that task begins (ob, oa; 0 never);
  * an end event says whether the task threw (x); a scheduled job names the worker that runs it (by).
"""


ARGOPS = ("invoke", "dispatch", "async", "then", "sched")


def prep(ev, unit=1):
    ev = [dict(e) for e in ev]
    # results, calls of each thread are properly nested
    stack = {}
    lib = {}        # library id -> agent, for threads made by mkthread
    fresh = {}      # task -> agent of its one-shot thread
    jobs = {}       # task -> pool
    sched = {}      # task -> sched call
    for n, e in enumerate(ev, 1):
        if e["e"] in ("k", "done", "stuck", "live", "crash"):
            e["n"] //= unit
            if e["e"] == "k":
                e["lg"] = [[t, v // unit + (unit > 1)] for t, v in e.get("lg", [])]
        if e["e"] == "c":
            e["l2"] = e.get("l", 0)
            e["l"] = n
            e["ret"] = False
            e.setdefault("dt", -1)
            e["R"] = {"v": -1, "z": "-"}
            stack.setdefault(e["t"], []).append(e)
            if e["o"] in ARGOPS:
                e.setdefault("as", "")
                e.setdefault("cx", "")
            if e["o"] in ("async", "then") and e["fresh"]:
                fresh[e["i"]] = 1000 + e["g"]
            if e["o"] == "sched":
                e["by"] = -1
                jobs[e["i"]] = e["x"]
                sched[e["i"]] = e
        elif e["e"] == "r":
            e.setdefault("z", "")
            if not stack.get(e["t"]) or stack[e["t"]][-1]["o"] != e["o"]:
                e["e"] = "odd"          # not a return of the innermost call: no behaviour of the specification
                continue
            c = stack[e["t"]].pop()
            c["ret"] = True
            if e["o"] in ARGOPS:
                e.setdefault("ca", "")
            c["R"] = {k: v for k, v in e.items() if k not in ("e", "t", "o", "n")}
            c["R"].setdefault("v", -1)
            c["R"].setdefault("z", "")
            if e["o"] == "mkthread":
                lib[e["v"]] = c["x"]
        elif e["e"] == "b":
            e.setdefault("as", "")
        elif e["e"] == "f":
            e["x"] = 1 if e["z"].startswith("u") else 0
    names = {e["nm"]: e["x"] for e in ev if e["e"] == "c" and e["o"] == "mkthread" and e["nm"]}
    who = {}        # thread -> the first event that tells which one it is
    for e in ev:
        t = e.get("t")
        if t in who:
            continue
        if e["e"] == "S" or e["e"] in ("b", "h") and e["k"] in lib or e["e"] == "b" and (e["i"] in fresh or e["i"] in jobs):
            who[t] = e
    begun = {}      # task -> when and on which thread it begins
    for n, e in enumerate(ev, 1):
        if e["e"] == "b":
            begun.setdefault(e["i"], (n, e))
    for e in ev:
        if e["e"] == "c" and e["o"] in ARGOPS:
            e["ob"] = begun[e["i"]][0] if e["i"] in begun else 0
    agent = {}
    nwork = {}
    for e in ev:
        t = e.get("t")
        if t is None:
            if e["e"] == "k":
                e["lg"] = [[agent[a], v] for a, v in e["lg"] if a in agent]
            continue
        if t not in agent:
            w = who.get(t, e)
            if w["e"] == "S":
                agent[t] = w["i"]
            elif w["e"] in ("b", "h") and w["k"] in lib:
                agent[t] = lib[w["k"]]
            elif w["e"] == "b" and w["i"] in fresh:
                agent[t] = fresh[w["i"]]
            elif w["e"] == "b" and w["i"] in jobs:
                p = jobs[w["i"]]
                agent[t] = 2000 + 100 * p + nwork.get(p, 0)
                nwork[p] = nwork.get(p, 0) + 1
            elif w["e"] == "h" and w["z"] in names:
                agent[t] = names[w["z"]]
            else:
                agent[t] = 9000 + t
        e["t"] = agent[t]
        if e["e"] == "b" and e["i"] in sched and sched[e["i"]]["by"] == -1:
            sched[e["i"]]["by"] = e["t"]
    for e in ev:
        if e["e"] == "c" and e["o"] in ARGOPS:
            e["oa"] = begun[e["i"]][1]["t"] if e["i"] in begun else -1
    return ev
