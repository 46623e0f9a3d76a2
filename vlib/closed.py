"""Closed models: the specification together with users that run a small fixed program (spec/MCTpp.tla).

TLC visits every behaviour the specification allows for the program and checks the theorems; the outcomes it finds
are compared with the outcomes of the real code under the explorer."""
import json
import os
import re
import subprocess

import engine

IDOPS = ("init", "reg", "spawn", "mkthread", "regn", "getid", "mainid", "sched", "list", "hid", "tassign", "tmove", "tswap")
INVARIANTS = ["Once", "InPlace", "Fifo", "Refused", "Consistent", "ReadyReleases", "Drained", "Free", "ContsRun", "Exclusive", "OneResult",
              "AllQueued", "ContAfter", "StoppedP", "Collected", "Notified", "Released", "Worked", "Gone", "AllSeen", "StrayFree",
              "OneHandle", "OneOwner", "HooksFirst", "DtorLast", "DtorAll",
              "Report"]
ACTIONS = ["OneShot", "ExitStays", "FreshIds", "ExitTruth", "TimeTruth", "ShutTruth", "ShutEmpty", "PwaitTruth", "JoinTruth", "GetTruth",
           "FwaitTruth", "AsyncTruth", "LockTruth", "DepthTruth", "StrayTruth", "ListTruth", "LogTruth", "LiveTruth"]

BASE = dict(e="c", t=-1, n=0, l=0, lg=0, ret=True, R={"v": -1, "z": ""}, o="", k=0, kt="n", kn=0, var=-1, x=-1, y=-1, d=0, f=-1,
            g=-1, i=-1, w="", p="d", fresh=0, vk="I", cx="", ob=-1, oa=-1, j=-1, l2=0, a=0, by=-1, fs=[], dt=-1, h=0, nm="", sh=0)
BASE["as"] = ""


def target(s):
    if s == "s":
        return {"kt": "s", "kn": 0}
    if s[0] == "v":
        return {"kt": "v", "kn": int(s[1:])}
    return {"kt": "n", "kn": int(s[1:])}


def pol(s):
    return "a" if s == "a" else "d"


def form(t, p):
    """2, 3: no thread named"""
    return (3 if p == "d" else 2) if t == "new" else (1 if p == "d" else 0)


def conv(line, kinds):
    """the call event of one operation of a program; None for what is not a call"""
    a = line.split()
    o, a = a[0], a[1:]
    if o == "yield":
        return None
    o = {"waituntil": "waitfor", "sleepuntil": "sleep", "fwaituntil": "fwaitfor", "cvwaituntil": "cvwaitfor", "destroy": "join",
         "pmovector": "passign", "cassign": "copy"}.get(o, o)
    r = dict(BASE, o=o)
    if o in ("init",):
        w = a[0] if a else ""
        r.update(var=0, h=("h" in w) + 2 * ("l" in w), nm="Main Thread")
    elif o == "reg":
        r.update(var=int(a[0]) if a else 63, nm=a[1] if len(a) > 1 else "")
    elif o in ("spawn", "mkthread", "sspawn"):
        nm = ("s" + a[0] if len(a) > 1 else "") if o == "spawn" else "" if o == "sspawn" or a[1:] == ["u"] else "w" + a[0]
        r.update(x=int(a[0]), var=int(a[0]), nm=nm)
    elif o in ("join", "await", "signal", "ulock", "uunlock", "cvone", "cvall", "mlock", "mtry", "munlock", "drop", "pstopall",
               "pwaitall", "pdestroy", "pcount", "put", "see", "hid", "tnull", "detach"):
        r["x"] = int(a[0])
    elif o in ("invoke", "dispatch"):
        r.update(target(a[0]), i=int(a[1]))
    elif o in ("notify", "nexit", "pend", "pname"):
        r.update(target(a[0]))
    elif o == "regn":
        r.update(var=int(a[0]), x=int(a[1]), nm=a[2] if len(a) > 2 else "")
    elif o in ("passign", "pswap", "tassign", "tswap", "tmove"):
        r.update(x=int(a[0]), y=int(a[1]))
    elif o in ("waitfor", "sleep", "busy", "processfor"):
        r["d"] = int(a[0])
    elif o == "shutdown":
        r["d"] = int(a[0]) * 1000
    elif o == "promise":
        r["x"] = int(a[0])
        kinds[int(a[0])] = a[1]
    elif o == "getfut":
        r.update(x=int(a[0]), f=int(a[1]))
    elif o == "setv":
        r.update(x=int(a[0]), w="v%d" % (0 if kinds.get(int(a[0])) == "V" else int(a[1])))
    elif o == "sete":
        r.update(o="setv", x=int(a[0]), w="u" + a[1])
    elif o == "abandon":
        r.update(o="setv", x=int(a[0]), w="broken")
    elif o in ("share", "copy", "fmove", "fswap"):
        r.update(f=int(a[0]), g=int(a[1]))
    elif o in ("fwait", "get", "ready", "err", "valid", "fdrop"):
        r["f"] = int(a[0])
    elif o == "fnull":
        r.update(g=int(a[0]), sh=int(a[1][0] == "s"))
    elif o == "vlive":
        r["w"] = "v" + a[0]
    elif o == "fwaitfor":
        r.update(f=int(a[0]), d=int(a[1]))
    elif o == "then":
        f = form(a[2], a[3])
        r.update(f=int(a[0]), g=int(a[1]), i=int(a[4]), p=pol(a[3]), vk=a[5], fresh=int(f >= 2))
        if f < 2:
            r.update(target(a[2]))
    elif o == "async":
        f = form(a[1], a[2])
        r.update(g=int(a[0]), i=int(a[3]), p=pol(a[2]), vk=a[4], fresh=int(f >= 2))
        if f < 2:
            r.update(target(a[1]))
    elif o == "mkready":
        r.update(g=int(a[0]), w="v%d" % (0 if a[1] == "V" else int(a[2])))
    elif o == "mkexc":
        r.update(o="mkready", g=int(a[0]), w="u" + a[2])
    elif o in ("whenall", "whenany"):
        r.update(g=int(a[0]), fs=[int(x) for x in a[3:]])
    elif o == "cvwait":
        r.update(x=int(a[0]), y=int(a[1]))
    elif o == "cvwaitfor":
        r.update(x=int(a[0]), y=int(a[1]), d=int(a[2]))
    elif o == "pool":
        r.update(x=int(a[0]), w=[int(x) for x in a[1:4]])
    elif o == "sched":
        d = a[2] == "-"
        r.update(x=int(a[0]), g=int(a[1]), l2=0 if d else int(a[2]), a=0 if d else int(a[3]), i=int(a[4]), vk=a[5])
    elif o in ("jstop", "pstop"):
        r.update(o="jstop", j=int(a[1]))
    elif o in ("jprio", "pprio"):
        r.update(o="jprio", j=int(a[1]), l2=int(a[2]), a=int(a[3]))
    elif o == "pwait":
        r.update(x=int(a[0]), j=int(a[1]))
    elif o not in ("getid", "isreg", "exitq", "depth", "process", "wait", "unreg", "mainid", "list"):
        raise ValueError("operation %s is not part of the closed models" % o)
    return r


def convert(text, written=True):
    scripts, tasks, cur, kinds, dt = [], [], None, {}, -1
    for line in text.split("\n"):
        a = line.split()
        if not a or a[0] in ("unit", "prios"):
            continue
        if a[0] == "thread":
            cur = {"a": int(a[1]), "ops": []}
            scripts.append(cur)
        elif a[0] == "task":
            cur = {"i": int(a[1]), "ops": [], "z": "v" + a[1], "x": 0}
            tasks.append(cur)
        elif a[0] == "ret":
            cur["z"] = "v" + a[1]
        elif a[0] == "throw":
            cur.update(z="u" + a[1], x=1)
        elif a[0] == "carry":
            dt = int(a[1])
        else:
            c = conv(line, kinds)
            if c:
                cur["ops"].append(dict(c, dt=dt))
                dt = -1
    return {"scripts": scripts, "tasks": tasks, "onef": len(kinds) == 1 and not re.search(r"^(then|async|sched|mkready|when\w+) ", text, re.M),
            "handed": written and "see " in text, "logged": bool(re.search(r"^init h?l", text, re.M)) and "shutdown" not in text, "exits": bool(re.search(r"^(nexit|join|shutdown) ", text, re.M))}


def possible(text):
    try:
        return bool(convert(text))
    except (ValueError, IndexError):
        return False


def outcome(ev):
    """what every thread observed in a recorded execution, in the form MCTpp prints it"""
    h = {}
    for e in ev:
        if e["e"] == "r":
            h.setdefault(e["t"], []).append([e["o"], -1 if e["o"] in IDOPS else e.get("v", -1), e.get("z", "")])
        elif e["e"] == "b":
            h.setdefault(e["t"], []).append(["b", e["i"], e["z"]])
        elif e["e"] in ("h", "l"):
            h.setdefault(e["t"], []).append([e["e"], -1, e["w"]])
    return {str(k): v for k, v in h.items() if v}


def canon(o):
    """the workers of pools have no names of their own"""
    h = {k: v for k, v in o.items() if v and int(k) < 2000}
    return json.dumps([h, sorted(v for k, v in o.items() if v and int(k) >= 2000)], sort_keys=True)


def start(w, text, enf=None, written=True):
    """written: a program written as a model, not a drawn one; it looks only for what it was handed"""
    pf, cf, md = w.path("prog"), w.path("mc") + ".cfg", w.path("mcmeta")
    with open(pf, "w") as f:
        f.write(json.dumps(convert(text, written)) + "\n")
    with open(cf, "w") as f:
        f.write("SPECIFICATION MSpec\nCONSTANTS\n  Enf = {%s}\n  TolLow = 0\n  TolUp = 0\nCHECK_DEADLOCK FALSE\n" % (
            ", ".join('"%s"' % x for x in (enf or engine.ASPECTS))))
        f.write("".join("INVARIANT %s\n" % x for x in INVARIANTS) + "".join("PROPERTY %s\n" % x for x in ACTIONS))
    env = dict(os.environ, TPP_PROG=pf)
    cmd = ["java", "-XX:+UseSerialGC", "-Xmx2g", "-Xss16m", "-cp", engine.CP, "tlc2.TLC", "-metadir", md, "-workers", "1",
           "-noGenerateSpecTE", "-fp", "0", "-config", cf, os.path.join(engine.SPEC, "MCTpp.tla")]
    return subprocess.Popen(cmd, cwd=w.dir, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), (pf, cf, md)


def finish(w, p, files, limit):
    done, _, states, trans, out = w.collect(p, files, limit)
    outs = set()
    for m in re.findall(r'<<\s*"OUT",\s*"(.*?)"\s*>>', out, re.S):
        outs.add(canon(json.loads(re.sub(r"\n\s*", "", m).replace('\\"', '"').replace("\\\\", "\\"))))
    return done, states, trans, outs, out


if __name__ == "__main__":
    import sys
    w = engine.Work(True, True)
    try:
        text = open(sys.argv[1]).read()
        done, s, t, outs, out = finish(w, *start(w, text), 600)
        print("done" if done else out[-6000:], s, t, len(outs))
        if len(sys.argv) > 2:
            for o in sorted(outs):
                print(o)
    finally:
        w.close()
