"""The closed models of a property: exhaustive search of the specification on small programs, and the same programs
run by the real code."""
import os
import random
import time

import closed
import templates
from engine import CheckError, NCPU, Prog, ROOT

DIR = os.path.join(ROOT, "spec", "closed")


def text(name):
    with open(os.path.join(DIR, name + ".txt")) as f:
        return f.read()


def size(t):
    return len([x for x in t.split("\n") if x and x.split()[0] not in ("thread", "task", "unit", "prios")])


def choose(rng, cfg, tier):
    """the models written for the property, and small programs of its templates"""
    out = {n: text(n) for n in cfg.models}
    want = len(out) + (24 if tier == "thorough" else 3)
    for _ in range(400):
        if len(out) >= want or not cfg.temps:
            break
        n = rng.choice(cfg.temps)
        t = getattr(templates, "t_" + n)(random.Random(rng.random()))
        if size(t) <= (13 if tier == "thorough" else 11) and closed.possible(t):
            out["%s~%d" % (n, len(out))] = t
    return out


def programs(texts, tier):
    k = 4 if tier == "thorough" else 1
    return [Prog(t, "closed:" + n, runs=400 * k if "~" not in n else 200, traces=30 * k if "~" not in n else 16, adv=40, spur=10)
            for n, t in texts.items()]


def search(w, texts, tier="quick"):
    """TLC on every program; returns the allowed outcomes and the statistics by name.  Programs that were not written as models may be
    too large and are given up after a while"""
    out, todo, run = {}, sorted(texts, key=lambda n: "~" in n), []
    while todo or run:
        while todo and len(run) < NCPU:
            n = todo.pop(0)
            run.append((n, time.time() + (300 if "~" not in n else 90 if tier == "thorough" else 30)) + closed.start(w, texts[n], written="~" not in n))
        n, end, p, files = run.pop(0)
        done, s, t, outs, txt = closed.finish(w, p, files, max(5 if "~" not in n else 0, end - time.time()))
        if not done and "~" in n and "Error:" in txt:
            at = txt.find("Error:")
            print("note: a theorem does not hold on the drawn program %s (this says nothing about the code):\n%s\n%s" % (
                n, texts[n], txt[at:at + 300]))
        elif not done and "~" not in n:
            for x in run:
                x[2].kill()
                x[2].communicate()
            at = txt.find("Error:")
            raise CheckError("the closed model %s failed:\n%s\n%s\n...\n%s" % (n, texts[n], txt[at:at + 600], txt[-1500:]))
        if done:
            out[n] = (outs, s, t)
    return out


def compare(found, traces):
    """per model: how many of the allowed outcomes the real code showed"""
    seen = {}
    for t in traces:
        if t.prog.name.startswith("closed:") and t.ev and t.ev[-1]["e"] in ("done", "stuck"):
            seen.setdefault(t.prog.name[7:], set()).add(closed.canon(closed.outcome(t.prepared())))
    return [{"model": n, "states": s, "transitions": t, "outcomes_allowed": len(outs),
             "outcomes_shown_by_implementation": len(seen.get(n, set()) & outs),
             "outcomes_not_in_the_model": len(seen.get(n, set()) - outs)} for n, (outs, s, t) in sorted(found.items())]
