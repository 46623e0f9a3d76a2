"""Programs for situations that random programs reach too rarely, one function per situation.  Each draws the
details (who, how many, which call, how long) at random."""


class P:
    """a program under construction; main is thread 0"""

    def __init__(self, rng, unit=1):
        self.rng, self.unit = rng, unit
        self.thr, self.tsk = {0: ["init"]}, {}
        self.nt = self.nf = self.np = self.nh = 0
        self.pr = 0

    def m(self, *ops):
        self.thr[0] += ops

    def t(self, h, *ops):
        self.thr[h] += ops

    def loop(self):
        self.nh += 1
        self.m("mkthread %d %s" % (self.nh, self.rng.choice(["", "s", "u"])))
        return self.nh

    def script(self, std=False, reg=True, start=True):
        """a thread of the program; started where the call stands"""
        self.nh += 1
        h = self.nh
        self.thr[h] = ["reg %d" % h] if reg else []
        if start:
            self.m(("sspawn %d" if std else "spawn %d") % h)
        return h

    def task(self, *ops):
        self.nt += 1
        if ops:
            self.tsk[self.nt] = list(ops)
        return self.nt

    def tasks(self, n):
        self.nt += n
        return self.nt - n + 1

    def fut(self):
        self.nf += 1
        return self.nf

    def prom(self, kind="I", shared=0):
        """promise, future (and copies of its shared future)"""
        p, f = self.np, self.fut()
        self.np += 1
        self.m("promise %d %s" % (p, kind), "getfut %d %d" % (p, f))
        if not shared:
            return p, f
        g = self.fut()
        self.m("share %d %d" % (f, g))
        cs = []
        for _ in range(shared):
            c = self.fut()
            self.m("copy %d %d" % (g, c))
            cs.append(c)
        return p, cs

    def text(self):
        out = []
        if self.unit != 1:
            out.append("unit %d" % self.unit)
        if self.pr:
            out.append("prios %d" % self.pr)
        for i in sorted(self.thr):
            out += ["thread %d" % i] + self.thr[i]
        for t in sorted(self.tsk):
            out += ["task %d" % t] + self.tsk[t]
        return "\n".join(x.strip() for x in out) + "\n"


def finish(p, join=0.5):
    """main ends, sometimes after joining everybody"""
    if p.rng.random() < join:
        for h in range(1, p.nh + 1):
            p.m("join %d" % h)
    return p.text()


def dur(r):
    return r.choice([r.randint(200, 3000), r.randint(200, 3000), 1000, 2000])


def fulfil(r, p):
    return r.choice(["setv %d %d" % (p, r.randint(1, 90))] * 3 + ["sete %d %d" % (p, r.randint(1, 90)), "abandon %d" % p])


# ---------------------------------------------------------------- tasks
def t_bursts(r):
    """several senders, bursts across the capacity limits of the inbox"""
    p = P(r)
    w = p.loop() if r.random() < 0.6 else p.script()
    if p.thr.get(w):
        p.t(w, *(["process", "waitfor %d" % dur(r), "process", "wait"][:r.randint(2, 4)]))
    if r.random() < 0.6:
        p.m("config v%d %d %d" % (w, r.choice([0, 1, 2]), r.choice([0, 1, 2, 3])))
    n = r.choice([3, 5, 8, 14])
    for _ in range(r.randint(1, 2)):
        s = p.script()
        p.t(s, "burst v%d %d %d" % (w, p.tasks(n), n))
        if r.random() < 0.5:
            p.t(s, "invoke v%d %d" % (w, p.task()))
    p.m("burst v%d %d %d" % (w, p.tasks(n), n))
    if r.random() < 0.5:
        p.m("busy 500", "burst v%d %d %d" % (w, p.tasks(2), 2))
    if r.random() < 0.3:
        p.m("pend v%d" % w)
    return finish(p, 0.2)


def pumps(r, p):
    """a call that runs tasks of the calling thread for a bounded time"""
    return r.choice(["process", "waitfor %d" % dur(r), "sleep %d" % dur(r), "processfor %d" % dur(r)])


def t_nested(r):
    """tasks that run the following tasks from inside themselves, also from dispatched ones"""
    p = P(r)
    who = r.choice(["loop", "script", "main"])
    w = 0 if who == "main" else p.loop() if who == "loop" else p.script()
    k = p.tasks(0)
    deep = []
    for _ in range(r.randint(1, 3)):
        body = [pumps(r, p)]
        if r.random() < 0.5:
            body.append("invoke s %d" % p.task())
        if r.random() < 0.4:
            body.append("dispatch s %d" % p.task(pumps(r, p)))
        if r.random() < 0.4:
            body.append(pumps(r, p))
        deep.append(p.task(*body))
    s = p.script()
    seq = ["invoke v%d %d" % (w, x) for x in deep] + ["burst v%d %d %d" % (w, p.tasks(2), 2), "invoke v%d %d" % (w, p.task())]
    if r.random() < 0.5:
        r.shuffle(seq)
    p.t(s, *seq)
    if who == "script":
        p.t(w, "waitfor %d" % dur(r), "process", pumps(r, p), "process")
    if r.random() < 0.5:
        p.m("burst v%d %d 3" % (w, p.tasks(3)))
    if who == "main":
        p.m(pumps(r, p), "process", pumps(r, p), "join %d" % s, "process")
        return p.text()
    return finish(p, 0.2)


def t_senders(r):
    """many senders against a thread that goes to sleep and wakes up again"""
    p = P(r)
    w = p.loop() if r.random() < 0.4 else p.script()
    if w in p.thr:
        p.t(w, *[r.choice(["wait", "waitfor %d" % dur(r), "wait", "serve"]) for _ in range(r.randint(1, 3))])
    for _ in range(r.randint(2, 3)):
        s = p.script()
        for _ in range(r.randint(1, 3)):
            p.t(s, r.choice(["invoke v%d %d", "invoke v%d %d", "dispatch v%d %d"]) % (w, p.task()))
            if r.random() < 0.3:
                p.t(s, "busy %d" % dur(r))
        if r.random() < 0.3:
            p.t(s, "notify v%d" % w)
    return finish(p, 0.3)


def t_dead(r):
    """ids that are not (or no longer) registered"""
    p = P(r)
    a = p.script()
    p.t(a, *(["unreg", "invoke n%d %d" % (r.choice([0, 99]), p.task())] if r.random() < 0.5 else ["waitfor 500"]))
    b = p.loop()
    p.m("invoke v%d %d" % (b, p.task()), "join %d" % a)
    for _ in range(r.randint(1, 3)):
        p.m("%s v%d %d" % (r.choice(["invoke", "dispatch"]), a, p.task()))
    p.m("%s n%d %d" % (r.choice(["invoke", "dispatch"]), r.choice([0, 1000, 77]), p.task()))
    c = p.script()
    p.t(c, "invoke v%d %d" % (b, p.task()), "waitfor 800")
    p.m("%s %d" % (r.choice(["join", "destroy"]), b))
    p.m("invoke v%d %d" % (b, p.task()), "invoke v%d %d" % (c, p.task()))
    if r.random() < 0.5:
        d = p.loop()
        p.m("invoke v%d %d" % (a, p.task()), "invoke v%d %d" % (d, p.task()))
    return p.text()


def t_selfdisp(r):
    """dispatch and invoke to the own thread, with nesting"""
    p = P(r)
    w = r.choice([0, p.loop(), p.script()])
    inner = p.task("dispatch s %d" % p.task(), "invoke s %d" % p.task("dispatch s %d" % p.task()))
    outer = p.task("dispatch s %d" % inner, pumps(r, p) if r.random() < 0.5 else "yield")
    if w == 0:
        p.m("dispatch s %d" % outer, "dispatch v0 %d" % p.task(), "process")
    else:
        p.m("invoke v%d %d" % (w, outer), "dispatch v%d %d" % (w, p.task()))
        if w in p.thr:
            p.t(w, "dispatch s %d" % p.task(), "waitfor %d" % dur(r), "process")
    return finish(p, 0.3)


# ---------------------------------------------------------------- blocking calls
def blocked(r, p, q, what=None):
    """operations that block thread q's script until somebody releases it; returns (ops, releasing ops)"""
    what = what or r.choice(["wait", "waitfor", "sleep", "fwait", "fwaitfor", "get", "cvwait", "cvwaitfor", "mlock", "pwait", "pwaitall"])
    if what == "wait":
        return ["wait"], []
    if what in ("waitfor", "sleep"):
        return ["%s %d" % (r.choice([what, what, "waituntil" if what == "waitfor" else "sleepuntil"]), dur(r))], []
    if what in ("fwait", "get", "fwaitfor"):
        pr, f = p.prom(r.choice("IVU"))
        return ["%s %d%s" % (what, f, " %d" % dur(r) if what == "fwaitfor" else "")], [fulfil(r, pr)]
    if what in ("cvwait", "cvwaitfor"):
        c = q
        return (["ulock %d" % c, "%s %d %d%s" % (what, c, c, " %d" % dur(r) if what == "cvwaitfor" else ""), "uunlock %d" % c],
                ["ulock %d" % c, r.choice(["cvone %d", "cvall %d"]) % c, "uunlock %d" % c])
    if what == "mlock":
        c = q
        p.m("mlock %d" % c)
        return ["mlock %d" % c, "munlock %d" % c], ["munlock %d" % c]
    # a pool of one worker that is kept busy by a job waiting for a promise
    pr, f = p.prom("I")
    k, g = p.np, p.fut()
    p.np += 1
    p.m("pool %d 1 0 0" % k, "sched %d %d - 0 %d I" % (k, g, p.task("fwait %d" % f)))
    return [("pwait %d %d" % (k, g)) if what == "pwait" else "pwaitall %d" % k], ["setv %d 1" % pr]


def t_serve(r):
    """tasks sent to a thread inside each kind of blocking call"""
    p = P(r)
    ops, rel = blocked(r, p, 1)
    q = p.script()
    p.t(q, *ops)
    s = p.script()
    for _ in range(r.randint(1, 3)):
        p.t(s, "invoke v%d %d" % (q, p.task()))
        if r.random() < 0.4:
            p.t(s, "busy %d" % dur(r))
    if rel and r.random() < 0.6:
        p.m(*rel)
    if r.random() < 0.5:
        p.m("invoke v%d %d" % (q, p.task()))
    return finish(p, 0.15)


def t_serve2(r):
    """a task that itself blocks, run from inside a blocking call"""
    p = P(r)
    ops, rel = blocked(r, p, 1)
    ops2, rel2 = blocked(r, p, 2, r.choice(["waitfor", "sleep", "fwait", "fwaitfor", "get", "mlock", "pwait"]))
    q = p.script()
    p.t(q, *ops)
    s = p.script()
    p.t(s, "invoke v%d %d" % (q, p.task(*ops2)), "invoke v%d %d" % (q, p.task()), "invoke v%d %d" % (q, p.task()))
    if r.random() < 0.5:
        p.m(*rel)
    if r.random() < 0.7:
        p.m(*rel2)
    if r.random() < 0.5:
        p.m("invoke v%d %d" % (q, p.task()))
    return finish(p, 0.1)


def t_deep(r):
    """tasks that block in one another, several deep, with more tasks behind them"""
    p = P(r)
    who = r.choice(["loop", "script", "main"])
    w = 0 if who == "main" else p.loop() if who == "loop" else p.script()
    seq, rel = [], []
    for _ in range(r.randint(3, 5)):
        what = r.choice(["waitfor", "sleep", "fwaitfor", "fwait", "get", "processfor"])
        if what in ("waitfor", "sleep", "processfor"):
            body = ["%s %d" % (what, dur(r))]
        else:
            pr, f = p.prom("I")
            body = ["%s %d" % (what, f)] if what != "fwaitfor" else ["fwaitfor %d %d" % (f, dur(r))]
            rel.append(fulfil(r, pr))
        seq.append("invoke v%d %d" % (w, p.task(*body)))
    seq.append("burst v%d %d 2" % (w, p.tasks(2)))
    if who == "main" or r.random() < 0.4:
        p.m(*seq)
    else:
        s = p.script()
        p.t(s, *seq)
    q = p.script()
    p.t(q, *(["busy %d" % dur(r)] if r.random() < 0.5 else []) + rel)
    if r.random() < 0.5:
        p.t(q, "invoke v%d %d" % (w, p.task()))
    if who == "script":
        p.t(w, "waitfor %d" % dur(r), "waitfor %d" % dur(r), "process")
    if who == "main":
        p.m("waitfor %d" % dur(r), "process", "join %d" % q, "process")
        return p.text()
    return finish(p, 0.2)


def t_wakes(r):
    """plain waits and notifications"""
    p = P(r)
    q = p.script()
    n = r.randint(1, 3)
    p.t(q, *["wait" for _ in range(n)])
    for _ in range(r.randint(0, 2)):
        s = p.script()
        p.t(s, *[r.choice(["notify v%d" % q, "notify v%d" % q, "invoke v%d %d" % (q, p.task()), "busy 300"]) for _ in range(2)])
    p.m(*[r.choice(["notify v%d" % q, "invoke v%d %d" % (q, p.task())]) for _ in range(r.randint(1, 3))])
    return finish(p, 0.15)


# ---------------------------------------------------------------- time
def timedop(r, p, q, d):
    """a timed wait of d; returns ops and what would end it early"""
    what = r.choice(["waitfor", "waituntil", "sleep", "sleepuntil", "fwaitfor", "fwaituntil", "cvwaitfor", "cvwaituntil"])
    if what[:4] in ("wait", "slee"):
        return ["%s %d" % (what, d)], []
    if what[0] == "f":
        pr, f = p.prom("I")
        return ["%s %d %d" % (what, f, d)], [fulfil(r, pr)]
    return ["ulock %d" % q, "%s %d %d %d" % (what, q, q, d), "uunlock %d" % q], ["cvall %d" % q]


def t_timed(r):
    """timed waits with tasks and wake-ups in between"""
    p = P(r, r.choice([1, 1, 1000]))
    d = r.choice([0, 1, 2, r.randint(3, 60), r.randint(300, 4000), 1000, 2000])
    ops, rel = timedop(r, p, 1, d)
    q = p.script()
    p.t(q, *(ops * r.randint(1, 2)))
    step = max(1, d // 3)
    for _ in range(r.randint(1, 2)):
        s = p.script()
        for _ in range(r.randint(1, 3)):
            p.t(s, r.choice(["notify v%d" % q, "invoke v%d %d" % (q, p.task("busy %d" % r.choice([1, step, d + 1]))),
                             "invoke v%d %d" % (q, p.task()), "busy %d" % step, "waitfor %d" % step, "sleep %d" % step]))
        if rel and r.random() < 0.3:
            p.t(s, *rel)
    return finish(p, 0.3)


def t_timed2(r):
    """timed waits nested in timed waits, several waiters with different times"""
    p = P(r)
    d = r.randint(500, 4000)
    for i in range(r.randint(1, 3)):
        ops, rel = timedop(r, p, i + 1, r.choice([d, d // 2, d * 2]))
        q = p.script()
        p.t(q, *ops)
        if r.random() < 0.6:
            ops2, rel2 = timedop(r, p, i + 10, r.choice([d, d // 3, d * 2]))
            if ops2[0][:5] != "ulock":
                p.m("invoke v%d %d" % (q, p.task(*ops2)))
        if rel and r.random() < 0.3:
            p.m(*rel)
    if r.random() < 0.5:
        p.m("sleep %d" % (d // 2))
    return finish(p, 0.5)


def t_deadline(r):
    """a result or notification well before, around and after the deadline of several waiters"""
    p = P(r)
    d = r.randint(500, 3000)
    n = r.randint(1, 3)
    if r.random() < 0.6:
        pr, fs = p.prom(r.choice("IV"), n)
        for f in fs:
            q = p.script()
            p.t(q, "%s %d %d" % (r.choice(["fwaitfor", "fwaituntil"]), f, r.choice([d, d, d // 2, 2 * d])))
            if r.random() < 0.4:
                p.t(q, "fwaitfor %d %d" % (f, r.choice([0, d])))
        act = [fulfil(r, pr)]
    else:
        for _ in range(n):
            q = p.script()
            p.t(q, "ulock 0", "%s 0 0 %d" % (r.choice(["cvwaitfor", "cvwaituntil"]), r.choice([d, d // 2, 2 * d])), "uunlock 0")
        act = [r.choice(["cvone 0", "cvall 0"])]
    p.m("sleep %d" % r.choice([d // 3, d - 5, d, d + 5, d * 2]), *act)
    return finish(p, 0.5)


def t_procfor(r):
    """processing for a limited time"""
    p = P(r)
    d = r.choice([0, r.randint(200, 2000)])
    q = p.script()
    p.t(q, "await 0" if r.random() < 0.6 else "yield", "processfor %d" % d, "processfor %d" % d, "process")
    for _ in range(r.randint(2, 5)):
        p.m("invoke v%d %d" % (q, p.task("busy %d" % r.choice([d // 3 + 1, d + 1, d // 2 + 1]))))
    p.m("signal 0", "invoke v%d %d" % (q, p.task()))
    return finish(p, 0.3)


def t_proc(r):
    """everything queued runs in the processing call, or stays for the next one"""
    p = P(r)
    d = r.choice([0, 0, r.randint(200, 2000), 500000])
    n = r.randint(2, 5)

    def one(depth=0):
        k = r.random()
        if k < 0.25:
            return p.task("busy %d" % r.choice([d // 3 + 1, d // 2 + 1, d + 400]) if d < 10000 else "busy 300")
        if k < 0.4:
            return p.task("invoke s %d" % p.task())
        if k < 0.55 and depth < 2:
            return p.task("invoke s %d" % one(depth + 1), r.choice(["process", "processfor %d" % d, "processfor 0"]), "exitq")
        if k < 0.62:
            return p.task("throw 5")
        if k < 0.7:
            return p.task("invoke v0 %d" % p.task())
        return p.task()
    if r.random() < 0.6:
        q = p.script()
        p.t(q, "await 0")
        c, own, to = lambda *o: p.t(q, *o), "s", "v%d" % q
    else:
        c, own, to = p.m, "s", "v0"
    for _ in range(n):
        p.m("invoke %s %d" % (to, one()))
    if r.random() < 0.1:
        p.m("nexit %s" % to)
    if to != "v0":
        p.m("signal 0")
    for _ in range(r.randint(2, 4)):
        c(r.choice(["process", "processfor %d" % d, "processfor %d" % d, "processfor 500000"]))
        if r.random() < 0.3:
            c("invoke s %d" % one())
    c("process", "processfor 900000")
    if r.random() < 0.5:
        s = p.script()
        p.t(s, "invoke %s %d" % (to, one()), "notify %s" % to)
    return p.text()


def t_procdeep(r):
    """processing calls inside processing calls, several deep, each with a backlog"""
    p = P(r)
    x = p.task()
    for _ in range(r.randint(3, 5)):
        x = p.task("invoke s %d" % x, "invoke s %d" % p.task(), r.choice(["process", "process", "processfor 500000"]), "exitq")
    w = r.choice([0, 1])
    if w:
        w = p.loop()
        p.m("invoke v%d %d" % (w, x))
        return finish(p, 0.2)
    p.m("invoke s %d" % x, "process", "exitq")
    return p.text()


# ---------------------------------------------------------------- exit
def t_exits(r):
    """exit notification against each kind of blocking call"""
    p = P(r)
    ops, rel = blocked(r, p, 1, r.choice(["wait", "waitfor", "sleep", "fwait", "fwaitfor", "get", "cvwait", "cvwaitfor", "pwait", "pwaitall"]))
    q, o = p.script(), p.script()
    p.t(q, *(ops + ["exitq"] + ops[:1] * (ops[0][:5] != "ulock") + ["exitq"]))
    p.t(o, "exitq", r.choice(["waitfor %d" % dur(r), "sleep %d" % dur(r)]), "exitq")
    p.m(r.choice(["nexit v%d", "join %d", "nexit v%d"]) % q)
    p.m("exitq", "waitfor %d" % dur(r), "exitq")
    if r.random() < 0.5:
        p.m("join %d" % o)
    return p.text()


def t_exits2(r):
    """exit notification while a task of the blocked thread blocks; user written worker loops"""
    p = P(r)
    ops, rel = blocked(r, p, 1, r.choice(["wait", "waitfor", "fwait", "get", "cvwait"]))
    ops2, rel2 = blocked(r, p, 2, r.choice(["wait", "waitfor", "sleep", "fwait", "get", "fwaitfor"]))
    q = p.script()
    if r.random() < 0.5:
        p.t(q, "serve", "exitq", "waitfor 500", "wait")
    else:
        p.t(q, *ops)
        p.t(q, "exitq")
    s = p.script()
    p.t(s, "invoke v%d %d" % (q, p.task(*(ops2 + ["exitq"]))), "exitq", "waitfor 300")
    p.m("nexit v%d" % q, "exitq")
    if r.random() < 0.6:
        p.m("join %d" % q, "join %d" % s)
    return p.text()


def t_joins(r):
    """joining and destroying library threads that are busy or blocked"""
    p = P(r)
    hs = [p.loop() for _ in range(r.randint(1, 2))] + [p.script() for _ in range(r.randint(0, 1))]
    for h in hs:
        if h in p.thr:
            p.t(h, r.choice(["wait", "sleep 900000", "serve", "waitfor 900000"]))
        for _ in range(r.randint(0, 2)):
            p.m("invoke v%d %d" % (h, p.task(*r.choice([[], ["busy 400"], ["waitfor 900000"], ["wait"], ["invoke s %d" % p.task()],
                                                        ["sleep 2000", "exitq"]]))))
    if r.random() < 0.4:
        s = p.script()
        p.t(s, "invoke v%d %d" % (hs[0], p.task()), "notify v%d" % hs[0], "waitfor 300")
        hs.append(s)
    r.shuffle(hs)
    for h in hs:
        p.m("%s %d" % (r.choice(["join", "destroy"]), h))
    p.m("list")
    return p.text()


# ---------------------------------------------------------------- identity
def t_regs(r):
    """the same thread registered from inside and outside, in any order"""
    p = P(r)
    std = r.random() < 0.6
    q = p.script(std, reg=False)
    p.t(q, *r.choice([["reg %d" % q, "getid", "isreg"], ["yield", "reg %d" % q, "reg %d" % q, "getid"], ["isreg", "reg %d" % q, "list"]]))
    p.t(q, r.choice(["waitfor 700", "process", "yield"]), "getid")
    if r.random() < 0.5:
        p.t(q, "invoke s %d" % p.task("getid"), "process")
    p.t(q, "await 0", "unreg", r.choice(["isreg", "getid", "yield"]))
    p.m("regn %d %d" % (q, q))
    if r.random() < 0.5:
        p.m("regn %d %d" % (q, q))
    p.m("invoke v%d %d" % (q, p.task("getid")), r.choice(["list", "getid", "mainid"]), "signal 0", "join %d" % q, "list")
    return p.text()


def t_rereg(r):
    """leaving and registering again: a new identity with an empty inbox"""
    p = P(r)
    q = p.script(r.random() < 0.5)
    p.t(q, *r.choice([["waitfor 400"], ["process"], ["yield"]]))
    p.t(q, "unreg", r.choice(["yield", "isreg", "list"]), "reg %d" % q, "getid", "exitq", r.choice(["waitfor 500", "process", "exitq"]), "list", "unreg")
    s = p.script()
    for _ in range(r.randint(1, 3)):
        p.t(s, r.choice(["invoke v%d %d" % (q, p.task("getid")), "nexit v%d" % q, "notify v%d" % q, "list", "pend v%d" % q]))
    p.m(r.choice(["nexit v%d" % q, "invoke v%d %d" % (q, p.task()), "list"]), "join %d" % q, "list")
    return p.text()


def t_reuse(r):
    """threads that follow each other: native handles are reused, identities are not"""
    p = P(r)
    kinds = []
    for i in range(r.randint(2, 4)):
        k = r.choice(["loop", "script", "std", "noreg"])
        kinds.append(k)
        if k == "loop":
            h = p.loop()
        else:
            h = p.script(k == "std", reg=(k != "noreg"))
            p.t(h, *r.choice([["exitq", "getid"], ["waitfor 200", "getid"], ["list"]]) if k != "noreg" else ["yield"])
            if k == "std" or r.random() < 0.4:
                p.t(h, "unreg")
        if k != "std":
            p.m(r.choice(["nexit v%d" % h, "invoke v%d %d" % (h, p.task()), "pend v%d" % h, "yield"]))
        if r.random() < 0.8:
            p.m("join %d" % h)
        if r.random() < 0.6:
            p.m(r.choice(["list", "list", "getid"]))
    if r.random() < 0.5:
        g = p.fut()
        p.m("async %d new d %d I" % (g, p.task("getid", "list")), "get %d" % g)
    p.m("list")
    return p.text()


def t_moves(r):
    """thread objects moved and swapped"""
    p = P(r)
    a, b = p.loop(), p.loop()
    p.m("invoke v%d %d" % (a, p.task()), "invoke v%d %d" % (b, p.task("getid")))
    if r.random() < 0.5:
        p.m("tswap %d %d" % (a, b), "invoke v%d %d" % (a, p.task()), "join %d" % a, "list", "join %d" % b)
    else:
        p.m("tassign %d %d" % (a, b), "list", "invoke v%d %d" % (b, p.task()), "join %d" % a)
    p.m("list")
    return p.text()


def t_names(r):
    """names and the hooks given to init"""
    p = P(r)
    p.thr[0] = ["init h" if r.random() < 0.8 else "init"]
    hs = []
    for _ in range(r.randint(1, 3)):
        k = r.choice(["loop", "loop", "script", "named", "std", "task"])
        if k == "loop":
            h = p.loop()
        elif k == "task" and hs and hs[0] not in p.thr:
            p.nh += 1
            h = p.nh
            p.m("invoke v%d %d" % (hs[0], p.task("mkthread %d %s" % (h, r.choice(["s", "u"])), "pname v%d" % h, "signal %d" % h)))
            p.m("await %d" % h)
        else:
            h = p.script(k == "std", reg=False, start=False)
            nm = r.choice(["", "", " q%d" % h])
            p.m("sspawn %d" % h if k == "std" else "spawn %d%s" % (h, " named" if k == "named" else ""))
            p.t(h, *r.choice([["reg %d%s" % (h, nm)], ["yield", "reg %d%s" % (h, nm)], ["reg %d%s" % (h, nm), "reg %d z%d" % (h, h)]]))
            if k == "std" and r.random() < 0.6:
                p.m("regn %d %d%s" % (h, h, r.choice([" r%d" % h, ""])))
            p.t(h, r.choice(["pname s", "pname v0"]), r.choice(["waitfor 400", "process", "yield"]))
            if r.random() < 0.4:
                p.t(h, "unreg", "reg %d%s" % (h, r.choice(["", " again%d" % h])), "pname s")
            p.t(h, "signal %d" % h, "await 0", "unreg")
            p.m("await %d" % h)
        hs.append(h)
        p.m(*r.sample(["pname v%d" % h, "invoke v%d %d" % (h, p.task("pname s")), "pname s", "pname n77", "pname n0", "list"], 2))
    k = r.random()
    for h in hs:
        p.m(r.choice(["pname v%d" % h, "yield"]))
    p.m("signal 0")
    if k < 0.3:
        p.m("shutdown 2", "pname v%d" % hs[0])
        if r.random() < 0.6:
            p.m(r.choice(["init", "init h"]))
            h = p.loop()
            p.m("invoke v%d %d" % (h, p.task("pname s")), "pname s", "join %d" % h)
    else:
        for h in hs:
            p.m("join %d" % h, "pname v%d" % h)
        if r.random() < 0.3:
            p.m("init h")
            h = p.loop()
            p.m("pname v%d" % h)
    return p.text()


def t_handles(r):
    """thread objects: who stands for which thread after moves, and what ending one does"""
    p = P(r)
    hs = [p.loop() for _ in range(r.randint(2, 3))]
    live = {h: h for h in hs}          # object -> thread
    gone = []                          # detached
    nxt = p.nh
    for _ in range(r.randint(2, 6)):
        k = r.choice(["hid", "hid", "move", "swap", "assign", "inv", "inv", "null", "detach", "join", "destroy", "self"])
        o = r.choice(sorted(live))
        if k == "hid":
            p.m("hid %d" % o)
        elif k == "inv":
            p.m("invoke v%d %d" % (r.choice(hs), p.task(*r.choice([[], ["busy 300"], ["getid"], ["waitfor 900000"], ["wait", "exitq"]]))))
        elif k == "move":
            nxt += 1
            p.m("tmove %d %d" % (nxt, o), "hid %d" % o, "hid %d" % nxt)
            live[nxt] = live[o]
            live[o] = None
        elif k == "null":
            nxt += 1
            p.m("tnull %d" % nxt, "hid %d" % nxt)
            live[nxt] = None
        elif k in ("swap", "assign") and len(live) > 1:
            q = r.choice([x for x in sorted(live) if x != o])
            p.m("t%s %d %d" % (k, o, q), "hid %d" % o, "hid %d" % q)
            if k == "swap":
                live[o], live[q] = live[q], live[o]
            else:
                live[o], live[q] = live[q], None
        elif k == "detach" and live[o] is not None:
            gone.append(live[o])
            p.m("detach %d" % o, "hid %d" % o, "invoke v%d %d" % (live[o], p.task()))
            live[o] = None
        elif k == "join" and live[o] is not None:
            p.m("join %d" % o, "hid %d" % o, r.choice(["list", "yield"]))
            live[o] = None
        elif k == "destroy":
            p.m("destroy %d" % o, r.choice(["list", "yield"]))
            del live[o]
            if not live:
                break
        elif k == "self":
            p.m("list")
    for o in sorted(live):
        if r.random() < 0.8 or live[o] is None:
            p.m("destroy %d" % o)
        else:
            p.m("join %d" % o, "hid %d" % o)
    p.m("list")
    for g in gone:
        p.m("invoke v%d %d" % (g, p.task()), "nexit v%d" % g)
    if r.random() < 0.3:
        p.m("waitfor 500", "list")
    return p.text()


# ---------------------------------------------------------------- shutdown
def t_shut(r):
    """shutdown with threads that leave at once, late, or never"""
    p = P(r, r.choice([1, 1000]))
    for _ in range(r.randint(1, 3)):
        k = r.choice(["loop", "script", "std", "late", "never", "async", "pool"])
        if k == "loop":
            h = p.loop()
            if r.random() < 0.4:
                p.m("invoke v%d %d" % (h, p.task(r.choice(["waitfor 900000", "wait", "yield"]))))
        elif k in ("script", "std"):
            h = p.script(k == "std")
            p.t(h, r.choice(["serve", "wait", "sleep 5000", "waitfor 3000"]), "unreg")
        elif k == "late":
            h = p.script(True)
            p.t(h, "busy %d" % ((1500000 if r.random() < 0.5 else 400000) // p.unit), "unreg")
        elif k == "never":
            h = p.script(True)
            p.t(h, "await 5")
        elif k == "async":
            p.m("async %d new d %d I" % (p.fut(), p.task(r.choice(["yield", "waitfor 500"]))))
        else:
            p.m("pool %d 1 0 0" % p.np)
            p.np += 1
    if r.random() < 0.3:
        p.m("list")
    p.m("shutdown 1", r.choice(["list", "isreg", "exitq"]))
    return p.text()


def t_shut2(r):
    """shutdown, init again, and work as before"""
    p = P(r)
    h = p.loop()
    p.m("invoke v%d %d" % (h, p.task()), "join %d" % h)
    p.m("shutdown 1", "isreg")
    if r.random() < 0.3:
        p.m("shutdown 1")
    p.m("init", "getid", "mainid", "exitq", "list")
    h = p.loop()
    p.m("invoke v%d %d" % (h, p.task()), "invoke s %d" % p.task(), "process", r.choice(["waitfor 500", "sleep 300"]), "join %d" % h, "shutdown 1")
    if r.random() < 0.5:
        p.m("init", "exitq", "shutdown 1")
    return p.text()


def t_reinit(r):
    """identities before and after complete shutdowns"""
    p = P(r)
    old = [0]
    for k in range(r.randint(2, 3)):
        if k:
            p.m("init", "getid", r.choice(["list", "mainid", "isreg"]))
            for o in old[-3:]:
                if o and r.random() < 0.6:
                    p.m(r.choice(["invoke v%d %d" % (o, p.task()), "nexit v%d" % o, "notify v%d" % o, "pend v%d" % o]))
        for _ in range(r.randint(1, 2)):
            if r.random() < 0.5:
                h = p.loop()
            else:
                h = p.script()
                p.t(h, "getid", r.choice(["exitq", "waitfor 300", "process"]), "unreg")
            p.m(r.choice(["invoke v%d %d" % (h, p.task("getid")), "list", "yield"]))
            old.append(h)
            p.m("join %d" % h)
        p.m(r.choice(["list", "getid", "exitq"]), "shutdown 1")
    return p.text()


def t_inits(r):
    """nested init and unbalanced shutdown leave every thread alone"""
    p = P(r)
    n = r.randint(0, 2)
    p.m(*["init"] * n)
    h = p.loop()
    q = p.script()
    p.t(q, "waitfor %d" % dur(r), "exitq", "waitfor 600", "exitq", "unreg")
    for _ in range(n):
        p.m("shutdown 1", "invoke v%d %d" % (h, p.task("exitq")), r.choice(["list", "exitq", "yield"]))
    p.m("join %d" % q, "join %d" % h, "shutdown 1", "shutdown 1")
    return p.text()


# ---------------------------------------------------------------- futures
def t_race(r):
    """several threads try to fulfil one promise"""
    p = P(r)
    k = r.choice("IVU")
    n = r.randint(1, 3)
    pr, fs = p.prom(k if k != "U" else "I", n)
    for i in range(r.randint(2, 3)):
        s = p.script()
        p.t(s, fulfil(r, pr))
        if r.random() < 0.5:
            p.t(s, fulfil(r, pr))
    for f in fs:
        if r.random() < 0.5:
            q = p.script()
            p.t(q, r.choice(["get %d", "fwait %d", "ready %d", "err %d"]) % f, "get %d" % f)
        else:
            p.m(r.choice(["get %d", "fwait %d", "ready %d"]) % f)
    return finish(p, 0.4)


def t_readers(r):
    """readers of a shared future, some early, some late, some told to exit"""
    p = P(r)
    n = r.randint(2, 4)
    pr, fs = p.prom(r.choice("IV"), n)
    qs = []
    for f in fs:
        q = p.script()
        qs.append(q)
        p.t(q, r.choice(["get %d", "get %d", "fwait %d", "fwaitfor %d 700", "ready %d"]) % f, r.choice(["get %d", "err %d", "valid %d"]) % f)
    if r.random() < 0.4:
        p.m("nexit v%d" % r.choice(qs))
    p.m(fulfil(r, pr))
    if r.random() < 0.5:
        p.m("fdrop %d" % fs[0]) if False else p.m("ready %d" % fs[0])
    return finish(p, 0.4)


def t_once(r):
    """taking and getting only once; futures after get"""
    p = P(r)
    k = r.choice("IVU")
    pr, f = p.prom(k)
    p.m("getfut %d %d" % (pr, p.fut()), "valid %d" % f)
    q = p.script()
    p.t(q, fulfil(r, pr), fulfil(r, pr))
    p.m(r.choice(["ready %d", "err %d", "fwait %d", "fwaitfor %d 0"]) % f, "get %d" % f, "valid %d" % f,
        r.choice(["get %d", "fwait %d", "ready %d", "err %d", "fwaitfor %d 100"]) % f)
    if r.random() < 0.4:
        p.m("join %d" % q, "drop %d" % pr)
        return p.text()
    return finish(p, 0.6)


def t_waiters(r):
    """several threads in different kinds of waits on one future"""
    p = P(r)
    n = r.randint(2, 4)
    pr, fs = p.prom(r.choice("IV"), n)
    d = dur(r)
    for f in fs:
        q = p.script()
        if r.random() < 0.3:
            p.t(q, r.choice(["busy 300", "yield"]))
        p.t(q, *[r.choice(["fwait %d" % f, "get %d" % f, "fwaitfor %d %d" % (f, r.choice([d, 2 * d, 900000]))])
                 for _ in range(r.randint(1, 2))])
        if r.random() < 0.4:
            p.m("invoke v%d %d" % (q, p.task(r.choice(["fwait %d" % f, "fwaitfor %d %d" % (f, d), "busy 200", "ready %d" % f]))))
    if r.random() < 0.5:
        p.m(r.choice(["sleep %d" % d, "busy %d" % d]))
    p.m(fulfil(r, pr) if r.random() < 0.8 else "drop %d" % pr)
    return finish(p, 0.2)


def t_rewait(r):
    """a thread waits on the same future again from tasks it runs while waiting"""
    p = P(r)
    pr, fs = p.prom(r.choice("IV"), 2)
    q = p.script()
    d = dur(r)
    p.t(q, r.choice(["fwait %d" % fs[0], "get %d" % fs[0], "fwaitfor %d 900000" % fs[0]]))
    inner = p.task(r.choice(["fwait %d" % fs[0], "fwaitfor %d %d" % (fs[0], d), "fwaitfor %d 100" % fs[0]]))
    mid = p.task("invoke s %d" % inner if r.random() < 0.3 else "yield", r.choice(["fwaitfor %d %d" % (fs[0], d), "fwait %d" % fs[0]]))
    if inner not in [int(x.split()[-1]) for x in p.tsk[mid] if x.startswith("invoke")]:
        p.m("invoke v%d %d" % (q, inner))
    p.m("invoke v%d %d" % (q, mid))
    if r.random() < 0.5:
        o = p.script()
        p.t(o, "fwait %d" % fs[1])
    p.m(r.choice(["sleep %d" % (d + 200), "busy 100", "yield"]), fulfil(r, pr))
    return finish(p, 0.2)


def t_selfset(r):
    """the result comes from a task that one of the waiters runs while it waits"""
    p = P(r)
    n = r.randint(2, 4)
    pr, fs = p.prom(r.choice("IV"), n)
    qs = [p.script() for _ in range(n)]
    kinds = ["fwait %d", "get %d", "fwaitfor %d 900000"]
    for q, f in zip(qs, fs):
        if r.random() < 0.3:
            p.t(q, "yield")
        p.t(q, r.choice(kinds) % f)
    act = r.choice([fulfil(r, pr), fulfil(r, pr), "drop %d" % pr])
    q = r.choice(qs)
    body = [act] if r.random() < 0.6 else ["invoke s %d" % p.task(act), r.choice(["waitfor 300", "process", "fwait %d" % fs[qs.index(q)]])]
    if r.random() < 0.3:
        body.insert(0, "fwaitfor %d 200" % fs[qs.index(q)])
    if r.random() < 0.4:
        p.m("sleep 300")
    p.m("invoke v%d %d" % (q, p.task(*body)))
    return finish(p, 0.1)


def t_latewait(r):
    """waiters that came, timed out and left before others"""
    p = P(r)
    n = r.randint(2, 3)
    pr, fs = p.prom("I", n)
    d = r.randint(300, 900)
    for i, f in enumerate(fs):
        q = p.script()
        p.t(q, "fwaitfor %d %d" % (f, d * (i + 1)), r.choice(["fwait %d", "get %d", "fwaitfor %d 900000"]) % f)
    p.m("sleep %d" % r.choice([d // 2, d, d + 50, 2 * d + 50]), fulfil(r, pr))
    return finish(p, 0.2)


# ---------------------------------------------------------------- broken promises
def t_drops(r):
    """promises destroyed, overwritten, moved"""
    p = P(r)
    k = r.choice("IVU")
    sh = r.random() < 0.5 and k != "U"
    pr, f = p.prom(k, 2) if sh else p.prom(k)
    fs = f if sh else [f]
    qs = [p.script() for _ in fs]
    for q, f in zip(qs, fs):
        if r.random() < 0.4:
            g = p.fut()
            p.t(q, "then %d %d %s d %d V" % (f, g, r.choice(["s", "n0", "new"]), p.task()), "get %d" % g)
        else:
            p.t(q, r.choice(["get %d", "fwait %d", "fwaitfor %d 900000", "err %d"]) % f, "get %d" % f)
    a = r.choice(["drop", "passign", "move"])
    if a == "drop":
        p.m("drop %d" % pr)
    else:
        p2, f2 = p.prom(k)
        if a == "passign":
            p.m("passign %d %d" % (pr, p2), fulfil(r, pr), "get %d" % f2)
        else:
            p.m("passign %d %d" % (p2 + 1, pr))
            p.np += 1
            p.m(r.choice(["drop %d", "setv %d 5"]) % (p2 + 1), "drop %d" % p2, "get %d" % f2)
    return finish(p, 0.3)


def t_dropq(r):
    """asynchronous calls and continuations whose target leaves"""
    p = P(r)
    w = p.loop() if r.random() < 0.5 else p.script()
    if w in p.thr:
        p.t(w, r.choice(["busy 300", "waitfor 300", "yield"]), r.choice(["unreg", "yield"]))
    pr, f = p.prom("I")
    gs = []
    for _ in range(r.randint(1, 3)):
        g = p.fut()
        p.m("async %d v%d %s %d %s" % (g, w, r.choice("da"), p.task(), r.choice("IVU")))
        gs.append(g)
    g = p.fut()
    p.m("then %d %d v%d d %d I" % (f, g, w, p.task()))
    gs.append(g)
    o = p.script()
    p.t(o, "setv %d 3" % pr)
    if r.random() < 0.7:
        p.m("%s %d" % ("join", w))
    r.shuffle(gs)
    for g in gs:
        if r.random() < 0.3:
            h = p.fut()
            p.m("then %d %d %s d %d V" % (g, h, r.choice(["s", "n0"]), p.task()), "process")
            g = h
        p.m(r.choice(["get %d", "fwait %d", "fwaitfor %d 2000"]) % g)
    return p.text()


def t_dropjob(r):
    """pool jobs stopped or destroyed with the pool"""
    p = P(r)
    p.m("pool 0 %d %d 0" % (r.randint(1, 2), r.randint(0, 1)))
    gs = []
    for i in range(r.randint(2, 4)):
        g = p.fut()
        p.m("sched 0 %d %s %d %d %s" % (g, r.choice("-01"), 0, p.task(r.choice(["busy 500", "yield"])), r.choice("IVU")))
        gs.append(g)
    q = p.script()
    g = gs.pop()
    p.t(q, r.choice(["get %d", "fwait %d", "fwaitfor %d 900000"]) % g)
    if r.random() < 0.5:
        x = gs[0]
        p.m("jstop %d %d" % (x, x), "get %d" % x)
        gs = gs[1:]
    elif r.random() < 0.5:
        p.m("pstopall 0")
    if r.random() < 0.7:
        p.m("pdestroy 0")
    for g in gs:
        p.m("get %d" % g)
    return finish(p, 0.3)


# ---------------------------------------------------------------- continuations, async
def t_conts(r):
    """several continuations on one shared future, attached before and after it is ready"""
    p = P(r)
    w = p.loop()
    pr, fs = p.prom(r.choice("IV"), r.randint(2, 3))
    k = "V"
    gs = []

    def att(f, who):
        g = p.fut()
        gs.append(g)
        p.t(who, "then %d %d %s %s %d %s" % (f, g, r.choice(["s", "v%d" % w, "n0", "new", "v%d" % w]), r.choice("dae"),
                                             p.task(*r.choice([[], [], ["throw 7"], ["yield"]])), k))
    att(fs[0], 0)
    q = p.script()
    att(fs[1], q)
    if r.random() < 0.7:
        att(fs[1], q)
    s = p.script()
    p.t(s, fulfil(r, pr))
    att(fs[-1] if len(fs) > 2 else fs[0], 0)
    if r.random() < 0.5:
        p.t(q, "process")
    p.m("process")
    for g in gs[:2]:
        if g:
            pass
    p.m("get %d" % gs[0], "get %d" % gs[-1])
    return finish(p, 0.3)


def t_chain(r):
    """chains of continuations, with values and exceptions travelling along"""
    p = P(r)
    w = p.loop()
    k = r.choice("IU")
    pr, f = p.prom(k)
    chain = [f]
    for i in range(r.randint(2, 4)):
        g = p.fut()
        k2 = r.choice("IIU") if i < 3 else "V"
        body = r.choice([["ret %d" % r.randint(1, 90)], ["throw %d" % r.randint(1, 90)], [], ["waitfor 300", "ret 4"]])
        p.m("then %d %d %s %s %d %s" % (chain[-1], g, r.choice(["s", "v%d" % w, "n0", "new"]), r.choice("dae"), p.task(*body), k2),
            "valid %d" % chain[-1])
        chain.append(g)
        if r.random() < 0.2:
            p.m(fulfil(r, pr))
        if k2 == "V":
            break
    s = p.script()
    p.t(s, fulfil(r, pr), "waitfor 500", "process")
    p.m("process", "get %d" % chain[-1])
    return finish(p, 0.4)


def t_contrace(r):
    """attaching while the result is being set"""
    p = P(r)
    n = r.randint(1, 3)
    pr, fs = p.prom("I", n) if n > 1 else p.prom("I")
    fs = fs if n > 1 else [fs]
    for f in fs:
        q = p.script()
        g = p.fut()
        p.t(q, "then %d %d %s %s %d I" % (f, g, r.choice(["s", "n0", "v0"]), r.choice("da"), p.task()), "waitfor 500", "process",
            r.choice(["fwaitfor %d 300", "ready %d"]) % g)
    p.m(fulfil(r, pr), "waitfor 900", "process")
    return finish(p, 0.3)


def t_asyncs(r):
    """asynchronous calls of all forms, results collected elsewhere"""
    p = P(r)
    w = p.loop()
    gs = []
    for _ in range(r.randint(2, 4)):
        g = p.fut()
        body = r.choice([[], ["ret %d" % r.randint(1, 90)], ["throw %d" % r.randint(1, 90)], ["getid"], ["exitq", "waitfor 300"], ["list"]])
        p.m("async %d %s %s %d %s" % (g, r.choice(["new", "new", "s", "v%d" % w, "v%d" % w]), r.choice("dae"), p.task(*body), r.choice("IVU")))
        gs.append(g)
        if r.random() < 0.3:
            p.m("list")
    p.m("process")
    q = p.script()
    for g in gs:
        (p.t if r.random() < 0.3 else lambda h, *o: p.m(*o))(q, r.choice(["get %d", "fwait %d", "fwaitfor %d 900"]) % g)
    p.m("list")
    return finish(p, 0.4)


def t_policies(r):
    """own thread: queued with the async policy, run in place otherwise; also for continuations"""
    p = P(r)
    body = []
    fs = []
    for _ in range(r.randint(2, 4)):
        g = p.fut()
        body += ["async %d s %s %d %s" % (g, r.choice("dae"), p.task(), r.choice("IV")), "ready %d" % g]
        fs.append(g)
    g, h = p.fut(), p.fut()
    body += ["mkready %d I 5" % g, "then %d %d %s %s %d I" % (g, h, r.choice(["s", "n0"]), r.choice("dae"), p.task()), "ready %d" % h]
    pr, f = p.prom("I")
    h2 = p.fut()
    body += ["then %d %d %s %s %d I" % (f, h2, r.choice(["s", "n0", "v0"]), r.choice("dae"), p.task()), "setv %d 4" % pr, "ready %d" % h2]
    if r.random() < 0.5:
        p.m(*body)
        p.m("process", "get %d" % h)
    else:
        w = p.loop()
        p.m("invoke v%d %d" % (w, p.task(*(body + ["process", "ready %d" % h]))), "process", "waitfor 600", "process")
    return finish(p, 0.3)


# ---------------------------------------------------------------- when
def when(r, kind):
    p = P(r)
    n = r.randint(1, 4)
    form, c = r.choice([("r", "I"), ("r", "I"), ("t", "I"), ("r", "V"), ("t", "V"), ("r", "S"), ("r", "W"), ("t", "S"), ("t", "M")])
    if form == "t":
        n = {"I": n, "V": min(n, 2), "S": r.choice([2, 3]), "M": r.choice([2, 3])}[c]
    ins, prs = [], []
    for i in range(n):
        kk = {"I": "I", "V": "V", "S": "i", "W": "v", "M": "IiV"[i] if i < 3 else "I"}[c]
        if r.random() < 0.2 and kk in "IV":
            g = p.fut()
            p.m("mkready %d %s %d" % (g, kk, r.randint(1, 90)))
            ins.append(g)
        elif kk in "iv":
            pr, fs = p.prom(kk.upper(), 1)
            ins.append(fs[0])
            prs.append(pr)
        else:
            pr, f = p.prom(kk)
            ins.append(f)
            prs.append(pr)
    g = p.fut()
    who = r.choice([0, 0, 1])
    q = None
    if who:
        q = p.script()
    ops = ["%s %d %s %s %s" % (kind, g, form, c, " ".join(map(str, ins)))]
    if r.random() < 0.3 and prs:
        ops.insert(0, fulfil(r, prs[0]))
    end = r.choice([["get %d" % g], ["fwait %d" % g, "get %d" % g], ["fwaitfor %d 700" % g, "fwait %d" % g, "ready %d" % g],
                    ["then %d %d %s d %d I" % (g, p.fut(), r.choice(["s", "n0"]),
                                               p.task(*([fulfil(r, prs[-1])] if prs and r.random() < 0.6 else []))), "waitfor 700", "process"]])
    if r.random() < 0.2:
        ops.append("process")
    r.shuffle(prs)
    cut = r.randint(0, len(prs))
    for part in (prs[:cut], prs[cut:]):
        if part:
            s = p.script()
            p.t(s, *[fulfil(r, x) for x in part])
    if r.random() < 0.2 and prs:
        p.m(fulfil(r, r.choice(prs)))
    if q:
        p.t(q, *(ops + end))
    else:
        p.m(*(ops + end))
    if end[-1].startswith("get"):
        for f in ins:
            (p.m if not q else lambda *o: p.t(q, *o))(r.choice(["get %d", "fwait %d", "ready %d", "valid %d"]) % f)
    return finish(p, 0.3)


def t_whenall(r):
    return when(r, "whenall")


def t_whenany(r):
    return when(r, "whenany")


# ---------------------------------------------------------------- condition variables, mutex
def t_cvpred(r):
    """the flag is set under the lock while the waiter may or may not be waiting yet"""
    p = P(r)
    n = r.randint(1, 3)
    for _ in range(n):
        q = p.script()
        p.t(q, "ulock 0", r.choice(["cvwait 0 0", "cvwait 0 0", "cvwaitfor 0 0 900000"]), "uunlock 0")
        if r.random() < 0.3:
            p.m("invoke v%d %d" % (q, p.task(r.choice(["busy 100", "waitfor 300", "cvall 0"]))))
    for _ in range(r.randint(1, 2)):
        s = p.script()
        a = r.choice(["cvall 0", "cvone 0"])
        p.t(s, *r.choice([["ulock 0", a, "uunlock 0"], ["ulock 0", "uunlock 0", a]]))
    if r.random() < 0.4:
        p.m("ulock 0", "uunlock 0", "cvall 0")
    return finish(p, 0.15)


def t_cvall(r):
    """notify_all against waiters that keep coming"""
    p = P(r)
    for _ in range(r.randint(2, 4)):
        q = p.script()
        p.t(q, *(["ulock 0", r.choice(["cvwait 0 0", "cvwaitfor 0 0 %d" % dur(r)]), "uunlock 0"] * r.randint(1, 2)))
    p.m(*["cvall 0", "busy 300", "ulock 0", "cvall 0", "uunlock 0", "cvall 0"][:r.randint(1, 6)])
    return finish(p, 0.15)


def t_cvcrowd(r):
    """many waiters are there when the notification comes"""
    p = P(r)
    for _ in range(r.randint(4, 6)):
        q = p.script()
        p.t(q, "ulock 0", r.choice(["cvwait 0 0", "cvwait 0 0", "cvwaitfor 0 0 900000"]), "uunlock 0")
    p.m("sleep %d" % dur(r), *r.choice([["cvall 0"], ["cvall 0"], ["cvone 0", "cvall 0"], ["cvone 0"] * r.randint(1, 6)]))
    return finish(p, 0.15)


def t_cvone(r):
    """as many single notifications as waiters, or fewer"""
    p = P(r)
    n = r.randint(1, 3)
    for _ in range(n):
        q = p.script()
        p.t(q, "ulock 0", "cvwait 0 0", "uunlock 0")
    for _ in range(r.randint(1, n)):
        if r.random() < 0.5:
            s = p.script()
            p.t(s, "cvone 0")
        else:
            p.m("cvone 0")
            if r.random() < 0.3:
                p.m("busy 200")
    return finish(p, 0.1)


def t_cvtimed(r):
    """timed waiters that leave while others are notified; waits nested in waits"""
    p = P(r)
    d = r.randint(300, 1500)
    q = p.script()
    p.t(q, "ulock 0", "cvwaitfor 0 0 %d" % d, r.choice(["cvwaitfor 0 0 %d" % d, "cvwait 0 0"]), "uunlock 0")
    o = p.script()
    p.t(o, "ulock 0", "cvwait 0 0", "uunlock 0")
    if r.random() < 0.5:
        p.m("invoke v%d %d" % (o, p.task("ulock 1", "cvwaitfor 0 1 %d" % d, "uunlock 1")))
    p.m("sleep %d" % r.choice([d // 2, d, d + 20, 2 * d]), r.choice(["cvone 0", "cvall 0"]))
    if r.random() < 0.6:
        p.m("sleep %d" % d, r.choice(["cvone 0", "cvall 0"]))
    return finish(p, 0.15)


def t_mutual(r):
    p = P(r)
    for _ in range(r.randint(2, 3)):
        q = p.script()
        p.t(q, *(["mlock 0", r.choice(["yield", "busy 100", "mtry 0", "waitfor 200"]), "munlock 0"] * r.randint(1, 2)))
        if r.random() < 0.4:
            p.m("invoke v%d %d" % (q, p.task()))
    p.m(r.choice(["mtry 0", "mlock 0"]))
    if p.thr[0][-1] == "mlock 0":
        p.m("munlock 0")
    return finish(p, 0)


def t_handover(r):
    """the holder works while others wait; their tasks are run meanwhile"""
    p = P(r)
    p.m("mlock 0")
    qs = [p.script() for _ in range(r.randint(1, 3))]
    for q in qs:
        p.t(q, "mlock 0", "munlock 0")
        if r.random() < 0.6:
            p.m("invoke v%d %d" % (q, p.task(*r.choice([[], ["mtry 0"], ["busy 100"], ["mtry 1", "munlock 1"]]))))
    if r.random() < 0.5:
        p.m(r.choice(["sleep 500", "busy 300", "mlock 0", "mtry 0"]))
    p.m("munlock 0")
    if r.random() < 0.3:
        p.m("mtry 0", "munlock 0")
    return finish(p, 0)


def t_mcrowd(r):
    """many threads wait for the holder"""
    p = P(r)
    p.m("mlock 0")
    for _ in range(r.randint(4, 6)):
        q = p.script()
        p.t(q, "mlock 0", *(["yield"] if r.random() < 0.3 else []), "munlock 0")
    p.m(*r.choice([["sleep %d" % dur(r)], ["sleep %d" % dur(r)], ["busy 300"]]), "munlock 0")
    return finish(p, 0)


def t_misuse(r):
    p = P(r)
    q = p.script()
    p.t(q, r.choice(["munlock 0", "mtry 0", "mlock 0"]), "munlock 0", r.choice(["munlock 0", "mtry 0"]))
    p.m("mlock 0", r.choice(["mlock 0", "mtry 0"]), "munlock 0", "munlock 0", "mtry 0", "munlock 0")
    if r.random() < 0.5:
        p.m("mlock 0", "invoke v%d %d" % (q, p.task("munlock 0", "mtry 0")), "dispatch s %d" % p.task("mlock 0", "munlock 0"), "munlock 0")
    return finish(p, 0)


# ---------------------------------------------------------------- pools
def pool(p, r, one=False):
    ws = (1, 0, 0) if one else r.choice([(1, 0, 0), (2, 0, 0), (1, 1, 0), (1, 1, 1), (0, 1, 1), (1, 0, 1), (2, 1, 0)])
    k = p.np
    p.np += 1
    p.m("pool %d %d %d %d" % ((k,) + ws))
    return k, ws


def lvl(r, ws):
    """a level some worker serves"""
    lo = next(i for i, n in enumerate(ws) if n)
    return r.randint(lo, 2)


def job(p, r, k, ws, *body, rank=None, lv=None):
    g = p.fut()
    return g, "sched %d %d %d %d %d %s" % (k, g, lvl(r, ws) if lv is None else lv, r.randint(0, 3) if rank is None else rank,
                                           p.task(*body), r.choice("IVU"))


def t_jobs(r):
    """jobs from several threads, nobody stops anything"""
    p = P(r)
    p.pr = r.choice([0, 0, 1, 2, 3])
    k, ws = pool(p, r)
    gs = []
    for h in [0] + [p.script() for _ in range(r.randint(0, 2))]:
        for _ in range(r.randint(1, 3)):
            g, o = job(p, r, k, ws, *r.choice([[], ["throw 4"], ["busy 200"], ["waitfor 300"], ["ret 8"]]))
            p.t(h, o)
            gs.append((h, g))
        if r.random() < 0.5:
            p.t(h, r.choice(["get %d", "fwait %d"]) % gs[-1][1])
    if r.random() < 0.4:
        p.m("pcount %d" % k, r.choice(["pwaitall %d" % k, "yield"]))
    return finish(p, 0.3)


def t_jobstop(r):
    """stopping jobs that are pending, running, finished; through the pool, the future, a copy"""
    p = P(r)
    k, ws = pool(p, r, one=r.random() < 0.5)
    gs = []
    for _ in range(r.randint(2, 4)):
        g, o = job(p, r, k, ws, *r.choice([[], ["busy 300"], ["waitfor 400"]]))
        p.m(o)
        gs.append(g)
    s = p.script()
    for g in gs:
        a = r.random()
        if a < 0.3:
            p.m("pstop %d %d" % (k, g))
        elif a < 0.6:
            p.m("jstop %d %d" % (g, g))
        elif a < 0.75:
            p.t(s, "pstop %d %d" % (k, g))
        if a < 0.6 and r.random() < 0.3:
            p.m("pstop %d %d" % (k, g))
    if r.random() < 0.25:
        p.t(s, "pstopall %d" % k)
    r.shuffle(gs)
    p.m("pcount %d" % k)
    for g in gs:
        p.m(r.choice(["get %d", "get %d", "fwait %d"]) % g)
    p.m("pwaitall %d" % k, "pcount %d" % k)
    return finish(p, 0.3)


def t_jobnest(r):
    """jobs and continuations of jobs that use the pool"""
    p = P(r)
    k, ws = pool(p, r)
    a, oa = job(p, r, k, ws)
    inner, oi = job(p, r, k, ws, *r.choice([[], ["busy 100"]]))
    body = [r.choice([oi, oi, "pprio %d %d 2 3" % (k, a), "pstop %d %d" % (k, a), "pcount %d" % k, "pwait %d %d" % (k, a)])]
    if body[0] == oi:
        body += r.choice([[], ["pwait %d %d" % (k, inner)], ["pstop %d %d" % (k, inner)], ["pprio %d %d 2 2" % (k, inner)], ["get %d" % inner],
                          ["fwait %d" % inner]])
    b, ob = job(p, r, k, ws, *body)
    p.m(oa, ob)
    if r.random() < 0.6:
        c, oc = job(p, r, k, ws)
        h = p.fut()
        use = r.choice([oc, "pcount %d" % k, "pstopall %d" % k, "pstop %d %d" % (k, b)])
        p.m("then %d %d %s d %d V" % (a, h, r.choice(["n0", "s"]), p.task(use)))
    if r.random() < 0.4:
        p.m(r.choice(["pstop %d %d" % (k, b), "pstopall %d" % k, "pstop %d %d" % (k, a)]))
    if r.random() < 0.5:
        p.m("process", "pwaitall %d" % k, "process")
    return finish(p, 0.2)


def t_prio(r):
    """jobs of many levels and ranks pile up behind a busy worker"""
    p = P(r)
    p.pr = r.choice([0, 0, 1, 2, 3])
    k, ws = pool(p, r, one=r.random() < 0.4)
    lo = next(i for i, n in enumerate(ws) if n)
    for _ in range(sum(ws)):
        g, o = job(p, r, k, ws, "await 0", lv=r.randint(lo, 2))
        p.m(o)
    n = r.randint(3, 6)
    for _ in range(n):
        g, o = job(p, r, k, ws)
        (p.m if r.random() < 0.8 else p.m)(o)
    p.m("signal 0")
    if r.random() < 0.5:
        g, o = job(p, r, k, ws)
        p.m(o)
    if r.random() < 0.5:
        p.m("pwaitall %d" % k)
    return p.text()


def t_reprio(r):
    """priorities of pending jobs change, several times, up and down"""
    p = P(r)
    p.pr = r.choice([0, 0, 1, 2])
    k, ws = pool(p, r, one=r.random() < 0.5)
    lo = next(i for i, n in enumerate(ws) if n)
    for _ in range(sum(ws)):
        g, o = job(p, r, k, ws, "await 0", lv=r.randint(lo, 2))
        p.m(o)
    gs = []
    for _ in range(r.randint(2, 5)):
        g, o = job(p, r, k, ws)
        p.m(o)
        gs.append(g)
    for _ in range(r.randint(1, 4)):
        g = r.choice(gs)
        p.m(r.choice(["jprio %d %d" % (g, g), "pprio %d %d" % (k, g)]) + " %d %d" % (r.randint(lo, 2), r.randint(0, 4)))
    if r.random() < 0.2:
        p.m("pstop %d %d" % (k, r.choice(gs)))
    p.m("signal 0")
    if r.random() < 0.5:
        g = r.choice(gs)
        p.m("pprio %d %d %d %d" % (k, g, r.randint(lo, 2), r.randint(0, 4)))
    if r.random() < 0.6:
        p.m("pwaitall %d" % k)
    return p.text()


def t_rerank(r):
    """jobs of one level whose order within the level is changed before they start"""
    p = P(r)
    p.pr = r.choice([0, 0, 1, 2, 3])
    lv = r.choice([0, 0, 1, 2])
    ws = [0, 0, 0]
    ws[r.randint(0, lv)] = 1
    k = p.np
    p.np += 1
    p.m("pool %d %d %d %d" % ((k,) + tuple(ws)))
    g, o = job(p, r, k, ws, "await 0", lv=2, rank=4)
    p.m(o)
    gs = []
    for _ in range(r.randint(3, 5)):
        g, o = job(p, r, k, ws, lv=lv, rank=r.randint(0, 3))
        p.m(o)
        gs.append(g)
    for _ in range(r.randint(1, 3)):
        g = r.choice(gs)
        p.m(r.choice(["jprio %d %d" % (g, g), "pprio %d %d" % (k, g)]) + " %d %d" % (lv if r.random() < 0.8 else r.randint(lv, 2), r.randint(2, 6)))
    p.m("signal 0")
    if r.random() < 0.6:
        p.m("pwaitall %d" % k)
    return p.text()


def t_pwaits(r):
    """waiting for jobs from several threads while jobs run, finish, or are stopped"""
    p = P(r)
    k, ws = pool(p, r)
    gs = []
    n = r.choice([r.randint(1, 4), r.randint(6, 8)])
    slow = r.randrange(2) if n > 4 else -1      # among many, one that outlasts the others
    for i in range(n):
        g, o = job(p, r, k, ws, *["sleep 9000"] if i == slow else r.choice([[], ["busy 300"], ["waitfor 400"], ["throw 3"], ["sleep 200"]]))
        p.m(o)
        gs.append(g)
    for _ in range(r.randint(1, 2)):
        s = p.script()
        p.t(s, r.choice(["pwait %d %d" % (k, r.choice(gs)), "pwaitall %d" % k]))
        if r.random() < 0.4:
            p.m("invoke v%d %d" % (s, p.task()))
    if r.random() < 0.4:
        p.m(r.choice(["pstop %d %d" % (k, r.choice(gs)), "pstopall %d" % k]))
    p.m(r.choice(["pwait %d %d" % (k, r.choice(gs)), "pwaitall %d" % k] if slow < 0 else ["pwaitall %d" % k]))
    return finish(p, 0.3)


def t_waitfail(r):
    """waiting for all jobs, some of which fail long before the others end"""
    p = P(r)
    k, ws = pool(p, r)
    n = r.randint(2, 5)
    bad = r.randrange(n)
    for i in range(n):
        g, o = job(p, r, k, ws, *(r.choice([["throw 3"], ["busy 100", "throw 5"], ["sleep 50", "throw 4"]]) if i == bad or r.random() < 0.2
                                  else r.choice([["busy 300"], ["waitfor 400"], ["busy 900"], ["sleep 200"], ["busy 200", "ret 6"]])))
        p.m(o)
    if r.random() < 0.5:
        p.m(r.choice(["yield", "busy 100"]))
    if r.random() < 0.4:
        p.t(p.script(), "pwaitall %d" % k, "pcount %d" % k)
    p.m("pwaitall %d" % k, "pcount %d" % k)
    return finish(p, 0.3)


def t_stopwait(r):
    """waiting for jobs that somebody tried to stop after they had started"""
    p = P(r)
    k, ws = pool(p, r, one=r.random() < 0.5)
    gs = []
    for _ in range(r.randint(1, 3)):
        g, o = job(p, r, k, ws, *r.choice([["busy 300"], ["waitfor 400"], ["busy 200", "ret 7"], ["sleep 300"], []]))
        p.m(o)
        gs.append(g)
    p.m(r.choice(["busy 100", "yield", "waitfor 100", "sleep 100"]))
    s = p.script() if r.random() < 0.5 else 0
    for g in gs:
        if r.random() < 0.6:
            p.t(s, r.choice(["pstop %d %d" % (k, g), "jstop %d %d" % (g, g)]))
    if r.random() < 0.3:
        p.t(s, "pstopall %d" % k)
    w = r.choice([0, s])
    p.t(w, r.choice(["pwait %d %d" % (k, gs[0]), "pwait %d %d" % (k, gs[0]), "pwaitall %d" % k, "pwait %d %d" % (k, r.choice(gs))]), "pcount %d" % k)
    p.m("pwaitall %d" % k)
    return finish(p, 0.3)


def t_stalejobs(r):
    """handles of jobs that are over, used while later jobs are pending"""
    p = P(r)
    k, ws = pool(p, r, one=r.random() < 0.7)
    old, new = [], []
    for _ in range(r.randint(1, 3)):
        g, o = job(p, r, k, ws, *r.choice([[], [], ["busy 100"]]))
        p.m(o)
        old.append(g)
    p.m(r.choice(["pstopall %d" % k, "pwaitall %d" % k, "pwaitall %d" % k]))
    if r.random() < 0.4:
        p.m("pwaitall %d" % k)
    for i in range(r.randint(2, 4)):
        g, o = job(p, r, k, ws, *([["busy 300"]] if not i else [[], ["busy 100"]])[0])
        p.m(o)
        new.append(g)
    s = p.script() if r.random() < 0.4 else 0
    for g in old:
        p.t(s, r.choice(["jstop %d %d" % (g, g), "pstop %d %d" % (k, g), "jprio %d %d 2 3" % (g, g), "pprio %d %d 2 3" % (k, g), "pwait %d %d" % (k, g)]))
    for g in r.sample(new, r.randint(1, len(new))):
        p.m(r.choice(["get %d", "fwait %d"]) % g)
    p.m("pwaitall %d" % k)
    return finish(p, 0.3)


def t_pdestroy(r):
    """destroying a pool with running and pending jobs"""
    p = P(r)
    k, ws = pool(p, r)
    gs = []
    for _ in range(r.randint(1, 5)):
        g, o = job(p, r, k, ws, *r.choice([[], ["busy 300"], ["waitfor 400"], ["sleep 300", "exitq"], ["wait"], ["throw 4"]]))
        p.m(o)
        gs.append(g)
    if r.random() < 0.4:
        p.m("yield") if r.random() < 0.5 else p.m("busy 200")
    if r.random() < 0.3:
        h = p.fut()
        g = gs.pop(0)
        p.m("then %d %d n0 d %d V" % (g, h, p.task()))
    p.m("pdestroy %d" % k)
    for g in gs:
        if r.random() < 0.3:
            p.m(r.choice(["jstop %d %d" % (g, g), "jprio %d %d 2 3" % (g, g)]))
        p.m(r.choice(["get %d", "fwait %d", "ready %d"]) % g)
    if r.random() < 0.3:
        k, ws = pool(p, r)
        g, o = job(p, r, k, ws)
        p.m(o, "get %d" % g)
    return p.text()


# ---------------------------------------------------------------- arguments
def t_args(r):
    """every way of passing a callable and arguments, to busy, idle, own and leaving threads"""
    p = P(r)
    w = p.loop()
    forms = list("abcdeghijklnop")
    k, ws = None, None
    if r.random() < 0.4:
        k, ws = pool(p, r)
    gs = []
    for _ in range(r.randint(3, 6)):
        f = r.choice(forms)
        tgt = r.choice(["s", "v%d" % w, "v%d" % w, "n4242"])
        a = r.random()
        body = r.choice([[], [], ["ret %d" % r.randint(1, 90)], ["throw 9"] if a >= 0.4 else []])
        if a < 0.2:
            p.m("inva %s %d %s" % (tgt, p.task(*body), f))
        elif a < 0.4:
            p.m("dispa %s %d %s" % (tgt, p.task(*body), f))
        elif a < 0.7 or k is None:
            g = p.fut()
            p.m("asyna %d %s %s %d %s" % (g, r.choice([tgt, tgt, "new"]), r.choice("dae"), p.task(*body), f))
            gs.append((g, f))
        else:
            g = p.fut()
            p.m("scheda %d %d %d %d %d %s" % (k, g, lvl(r, ws), 0, p.task(*body), f))
            gs.append((g, f))
    p.m("process")
    for g, f in gs:
        if f != "k" and r.random() < 0.3 and k is None:
            h = p.fut()
            p.m("thena %d %d %s d %d %s" % (g, h, r.choice(["s", "v%d" % w, "n0"]), p.task(), r.choice("gh")), "process")
            g = h
        p.m(r.choice(["get %d", "get %d", "fwaitfor %d 900"]) % g)
    if k is not None:
        p.m("pdestroy %d" % k)
    p.m("join %d" % w, "process", "census")
    return p.text()


# ---------------------------------------------------------------- counts
def t_counts(r):
    """pending counts of idle, busy and nested threads"""
    p = P(r)
    q = p.script()
    p.t(q, "await 0", "pend s", r.choice(["process", "waitfor 400", "processfor 300"]), "pend s", "depth")
    n = r.choice([r.randint(1, 4), r.randint(1, 4), r.randint(5, 8)])
    for _ in range(n):
        p.m("invoke v%d %d" % (q, p.task(*r.choice([[], ["pend s", "depth"], ["invoke s %d" % p.task("depth", "pend s"), "process", "pend s"],
                                                     ["waitfor 200", "depth"], ["dispatch s %d" % p.task("depth")]]))))
        if r.random() < 0.5:
            p.m("pend v%d" % q)
    p.m("pend n%d" % r.choice([0, 4242]), "signal 0", "pend v%d" % q, "join %d" % q, "pend v%d" % q)
    return p.text()


def t_throws(r):
    """tasks that throw out of processing calls, with others behind them"""
    p = P(r)
    n = r.randint(1, 4)
    for _ in range(n):
        x = p.task(*r.choice([[], ["throw %d" % r.randint(1, 50)], ["throw 5"], ["depth"], ["invoke s %d" % p.task(), "throw 6"],
                              ["process", "throw 7"], ["pend s", "depth"]]))
        p.m("%s s %d" % ("invoke" if r.random() < 0.8 else "invoke", x))
    for _ in range(n + 1):
        p.m(r.choice(["process", "process", "waitfor 300", "processfor 300"]), r.choice(["depth", "pend s"]))
    p.m("process", "pend s", "depth", "invoke s %d" % p.task("depth"), "process", "process")
    if r.random() < 0.3:
        p.m("dispatch s %d" % p.task("throw 8"), "depth")
    return p.text()


def t_depths(r):
    """processing nested several levels deep"""
    p = P(r)
    x = p.task("depth")
    for _ in range(r.randint(1, 4)):
        inner = ["invoke s %d" % x, r.choice(["process", "waitfor 300", "processfor 500", "sleep 200"]), "depth"]
        if r.random() < 0.3:
            inner.insert(0, "dispatch s %d" % p.task("depth"))
        if r.random() < 0.3:
            inner.append("pend s")
        x = p.task(*inner)
    who = r.choice([0, 1])
    if who:
        w = p.loop()
        p.m("invoke v%d %d" % (w, x), "invoke v%d %d" % (w, p.task("depth")), "pend v%d" % w)
        return finish(p, 0.2)
    p.m("invoke s %d" % x, "process", "depth", "pend s")
    return p.text()


# ---------------------------------------------------------------- destructors
def t_dtors(r):
    """functions whose destruction calls the library, ran or dropped, by whom ever"""
    p = P(r)
    a, b = p.loop(), p.loop()
    prs = [p.prom(r.choice("IV")) for _ in range(r.randint(1, 2))]
    pool = r.random() < 0.4
    ends = r.random() < 0.6
    if pool:
        p.m("pool 0 1 %d 0" % r.randint(0, 1))
    out = [0]

    def act(depth=0):
        """what a destructor does"""
        ops = []
        for _ in range(r.randint(1, 2)):
            k = r.random()
            if k < 0.45:
                if depth < 2 and r.random() < 0.4:
                    ops += ["carry %d" % p.task(*act(depth + 1))]
                ops += ["%s v%d %d" % (r.choice(["invoke", "invoke", "dispatch"]), r.choice([a, b, b, 0]), p.task())]
            elif k < 0.6 and prs:
                ops += [fulfil(r, prs.pop()[0])]
            elif k < 0.7 and out[0] < 4:
                out[0] += 1
                ops += ["async %d v%d a %d I" % (p.fut(), r.choice([a, b]), p.task())]
            elif k < 0.8:
                ops += [r.choice(["list", "getid", "exitq", "isreg", "process", "waitfor %d" % dur(r), "sleep 200"])]
            elif k < 0.9 and pool and not ends:
                ops += ["sched 0 %d - 0 %d I" % (p.fut(), p.task())]
            else:
                ops += [r.choice(["notify v%d" % a, "cvall 0", "cvone 0"])]
        return ops

    def guard():
        return "carry %d" % p.task(*act())
    q = p.script(start=False) if r.random() < 0.6 else 0
    mine = lambda *o: p.t(q, *o)
    ready = [p.prom("I") for _ in range(3)]
    if q:
        p.m("spawn %d" % q)
    for _ in range(r.randint(1, 3)):
        k = r.choice(["inv", "inv", "inv", "disp", "async", "then", "then", "bad"] + ["sched"] * 2 * pool)
        to = r.choice(["v%d" % a, "v%d" % b, "s"])
        body = r.choice([[], [], ["busy 200"], ["invoke v%d %d" % (b, p.task())]])
        if k == "inv":
            mine(guard(), "invoke %s %d" % (to, p.task(*body)))
        elif k == "disp":
            mine(guard(), "dispatch %s %d" % (to, p.task(*body)))
        elif k == "bad":
            mine(guard(), "invoke n99 %d" % p.task())
        elif k == "async":
            g = p.fut()
            mine(guard(), "async %d %s %s %d I" % (g, r.choice([to, to, "new"]), r.choice("da"), p.task(*body)))
            if r.random() < 0.5 and to != "s":
                mine("fwait %d" % g)
        elif k == "then":
            n, f = ready.pop()
            g = p.fut()
            mine(guard(), "then %d %d %s %s %d I" % (f, g, to, r.choice("da"), p.task(*body)))
            p.m(r.choice([fulfil(r, n), fulfil(r, n), "drop %d" % n]))
        else:
            g = p.fut()
            mine(guard(), "sched 0 %d - 0 %d I" % (g, p.task(*body)))
            if r.random() < 0.3:
                mine("jstop %d %d" % (g, g))
    if r.random() < 0.8:
        mine(r.choice(["process", "process", "waitfor 300"]))
    elif q:
        mine("unreg")
    if r.random() < 0.3:
        p.m("nexit v%d" % a)
    if r.random() < 0.5:
        p.m("process")
    if pool and r.random() < 0.4:
        p.m("pstopall 0")
    if pool and r.random() < 0.5:
        p.m("pwaitall 0")
    if pool and ends:
        if q:
            p.t(q, "signal 9")
            p.m("await 9")
        p.m("pdestroy 0")
    for h in ([q] if q else []) + [a, b]:
        if r.random() < 0.8:
            p.m("join %d" % h)
    if r.random() < 0.5:
        p.m("process")
    return p.text()


def t_dtorjobs(r):
    """jobs whose destruction uses the pool they were given to"""
    p = P(r)
    a = p.loop()
    k, ws = pool(p, r, one=r.random() < 0.7)
    first, o = job(p, r, k, ws, *r.choice([["busy 300"], ["waitfor 300"], []]))
    gs = [first]
    p.m(o)

    def act():
        c = r.random()
        if c < 0.3:
            return job(p, r, k, ws)[1]
        if c < 0.5:
            return "pcount %d" % k
        if c < 0.6:
            return "pstop %d %d" % (k, first)
        if c < 0.75:
            return "pprio %d %d 2 %d" % (k, r.choice(gs), r.randint(0, 3))
        return "invoke v%d %d" % (a, p.task())
    for _ in range(r.randint(1, 3)):
        c = p.task(*[act() for _ in range(r.randint(1, 2))])
        g, o = job(p, r, k, ws, *r.choice([[], [], ["busy 100"]]))
        p.m("carry %d" % c, o)
        gs.append(g)
    s = p.script() if r.random() < 0.5 else 0
    for g in gs[1:]:
        x = r.random()
        if x < 0.6:
            p.t(s if r.random() < 0.5 else 0, r.choice(["pstop %d %d" % (k, g), "jstop %d %d" % (g, g)]))
    if r.random() < 0.4:
        p.t(s, "pstopall %d" % k)
    if s:
        p.t(s, "signal 9")
        p.m("await 9")
    p.m(r.choice(["pwaitall %d" % k, "waitfor 500", "pwait %d %d" % (k, gs[-1])]), "pcount %d" % k)
    return finish(p, 0.3)


def t_dtorconts(r):
    """continuations whose destruction uses the future they hang on"""
    p = P(r)
    a = p.loop()
    n = r.randint(1, 2)
    pr, fs = p.prom("I", 2 * n + 1)
    end = r.choice([fulfil(r, pr), fulfil(r, pr), "drop %d" % pr])
    q = p.script(start=False) if r.random() < 0.5 else 0
    if q:
        p.m("spawn %d" % q)
    for i in range(n):
        f, g, h = fs[2 * i], fs[2 * i + 1], p.fut()
        c = p.task(*r.sample(["fwaitfor %d 0" % g, "fwaitfor %d 100" % g, "then %d %d %s d %d V" % (g, p.fut(), r.choice(["v%d" % a, "s", "n0"]), p.task()),
                              "fwait %d" % g, "invoke v%d %d" % (a, p.task()), "list" if end[:4] == "drop" else "setv %d 3" % pr], r.randint(1, 2)))
        p.t(q if r.random() < 0.5 else 0, "carry %d" % c,
            "then %d %d %s %s %d %s" % (f, h, r.choice(["v%d" % a, "s", "n0", "new"]), r.choice("da"), p.task(), r.choice("IV")))
    if r.random() < 0.3:
        p.m("nexit v%d" % a)
    p.m(end, r.choice(["process", "waitfor 300", "fwait %d" % fs[-1]]))
    if q:
        p.t(q, r.choice(["process", "waitfor 300", "unreg"]))
    return finish(p, 0.3)


def t_tries(r):
    """data guarded by a mutex that is mostly tried for"""
    p = P(r)
    n = 0
    for h in [0] + [p.script() for _ in range(r.randint(1, 2))]:
        for _ in range(r.randint(1, 3)):
            n += 1
            p.t(h, r.choice(["mtry 0", "mtry 0", "mlock 0"]), *["see %d" % x for x in r.sample(range(1, 6), 2)], "put %d" % n, "munlock 0",
                *r.choice([[], [], ["yield"], ["waitfor 100"]]))
        if h:
            p.t(h, "unreg")
    return finish(p, 0.5)


def t_polls(r):
    """a result, an exit or a registration is noticed by asking again and again, never by waiting"""
    p = P(r)
    w = p.loop()
    k = r.choice("IIVU")
    pr, fs = p.prom(k, 2) if k != "U" else p.prom(k)
    fs = [fs] if k == "U" else fs
    ask = lambda f: r.choice(["ready %d" % f, "ready %d" % f, "fwaitfor %d 0" % f, "err %d" % f])
    hs = [p.script() for f in fs[1:]]
    for h, f in zip(hs, fs[1:]):
        for _ in range(r.randint(1, 3)):
            p.t(h, ask(f), "see 1", r.choice(["yield", "busy 100", "see 2"]))
        p.t(h, "unreg")
    end = fulfil(r, pr)
    p.m("invoke v%d %d" % (w, p.task("put 1", end)) if r.random() < 0.6 else
        "async %d v%d d %d V" % (p.fut(), w, p.task("put 1", end)))
    for _ in range(r.randint(1, 4)):
        p.m(ask(fs[0]), "see 1", r.choice(["yield", "busy 100", "sleep 100"]))
    if r.random() < 0.5:
        p.m("put 2", "nexit v%d" % w)
    return finish(p, 0.4)


def t_publish(r):
    """marks handed over along chains of calls"""
    p = P(r)
    hs = [p.loop() for _ in range(r.randint(1, 2))]
    n = 0

    def put():
        nonlocal n
        n += 1
        return "put %d" % n

    def sees():
        return ["see %d" % x for x in range(max(1, n - 2), n + 1)]

    v = lambda: "v%d" % r.choice(hs)
    shapes = r.sample(["promise", "async", "then", "relay", "mutex", "pool", "join", "shared", "told", "told"], r.randint(1, 3))
    for k in shapes:
        if k == "promise":
            q, f = p.prom(r.choice(["I", "V"]))
            a = put()
            p.m("invoke %s %d" % (v(), p.task(a, "setv %d 5" % q, *[put()] * (r.random() < 0.3))))
            p.m(*r.choice([["get %d" % f], ["fwait %d" % f, "see %d" % n, "get %d" % f], ["fwaitfor %d 900" % f, "see %d" % n],
                           ["ready %d" % f, "see %d" % n, "get %d" % f]]), *sees())
        elif k == "shared":
            q, cs = p.prom("I", shared=2)
            a = put()
            p.m("invoke %s %d" % (v(), p.task("fwait %d" % cs[0], *sees())))
            p.m("invoke %s %d" % (v(), p.task(a, "setv %d 5" % q)))
            p.m("get %d" % cs[1], *sees())
        elif k == "told":
            # no longer waiting for the result while it is being stored
            q, cs = p.prom(r.choice("IU"), shared=2)
            h = p.script()
            p.t(h, r.choice(["fwait %d" % cs[0], "waitfor 200", "yield"]), *["get %d" % cs[0]] * r.randint(1, 2), "unreg")
            a = put()
            p.m("nexit v%d" % h, a, r.choice(["setv %d 5" % q, "invoke %s %d" % (v(), p.task("setv %d 5" % q))]), "get %d" % cs[1], *sees())
        elif k == "async":
            f = p.fut()
            a, b = put(), put()
            p.m(a, "async %d %s %s %d I" % (f, v(), r.choice("dae"), p.task("see %d" % (n - 1), b)), "get %d" % f, *sees())
        elif k == "then":
            q, f = p.prom("I")
            g = p.fut()
            a, b, c = put(), put(), put()
            p.m(a, "then %d %d %s %s %d I" % (f, g, v(), r.choice("dae"), p.task(*sees(), c)))
            p.m("invoke %s %d" % (v(), p.task(b, "setv %d 5" % q)), "get %d" % g, *sees())
        elif k == "relay":
            a, b = put(), put()
            t2 = p.task("see %d" % (n - 1), "see %d" % n, "signal 0")
            t1 = p.task("see %d" % (n - 1), b, "%s s %d" % (r.choice(["invoke", "dispatch"]), t2) if r.random() < 0.3 else
                        "invoke %s %d" % (v(), t2))
            p.m(a, "invoke %s %d" % (v(), t1))
        elif k == "mutex":
            h = p.script()
            a, b = put(), put()
            lk = "mlock 0"
            p.t(h, *(["mtry 0", "see %d" % (n - 1)] if r.random() < 0.3 else []))
            p.t(h, lk, *sees(), b, "munlock 0", "unreg")
            p.m(lk, a, *sees(), "munlock 0", "waitfor 200", lk, *sees(), "munlock 0")
        elif k == "pool":
            c, ws = pool(p, r, one=True)
            a, b = put(), put()
            g, o = job(p, r, c, ws, *sees(), b)
            p.m(a, o, r.choice(["pwaitall %d" % c, "pwait %d %d" % (c, g), "pdestroy %d" % c, "get %d" % g]), *sees())
        elif k == "join":
            a, b = put(), put()
            h = p.script(start=False)
            p.t(h, "see %d" % (n - 1), b, "unreg")
            p.m(a, "spawn %d" % h, "join %d" % h, *sees())
    return p.text()


# ---------------------------------------------------------------- threads that are not registered, reports
def t_strays(r):
    """calls of threads that never registered, or no longer are"""
    p = P(r)
    w = p.loop()
    kd = r.choice("IIVU")
    q, cs = p.prom(kd, shared=4)
    q2, f2 = p.prom("I")
    pl = None
    if r.random() < 0.25:
        pl, ws = pool(p, r, one=True)
    futs = list(cs)

    def some(n, k):
        o = []
        for _ in range(n):
            x = r.choice(["ask", "ask", "ask", "wait", "wait", "timed", "timed", "proc", "fut", "fut", "fut", "send", "send", "async", "then",
                          "set", "cv", "other", "zero", "zero", "pool"])
            if x == "ask":
                o.append(r.choice(["getid", "isreg", "exitq", "depth"]))
            elif x == "wait":
                o.append("wait")
            elif x == "timed":
                o.append("%s %d" % (r.choice(["waitfor", "sleep", "processfor"]), r.choice([0, 200, 900000])))
            elif x == "proc":
                o.append("process")
            elif x == "fut":
                f = r.choice(cs)
                o.append(r.choice(["fwait %d", "fwaitfor %d " + str(r.choice([0, 300, 900000])), "get %d", "ready %d", "get %d"]) % f)
            elif x == "send":
                o.append("%s v%d %d" % (r.choice(["invoke", "dispatch"]), r.choice([w, 0]), p.task(*r.choice([[], ["busy 100"], ["getid"]]))))
            elif x == "async":
                g = p.fut()
                o.append("async %d %s %s %d I" % (g, r.choice(["v%d" % w, "s", "new"]), r.choice("da"), p.task("getid")))
                o.append("%s %d" % (r.choice(["get", "fwait", "get"]), g))
            elif x == "then":
                g = p.fut()
                o.append("then %d %d %s %s %d %s" % (r.choice(cs), g, r.choice(["v%d" % w, "s", "v0"]), r.choice("da"), p.task(),
                                                     "V" if kd == "V" else "I"))
                if r.random() < 0.5:
                    o.append("get %d" % g)
            elif x == "set":
                o.append("setv %d %d" % (r.choice([q, q2]), k))
            elif x == "cv":
                o += ["ulock %d" % k, r.choice(["cvwait %d %d" % (k, k), "cvwaitfor %d %d 900000" % (k, k)]), "uunlock %d" % k]
            elif x == "zero":
                o.append(r.choice(["invoke n0 %d", "dispatch n0 %d", "dispatch n0 %d", "invoke s %d", "dispatch s %d"]) % p.task()
                         if r.random() < 0.7 else r.choice(["notify n0", "config n0 4 4", "pend n0", "pname s", "config s 1 1"]))
            elif x == "pool" and pl is not None:
                g, j = job(p, r, pl, ws, "busy 200")
                o += [j, r.choice(["pwait %d %d" % (pl, g), "pwaitall %d" % pl, "get %d" % g])]
            else:
                o.append(r.choice(["notify v%d" % w, "nexit v%d" % w if r.random() < 0.2 else "list", "pend v%d" % w, "unreg", "mainid"]))
        return o

    hs = []
    for k in range(r.randint(1, 2)):
        h = p.script(std=r.random() < 0.5, reg=False)
        hs.append(h)
        if r.random() < 0.3:
            p.t(h, "reg %d" % h, r.choice(["waitfor 100", "process", "getid"]), "unreg")
        p.t(h, *some(r.randint(3, 7), k + 1))
        if r.random() < 0.3:
            p.t(h, "reg %d" % h, "getid", "exitq", r.choice(["waitfor 100", "sleep 50"]), "unreg", "exitq")
    for h in hs:
        if r.random() < 0.5:
            p.m("invoke v%d %d" % (h, p.task()))       # what is queued for a spawned thread that does not register itself
    p.m(*r.sample(["waitfor 300", "setv %d 3" % q, "setv %d 4" % q2, "invoke v%d %d" % (w, p.task()), "get %d" % f2 if r.random() < 0.3 else "process"], 3))
    if r.random() < 0.3:
        p.m("unreg", *some(r.randint(1, 3), 3))
    for h in hs:
        p.m("join %d" % h)
    if r.random() < 0.8:
        if pl is not None:
            p.m("pdestroy %d" % pl)
        p.m("join %d" % w)
    return p.text()


def t_logs(r):
    """log hooks: what is reported, by whom, and hooks that use the library"""
    p = P(r)
    p.thr[0] = ["init " + r.choice(["l", "l", "hl"])]
    w = p.loop()
    q, cs = p.prom("I", shared=2)

    def some(stray, k, main=False):
        bad = r.choice(["invoke n0 %d" % p.task(), "dispatch n0 %d" % p.task(), "notify n0", "pend n0", "pname n0", "config n0 2 2"])
        good = r.choice(["invoke v%d %d" % (w, p.task()), "dispatch v%d %d" % (w, p.task()), "notify v%d" % w, "pend v%d" % w, "pname v%d" % w,
                         "config v%d 2 2" % w, "invoke n99 %d" % p.task(), "pend n99", "list", "isreg", "mainid", "init" if main else "isreg"])
        ask = r.choice(["getid", "exitq", "depth", "process", "processfor 100", "waitfor 200", "sleep 100", "wait" if stray else "waitfor 300",
                        "fwaitfor %d 100" % cs[k], "get %d" % cs[k] if stray else "ready %d" % cs[k], "unreg" if stray else "isreg",
                        "waitfor 0", "sleep 0"])
        return r.choice([bad, bad, good, ask, ask])

    for _ in range(r.randint(1, 2)):
        h = p.script(std=r.random() < 0.5, reg=r.random() < 0.4)
        st = not p.thr[h]
        p.t(h, *[some(st, 0) for _ in range(r.randint(2, 5))])
        if not st:
            p.t(h, "unreg", r.choice(["getid", "exitq", "wait"]))
        if r.random() < 0.5:
            p.m("join %d" % h)
    ops = [some(False, 1, True) for _ in range(r.randint(2, 6))]
    n = ops.count("init")
    p.m(*ops)
    if r.random() < 0.3:
        p.m("invoke v%d %d" % (w, p.task(some(False, 1), some(False, 1))))
    if r.random() < 0.3:
        p.m("setv %d 1" % q)
    if r.random() < 0.6:
        p.m(*["shutdown 1"] * (n + 1))
        if r.random() < 0.5:
            p.m(r.choice(["shutdown 1", "invoke n0 %d" % p.task(), "getid"]))
        if r.random() < 0.4:
            p.m("init " + r.choice(["l", "h", "l"]), "pend n0", "invoke s %d" % p.task(), "process", "shutdown 1")
    else:
        if r.random() < 0.3:
            p.m("unreg", r.choice(["getid", "wait", "exitq"]), "reg 0", "getid")
        p.m("join %d" % w)
    return p.text()


class Objects:
    """future and promise objects of one thread; what they stand for is followed so that no call blocks for ever
    and nothing is done to an object that does not exist"""

    def __init__(self, p, kind):
        self.p, self.r, self.kind = p, p.rng, kind
        self.prm, self.obj, self.set, self.used = {}, {}, {}, []   # name -> result; name -> [shared, result]; results; values
        self.got, self.out = set(), []

    def op(self, s):
        self.out.append(s)

    def promise(self):
        q = self.p.np
        self.p.np += 1
        self.prm[q] = q
        self.set[q] = False
        self.op("promise %d %s" % (q, self.kind))
        return q

    def slot(self, shared=False, like=None):
        """an object of that type, or a new name"""
        fs = [f for f, o in self.obj.items() if o[0] == shared and f != like]
        if fs and self.r.random() < 0.6:
            return self.r.choice(fs)
        return self.p.fut()

    def left(self, f):
        """look at the object that was just used up or overwritten"""
        if self.r.random() < 0.75:
            k = self.r.choice(["valid %d", "valid %d", "ready %d", "err %d", "fwaitfor %d 50", "get %d"])
            if k != "get %d" or self.obj[f][1] is None:
                self.op(k % f)

    def step(self):
        r = self.r
        qs, us = list(self.prm), [f for f, o in self.obj.items() if not o[0]]
        ss, fs = [f for f, o in self.obj.items() if o[0]], list(self.obj)
        k = r.choice("promise getfut getfut set set drop passign pswap null move move move swap share share copy copy fdrop get get use use ask ask ask wait then live live live".split())
        if k == "promise" and len(qs) < 3:
            self.promise()
        elif k == "getfut" and qs:
            q = r.choice(qs)
            good = self.prm[q] is not None and self.prm[q] not in self.got
            f = self.slot() if good else (r.choice(us) if us else None)
            if f is not None:
                self.op("getfut %d %d" % (q, f))
                if good:
                    self.obj[f] = [False, self.prm[q]]
                    self.got.add(self.prm[q])
        elif k == "set" and qs:
            q = r.choice(qs)
            v = 10 * self.p.np + len(self.used) + 100
            self.used.append(v)
            self.op(r.choice(["setv %d %d" % (q, v)] * 3 + ["sete %d %d" % (q, r.randint(1, 90)), "abandon %d" % q]))
            if self.prm[q] is not None:
                self.set[self.prm[q]] = True
        elif k == "drop" and len(qs) > 1:
            q = r.choice(qs)
            self.op("drop %d" % q)
            if self.prm[q] is not None:
                self.set[self.prm[q]] = True
            del self.prm[q]
        elif k == "passign" and len(qs) > 1:
            a, b = r.sample(qs, 2)
            self.op("passign %d %d" % (a, b))
            if self.prm[a] is not None:
                self.set[self.prm[a]] = True
            self.prm[a], self.prm[b] = self.prm[b], None
        elif k == "pswap" and len(qs) > 1:
            a, b = r.sample(qs, 2)
            self.op("pswap %d %d" % (a, b))
            self.prm[a], self.prm[b] = self.prm[b], self.prm[a]
        elif k == "null" and r.random() < 0.5:
            sh = r.random() < 0.5
            f = self.slot(sh)
            self.op("fnull %d %s%s" % (f, "s" if sh else "", self.kind))
            self.obj[f] = [sh, None]
        elif k == "move" and fs:
            f = r.choice(fs)
            g = self.slot(self.obj[f][0], f)
            self.op("fmove %d %d" % (f, g))
            self.obj[g] = [self.obj[f][0], self.obj[f][1]]
            self.obj[f][1] = None
            self.left(r.choice([f, f, g]))
        elif k == "swap":
            c = us if r.random() < 0.5 else ss
            if len(c) > 1:
                f, g = r.sample(c, 2)
                self.op("fswap %d %d" % (f, g))
                self.obj[f], self.obj[g] = self.obj[g], self.obj[f]
        elif k == "share" and us:
            f = r.choice(us)
            g = self.slot(True)
            self.op("share %d %d" % (f, g))
            self.obj[g] = [True, self.obj[f][1]]
            self.obj[f][1] = None
            self.left(f)
        elif k == "copy" and ss:
            f = r.choice(ss)
            g = self.slot(True, f)
            self.op("%s %d %d" % (r.choice(["copy", "cassign", "cassign"]), f, g))
            self.obj[g] = [True, self.obj[f][1]]
        elif k == "fdrop" and fs:
            f = r.choice(fs)
            self.op("fdrop %d" % f)
            del self.obj[f]
        elif k == "get":
            c = [f for f in fs if self.obj[f][1] is None or self.set[self.obj[f][1]]]
            if c:
                f = r.choice(c)
                self.op("get %d" % f)
                if not self.obj[f][0]:
                    self.obj[f][1] = None
                self.left(f)
        elif k == "use" and [f for f in us if self.obj[f][1] is not None]:
            f = r.choice([f for f in us if self.obj[f][1] is not None])
            x = self.obj[f][1]
            for q in [q for q in qs if self.prm[q] == x and not self.set[x]]:
                self.used.append(10 * self.p.np + len(self.used) + 100)
                self.op(r.choice(["setv %d %d" % (q, self.used[-1]), "sete %d %d" % (q, r.randint(1, 90)), "abandon %d" % q]))
                self.set[x] = True
            if self.set[x]:
                self.op("get %d" % f)
                self.obj[f][1] = None
                self.left(f)
        elif k == "ask" and fs:
            self.op(r.choice(["valid %d", "ready %d", "err %d"]) % r.choice(fs))
        elif k == "wait" and fs:
            self.op("fwaitfor %d %d" % (r.choice(fs), r.choice([0, 50, 200])))
        elif k == "then" and fs and r.random() < 0.5:
            f = r.choice(fs)
            bad = self.obj[f][1] is None
            g = (r.choice(us) if us else None) if bad else self.p.fut()
            if g is not None and g != f:
                self.op("then %d %d s %s %d V" % (f, g, r.choice("da"), self.p.task()))
                if not self.obj[f][0]:
                    self.obj[f][1] = None
                self.left(f)
        elif k == "live" and self.kind == "T" and self.used:
            self.op("vlive %d" % r.choice(self.used))
        else:
            return self.step()


def t_objects(r):
    """future and promise objects moved, swapped, assigned, shared, copied and used up"""
    p = P(r)
    o = Objects(p, r.choice("TTTTIVU"))
    q = o.promise()
    n = r.randint(8, 20)
    if r.random() < 0.7:
        f = p.fut()
        o.op("getfut %d %d" % (q, f))
        o.got.add(q)
        o.obj[f] = [False, q]
    while len(o.out) < n:
        o.step()
    if r.random() < 0.5:
        for f in list(o.obj):
            o.op("fdrop %d" % f)
        for q in list(o.prm):
            o.op("drop %d" % q)
        o.op("process")
        if o.kind == "T":
            for v in o.used[:3]:
                o.op("vlive %d" % v)
    if r.random() < 0.3:
        h = p.script()
        p.t(h, *o.out)
        p.m("join %d" % h)
    else:
        p.m(*o.out)
    return p.text()


def t_lives(r):
    """several threads with copies of one result: moved, dropped and read; the value lives as long as one of them"""
    p = P(r)
    n = r.randint(1, 3)
    pr, cs = p.prom("T", shared=n)
    hs = []
    for c in cs:
        h = p.script()
        hs.append(h)
        ops, cur = [], c
        for _ in range(r.randint(1, 4)):
            k = r.choice("get fwait move copy drop ask null live".split())
            g = p.fut()
            if k in ("get", "fwait"):
                ops.append("%s %d" % (k, cur))
            elif k == "move":
                ops += ["fmove %d %d" % (cur, g), "valid %d" % cur]
                cur = g
            elif k == "copy":
                ops += ["copy %d %d" % (cur, g), "fdrop %d" % cur]
                cur = g
            elif k == "ask":
                ops.append("%s %d" % (r.choice(["ready", "err", "valid"]), cur))
            elif k == "null":
                ops += ["fnull %d sT" % g, "fswap %d %d" % (cur, g), r.choice(["valid %d", "get %d", "ready %d"]) % cur]
                cur = g
            elif k == "live":
                ops.append("vlive 105")
        if r.random() < 0.6:
            ops.append("fdrop %d" % cur)
        p.t(h, *ops)
    p.m(*r.choice([[], ["yield"], ["waitfor 100"]]))
    p.m("setv %d 105" % pr)
    if r.random() < 0.6:
        p.m("drop %d" % pr)
    first = cs[0] - 1                              # the shared future the copies were made of
    p.m(r.choice(["vlive 105", "get %d" % first, "yield"]))
    if r.random() < 0.6:
        p.m("fdrop %d" % first)
    for h in hs:
        p.m("join %d" % h)
    p.m("vlive 105")
    return p.text()


def t_keeps(r):
    """a value with readers, copies and continuations is gone when the last of them is"""
    p = P(r)
    w = p.loop() if r.random() < 0.4 else None
    pr, cs = p.prom("T", shared=r.randint(1, 3))
    first = cs[0] - 1
    ops = ["setv %d 105" % pr]
    for c in cs:
        ops.append(r.choice(["then %d %d %s %s %d V", "then %d %d s %s %d V"][w is None:][:1])
                   % ((c, p.fut()) + (() if w is None else (r.choice(["s", "v%d" % w]),)) + (r.choice("da"), p.task()))
                   if r.random() < 0.7 else r.choice(["fwaitfor %d 100", "ready %d", "err %d"]) % c)
    r.shuffle(ops)
    p.m(*ops)
    p.m("process", *r.sample(["get %d" % first, "vlive 105", "yield"], 2))
    gone = ["fdrop %d" % c for c in cs + [first]] + ["drop %d" % pr]
    r.shuffle(gone)
    for g in gone:
        p.m(g, *(["vlive 105"] if r.random() < 0.4 else []))
    if w is not None:
        p.m("join %d" % w)
    p.m("process", "vlive 105")
    return p.text()


# ---------------------------------------------------------------- calls that do not wait
def t_free(r):
    """functions of the program take their time (until they are told) while others make calls that do not wait"""
    p = P(r)
    hs = [p.loop() for _ in range(r.randint(1, 2))]
    kinds = r.sample("task nest async cont inline job dtor left mutex stop drop waits cv".split(), r.choice([1, 1, 2]))
    slow = lambda: p.task("signal 5", "await 0")
    ask, mine = [], []                   # calls to choose from; threads that are inside
    pl = None

    def script():
        q = p.script(start=False)
        mine.append(q)
        return q

    def futures(q, fs, over):
        for f in fs:
            ask.extend(["ready %d" % f, "valid %d" % f, "err %d" % f, "fwaitfor %d 0" % f] + (["get %d" % f] if over else []))
            ask.extend([lambda f=f: "then %d %d v%d %s %d I" % (f, p.fut(), r.choice(hs + [0]), r.choice("da"), p.task())] * 2)
        if q is not None:
            ask.extend(["setv %d 7" % q, "sete %d 8" % q])

    if {"job", "stop", "waits"} & set(kinds):
        pl, ws = pool(p, r, one=r.random() < 0.6)
    for k in kinds:
        if k == "task":
            p.m("invoke v%d %d" % (r.choice(hs), slow()))
        elif k == "nest":
            h = r.choice(hs)
            p.m("invoke v%d %d" % (h, p.task(*r.choice([["process"], ["process"], ["waitfor 500"], ["yield", "process"]]))), "invoke v%d %d" % (h, slow()))
        elif k == "async":
            g = p.fut()
            p.m("async %d %s a %d I" % (g, r.choice(["v%d" % r.choice(hs), "new"]), slow()))
            futures(None, [g], False)
        elif k == "cont":
            q, fs = p.prom("I", 3)
            p.m("then %d %d v%d %s %d I" % (fs[0], p.fut(), r.choice(hs), r.choice("da"), slow()), "setv %d 4" % q)
            futures(q, fs[1:], True)
        elif k in ("inline", "drop"):
            q, fs = p.prom("I", 3)
            h = script()
            p.t(h, "then %d %d s d %d I" % (fs[0], p.fut(), slow()), "setv %d 4" % q if k == "inline" else "drop %d" % q)
            futures(q if k == "inline" else None, fs[1:], True)
        elif k == "job":
            g, o = job(p, r, pl, ws, "signal 5", "await 0")
            p.m(o)
            ask.extend(["jstop %d %d" % (g, g), "pprio %d %d 2 3" % (pl, g), "ready %d" % g, "pstop %d %d" % (pl, g)])
        elif k == "dtor":
            p.m("carry %d" % slow(), "invoke v%d %d" % (r.choice(hs), p.task()))
        elif k == "left":
            h = script()
            p.t(h, "carry %d" % slow(), "invoke s %d" % p.task(), "unreg")
        elif k == "mutex":
            h = script()
            p.t(h, "mlock 0", "signal 5", "await 0", "munlock 0")
            ask.extend(["mtry 0"] * 3 + ["munlock 0"] * 2)
        elif k == "stop":
            b, o1 = job(p, r, pl, ws, "await 0")
            g, o2 = job(p, r, pl, ws, lv=2, rank=0)
            for _ in range(sum(ws) - 1):
                p.m(job(p, r, pl, ws, "await 0")[1])
            p.m(o1, "carry %d" % slow(), o2)
            h = script()
            p.t(h, r.choice(["pstop %d %d" % (pl, g), "pstopall %d" % pl, "jstop %d %d" % (g, g)]))
        elif k == "waits":
            g, o = job(p, r, pl, ws, "signal 5", "await 0")
            p.m(o)
            h = script()
            p.t(h, r.choice(["pwaitall %d" % pl, "pwait %d %d" % (pl, g)]))
        elif k == "cv":
            h = script()
            p.t(h, "ulock 0", "signal 5", r.choice(["cvwait 0 0", "cvwaitfor 0 0 900000"]), "uunlock 0", "await 0")
            ask.extend(["cvone 0", "cvall 0"])
    for h in mine:
        p.m("spawn %d" % h)
        p.t(h, *r.choice([[], ["process"], ["unreg"]]))
    who = p.script(std=r.random() < 0.3) if r.random() < 0.4 else 0
    if who:
        p.m(*r.choice([[], ["process"], ["await 0"], ["waitfor 400"]]))
    if r.random() < 0.75:
        p.t(who, "await 5")
    gs, every = [], []
    for _ in range(r.randint(3, 7)):
        h = r.choice(hs + mine)
        x = r.choice(["thread"] * 3 + ["own"] * (4 if ask else 0) + ["pool"] * (4 if pl is not None else 0) + ["all", "new"])
        if x == "own":
            o = r.choice(ask)
            every.append(o if isinstance(o, str) else o())
        elif x == "pool":
            if gs and r.random() < 0.5:
                g = r.choice(gs)
                every.append(r.choice(["pstop %d %d" % (pl, g), "jstop %d %d" % (g, g), "pprio %d %d 2 %d" % (pl, g, r.randint(0, 4)), "ready %d" % g]))
            elif r.random() < 0.3:
                every.append(r.choice(["pcount %d" % pl, "pstopall %d" % pl]))
            else:
                g, o = job(p, r, pl, ws)
                gs.append(g)
                every.append(o)
        elif x == "thread":
            every.append(r.choice(["invoke v%d %d" % (h, p.task()), "invoke v%d %d" % (h, p.task()), "dispatch v%d %d" % (h, p.task()), "notify v%d" % h,
                                   "pend v%d" % h, "pname v%d" % h, "config v%d 2 2" % h,
                                   "async %d v%d a %d I" % (p.fut(), h, p.task()), "nexit v%d" % h if h in hs and r.random() < 0.3 else "pend v%d" % h]))
        elif x == "all":
            every.append(r.choice(["list", "list", "mainid", "exitq", "getid", "process", "processfor 200"]))
        else:
            every.append("async %d new a %d I" % (p.fut(), p.task()) if r.random() < 0.5 else "invoke v0 %d" % p.task())
    p.t(who, *every)
    p.t(who, "signal 0")
    if "cv" in kinds:
        p.t(who, "cvall 0")
    if who:
        p.t(who, "unreg")
    if r.random() < 0.5:
        p.m("process")
    return finish(p, 0.4)
