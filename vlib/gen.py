"""Program generators.  A program is a set of thread scripts and task bodies over the public API (see
rt/driver.cpp for the operations).  Names are static: every task, future slot and promise is used for one
thing only, so that the specification can refer to them by number.

Two sources of programs per property: `mix` draws random programs from a weighted set of features, the
functions named t_* are templates of situations that random programs reach too rarely."""
import random


class Builder:
    def __init__(self, rng):
        self.rng = rng
        self.thr = {}
        self.tsk = {}
        self.ntask = 0
        self.nfut = 0
        self.nprom = 0
        self.nh = 0
        self.unit = 1
        self.prios = 0
        self.kind = {}      # future slot -> value kind, lower case if shared

    def op(self, i, *words):
        self.thr.setdefault(i, []).append(" ".join(str(w) for w in words))

    def handle(self):
        self.nh += 1
        return self.nh

    def task(self, *ops, body=None):
        self.ntask += 1
        t = self.ntask
        lines = list(ops) + (body or [])
        if lines:
            self.tsk[t] = lines
        return t

    def tasks(self, n):
        first = self.ntask + 1
        self.ntask += n
        return first

    def fut(self, kind="I"):
        self.nfut += 1
        self.kind[self.nfut] = kind
        return self.nfut

    def prom(self):
        p = self.nprom
        self.nprom += 1
        return p

    def text(self):
        out = []
        if self.unit != 1:
            out.append("unit %d" % self.unit)
        if self.prios:
            out.append("prios %d" % self.prios)
        for i in sorted(self.thr):
            out.append("thread %d" % i)
            out += self.thr[i]
        for t in sorted(self.tsk):
            out.append("task %d" % t)
            out += self.tsk[t]
        return "\n".join(out) + "\n"


class Actor:
    """who executes a list of operations and what it may use"""

    def __init__(self, depth=0, targets=(), own=None):
        self.ops = []
        self.depth = depth
        self.targets = list(targets)
        self.own = own          # unique futures
        self.futs = []          # unique future slots held
        self.shared = []        # shared future slots held
        self.proms = []         # (promise, kind) it may fulfil
        self.gone = []          # futures it has consumed
        self.mine = []          # promises nobody else uses
        self.jobs = []          # (pool, job)
        self.ins = {}           # collecting future -> its inputs
        self.locks = True       # may take user locks
        self.h = 0              # its thread


class Mixer:
    def __init__(self, rng, weights, **shape):
        self.b = Builder(rng)
        self.rng = rng
        self.w = weights
        self.sh = dict(loops=(0, 2), scripts=(1, 2), ops=(2, 5), depth=2, proms=(0, 2), pools=(0, 0), maxtask=14,
                       times=(200, 3000), cvs=1, mxs=1, shutdown=0.2, maxops=40,
                       owned=0.5 if "drop" in weights or "passign" in weights else 0.0)
        self.sh.update(shape)
        self.nops = 0

    def dur(self):
        lo, hi = self.sh["times"]
        return self.rng.randint(lo, hi)

    def val(self):
        return self.rng.randint(1, 90)

    def target(self, a, own=0.25):
        if self.rng.random() < own:
            return "s"
        if not a.targets:
            return "s"
        return "v%d" % self.rng.choice(a.targets)

    def child(self, a, keep_res=True):
        """a task body with resources taken from its creator"""
        b, rng = self.b, self.rng
        c = Actor(a.depth + 1, a.targets)
        c.locks = False
        if a.proms and rng.random() < 0.5:
            c.proms.append(rng.choice(a.proms))
            if c.proms[0] in a.mine:
                a.mine.remove(c.proms[0])
        c.jobs = list(a.jobs)
        if a.depth + 1 <= self.sh["depth"] and b.ntask < self.sh["maxtask"] and rng.random() < 0.7:
            self.fill(c, rng.randint(0, 2))
        end = []
        r = rng.random()
        if r < 0.3:
            end = ["ret %d" % self.val()]
        return c, end

    def newtask(self, a, throws=0.0):
        c, end = self.child(a)
        if self.rng.random() < throws:
            end = ["throw %d" % self.val()]
        return self.b.task(*(c.ops + end))

    def throws(self, t):
        """an exception that leaves a plain task may only meet a thread of the program"""
        return self.w.get("throw", 0) if t in self.own_threads else 0

    # ---- features
    def f_inv(self, a):
        t = self.target(a, 0.15)
        a.ops.append("invoke %s %d" % (t, self.newtask(a, self.throws(t))))

    def f_disp(self, a):
        t = self.target(a, 0.35)
        a.ops.append("dispatch %s %d" % (t, self.newtask(a, self.throws(t))))

    def f_self(self, a):
        a.ops.append("invoke s %d" % self.newtask(a))

    def f_burst(self, a):
        n = self.rng.choice([2, 3, 4, 5])
        a.ops.append("burst %s %d %d" % (self.target(a), self.b.tasks(n), n))

    def f_bad(self, a):
        a.ops.append("%s n%d %d" % (self.rng.choice(["invoke", "invoke", "dispatch"]), self.rng.choice([0, 4242, 77]), self.b.task()))

    def f_wait(self, a):
        a.ops.append("wait")

    def f_waitfor(self, a):
        a.ops.append("%s %d" % (self.rng.choice(["waitfor", "waitfor", "waituntil"]), self.dur()))

    def f_sleep(self, a):
        a.ops.append("%s %d" % (self.rng.choice(["sleep", "sleep", "sleepuntil"]), self.dur()))

    def f_process(self, a):
        a.ops.append("process")

    def f_processfor(self, a):
        a.ops.append("processfor %d" % self.dur())

    def f_busy(self, a):
        a.ops.append("busy %d" % self.rng.randint(100, 1500))

    def f_notify(self, a):
        a.ops.append("notify %s" % self.target(a, 0.1))

    def f_nexit(self, a):
        a.ops.append("nexit %s" % self.target(a, 0.1))

    def f_pend(self, a):
        a.ops.append("pend %s" % self.target(a, 0.4))

    def f_depth(self, a):
        a.ops.append("depth")

    def f_list(self, a):
        a.ops.append("list")

    def f_exitq(self, a):
        a.ops.append("exitq")

    def f_ids(self, a):
        a.ops.append(self.rng.choice(["getid", "isreg", "mainid"]))

    def f_rereg(self, a):
        """registering again; another registration"""
        if a.depth == 0:
            if a.h and self.rng.random() < 0.5:
                a.ops.append("unreg")
                if self.rng.random() < 0.3:
                    a.ops.append(self.rng.choice(["isreg", "getid", "list"]))
            a.ops.append("reg %d" % a.h)

    def f_config(self, a):
        a.ops.append("config %s %d %d" % (self.target(a), self.rng.choice([0, 1, 16, 64]), self.rng.choice([0, 1, 2, 4, 256])))

    def anyfut(self, a):
        c = a.futs + a.shared
        return self.rng.choice(c) if c else None

    def f_fwait(self, a):
        f = self.anyfut(a)
        if f:
            a.ops.append("fwait %d" % f)

    def f_fwaitfor(self, a):
        f = self.anyfut(a)
        if f:
            a.ops.append("%s %d %d" % (self.rng.choice(["fwaitfor", "fwaitfor", "fwaituntil"]), f, self.rng.choice([0, self.dur(), self.dur()])))

    def f_get(self, a):
        f = self.anyfut(a)
        if f:
            a.ops.append("get %d" % f)
            if f in a.ins:
                for i in a.ins.pop(f):
                    (a.futs if self.b.kind[i].isupper() else a.shared).append(i)
                a.futs.remove(f)
            elif f in a.futs:
                a.futs.remove(f)
                a.gone.append(f)

    def f_again(self, a):
        """a second use of a future that was consumed"""
        if a.gone:
            f = self.rng.choice(a.gone)
            a.ops.append(self.rng.choice(["get %d", "fwait %d", "valid %d", "ready %d", "fwaitfor %d 300"]) % f)

    def f_peek(self, a):
        f = self.anyfut(a)
        if f:
            a.ops.append("%s %d" % (self.rng.choice(["ready", "ready", "err", "valid"]), f))

    def f_set(self, a):
        if a.proms:
            p, k = self.rng.choice(a.proms)
            r = self.rng.random()
            if r < 0.75:
                a.ops.append("setv %d %d" % (p, self.val()))
            elif r < 0.92:
                a.ops.append("sete %d %d" % (p, self.val()))
            else:
                a.ops.append("abandon %d" % p)

    def f_share(self, a):
        if a.futs:
            f = self.rng.choice(a.futs)
            if self.b.kind[f] in "IVU":
                a.futs.remove(f)
                g = self.b.fut(self.b.kind[f].lower())
                a.ops.append("share %d %d" % (f, g))
                a.shared.append(g)

    def contkind(self, f):
        if self.b.kind[f] == "X":
            return "I"
        return "V" if self.b.kind[f].upper() == "V" else "I" if self.b.kind[f] == "Q" else self.rng.choice("IIVU")

    def f_then(self, a):
        f = self.anyfut(a)
        if f and self.b.ntask < self.sh["maxtask"]:
            k = self.contkind(f)
            tgt = self.rng.choice(["new", self.target(a), self.target(a), "n0"])
            pol = self.rng.choice("ddae")
            if self.b.kind[f] == "X":
                tgt, pol = self.target(a), "d"
            x = self.newtask(a, 0.2)
            g = self.b.fut(k)
            a.ops.append("then %d %d %s %s %d %s" % (f, g, tgt, pol, x, k))
            if f in a.futs:
                a.futs.remove(f)
            a.ins.pop(f, None)
            a.futs.append(g)

    def f_async(self, a):
        if self.b.ntask < self.sh["maxtask"]:
            k = self.rng.choice("IIVU")
            tgt = self.rng.choice(["new", self.target(a), self.target(a)])
            x = self.newtask(a, 0.2)
            g = self.b.fut(k)
            a.ops.append("async %d %s %s %d %s" % (g, tgt, self.rng.choice("ddae"), x, k))
            a.futs.append(g)

    def f_mkready(self, a):
        k = self.rng.choice("IVU")
        g = self.b.fut(k)
        a.ops.append("%s %d %s %d" % (self.rng.choice(["mkready", "mkready", "mkexc"]), g, k, self.val()))
        a.futs.append(g)

    def f_promise(self, a):
        k = self.rng.choice("IIVU")
        p, f = self.b.prom(), self.b.fut(k)
        a.ops.append("promise %d %s" % (p, k))
        a.ops.append("getfut %d %d" % (p, f))
        a.proms.append((p, k))
        a.mine.append((p, k))
        a.futs.append(f)

    def f_drop(self, a):
        if a.depth == 0 and a.mine:
            p, k = self.rng.choice(a.mine)
            a.ops.append("drop %d" % p)
            a.mine.remove((p, k))
            if (p, k) in a.proms and self.rng.random() < 0.8:
                a.proms.remove((p, k))

    def f_passign(self, a):
        if a.depth == 0 and a.mine:
            p, k = self.rng.choice(a.mine)
            q, f = self.b.prom(), self.b.fut(k)
            a.ops += ["promise %d %s" % (q, k), "getfut %d %d" % (q, f), "passign %d %d" % (p, q)]
            a.futs.append(f)

    def f_fdrop(self, a):
        if a.futs:
            f = self.rng.choice(a.futs)
            a.futs.remove(f)
            a.ops.append("fdrop %d" % f)

    def f_when(self, a):
        rng, kind = self.rng, self.b.kind
        by = {c: [f for f in a.futs + a.shared if kind[f] in t] for c, t in
              (("I", "I"), ("V", "V"), ("S", "i"), ("W", "v"))}
        forms = []
        for c in "IVSW":
            for n in range(1, min(4, len(by[c])) + 1):
                forms += [("r", c, n)] * (3 if n > 1 else 1)
        forms += [("t", "I", n) for n in range(1, min(4, len(by["I"])) + 1)]
        forms += [("t", "V", n) for n in range(1, min(2, len(by["V"])) + 1)]
        forms += [("t", "S", n) for n in range(2, min(3, len(by["S"])) + 1)]
        if by["I"] and by["S"]:
            forms += [("t", "M", 2)]
            if by["V"]:
                forms += [("t", "M", 3)] * 2
        if rng.random() < 0.05 or not forms:
            forms = [("r", "I", 0), ("t", "I", 0)]
        form, c, n = rng.choice(forms)
        if c == "M":
            ins = [rng.choice(by["I"]), rng.choice(by["S"])] + ([rng.choice(by["V"])] if n == 3 else [])
        else:
            ins = rng.sample(by[c], n)
        g = self.b.fut("X")
        a.ops.append("%s %d %s %s %s" % (rng.choice(self.w.get("whens", ["whenall", "whenany"])), g, form, c,
                                         " ".join(map(str, ins))))
        for f in ins:
            (a.futs if f in a.futs else a.shared).remove(f)
        a.futs.append(g)
        a.ins[g] = ins

    # ---- arguments
    def form(self):
        return self.rng.choice("abcdeghijklnop")

    def f_inva(self, a):
        t = self.target(a, 0.2)
        a.ops.append("%s %s %d %s" % (self.rng.choice(["inva", "dispa"]), t, self.newtask(a, self.throws(t)), self.form()))

    def f_asyna(self, a):
        if self.b.ntask < self.sh["maxtask"]:
            tgt = self.rng.choice(["new"] * (self.rng.random() < 0.3) + [self.target(a), self.target(a)])
            f = self.form()
            x, g = self.newtask(a, 0.2), self.b.fut("Q" if f == "k" else "I")
            a.ops.append("asyna %d %s %s %d %s" % (g, tgt, self.rng.choice("ddae"), x, f))
            a.futs.append(g)

    def f_scheda(self, a):
        if self.b.ntask < self.sh["maxtask"] and self.pools and (a.depth == 0 or self.nest):
            p, f, lv = self.rng.choice(self.pools), self.form(), self.lvl()
            x, g = self.newtask(a, 0.15), self.b.fut("Q" if f == "k" else "I")
            a.ops.append("scheda %d %d %s %d %d %s" % (p, g, lv, 0 if lv == "-" else self.rng.randint(0, 3), x, f))
            a.futs.append(g)
            a.jobs.append((p, g))

    def f_thena(self, a):
        c = [f for f in a.futs + a.shared if self.b.kind[f] in "Ii" and all(j[1] != f for j in a.jobs)]
        if c and self.b.ntask < self.sh["maxtask"]:
            f = self.rng.choice(c)
            tgt = self.rng.choice(["new", self.target(a), self.target(a), "n0"])
            x, g = self.newtask(a, 0.2), self.b.fut("I")
            a.ops.append("thena %d %d %s %s %d %s" % (f, g, tgt, self.rng.choice("ddae"), x, self.rng.choice("gh")))
            if f in a.futs:
                a.futs.remove(f)
            a.futs.append(g)

    # ---- pools
    def lvl(self):
        return self.rng.choice(["-", "0", "0", "1", "1", "2", "2"])

    def f_sched(self, a):
        if self.b.ntask < self.sh["maxtask"] and self.pools and (a.depth == 0 or self.nest):
            p = self.rng.choice(self.pools)
            k = self.rng.choice("IIVU")
            x = self.newtask(a, 0.15)
            g = self.b.fut(k)
            lv = self.lvl()
            a.ops.append("sched %d %d %s %d %d %s" % (p, g, lv, 0 if lv == "-" else self.rng.randint(0, 3), x, k))
            a.futs.append(g)
            a.jobs.append((p, g))

    def f_pctl(self, a):
        if a.jobs and (a.depth == 0 or self.nest):
            p, j = self.rng.choice(a.jobs)
            r = self.rng.random()
            new = "%d %d" % (self.rng.randint(0, 2), self.rng.randint(0, 4))
            if r < 0.25:
                a.ops.append("jstop %d %d" % (j, j) if j in a.futs else "pstop %d %d" % (p, j))
            elif r < 0.5:
                a.ops.append("jprio %d %d %s" % (j, j, new) if j in a.futs else "pprio %d %d %s" % (p, j, new))
            elif r < 0.6:
                a.ops.append("pstopall %d" % p)
            else:
                a.ops.append("pcount %d" % p)

    def f_pwait(self, a):
        if a.jobs and (a.depth == 0 or self.nest):
            p, j = self.rng.choice(a.jobs)
            a.ops.append("pwait %d %d" % (p, j) if a.depth or self.rng.random() < 0.6 else "pwaitall %d" % p)

    def f_cvwait(self, a):
        if not a.locks:
            return
        c, m = self.rng.randrange(self.sh["cvs"]), 0
        a.ops += ["ulock %d" % m,
                  "cvwait %d %d" % (c, m) if self.rng.random() < 0.6 else "cvwaitfor %d %d %d" % (c, m, self.dur()),
                  "uunlock %d" % m]

    def f_cvnotify(self, a):
        c, m = self.rng.randrange(self.sh["cvs"]), 0
        o = "%s %d" % (self.rng.choice(["cvone", "cvall"]), c)
        if a.locks and self.rng.random() < 0.5:
            a.ops += ["ulock %d" % m, o, "uunlock %d" % m]
        else:
            a.ops.append(o)

    def f_mutex(self, a):
        m = self.rng.randrange(self.sh["mxs"])
        a.ops.append("mlock %d" % m)
        if self.rng.random() < 0.5:
            self.fill(a, 1)
        a.ops.append("munlock %d" % m)

    def f_mtry(self, a):
        a.ops.append("mtry %d" % self.rng.randrange(self.sh["mxs"]))

    def f_munlock(self, a):
        a.ops.append("munlock %d" % self.rng.randrange(self.sh["mxs"]))

    def fill(self, a, n):
        names = [k for k in self.w if hasattr(self, "f_" + k)]
        ws = [self.w[k] for k in names]
        for _ in range(n):
            if self.nops > self.sh["maxops"]:
                return
            self.nops += 1
            getattr(self, "f_" + self.rng.choices(names, ws)[0])(a)

    def r(self, key):
        lo, hi = self.sh[key]
        return self.rng.randint(lo, hi)

    def build(self):
        b, rng = self.b, self.rng
        b.op(0, "init")
        loops = [b.handle() for _ in range(self.r("loops"))]
        for h in loops:
            b.op(0, "mkthread", h, *rng.choice([[], ["s"], ["u"]]))
        scripts = [b.handle() for _ in range(self.r("scripts"))]
        stds = {h for h in scripts if rng.random() < 0.25}
        targets = [0] + loops + scripts
        actors = {h: Actor(0, targets) for h in [0] + scripts}
        for h in actors:
            actors[h].h = h
        self.own_threads = {"v%d" % h for h in [0] + scripts}
        self.pools = list(range(self.r("pools")))
        self.nest = rng.random() < 0.4      # tasks use the pools: these are then not destroyed
        for p in self.pools:
            ws = [rng.choice(x) for x in rng.choice([([1, 2], [0], [0]), ([1, 2], [1], [0]), ([1], [1], [1]),
                                                     ([0], [1], [1, 2]), ([1], [0, 1], [1])])]
            b.op(0, "pool", p, *ws)
        # promises and their futures, spread over the actors
        for _ in range(self.r("proms")):
            k = rng.choice("IIVU")
            p, f = b.prom(), b.fut(k)
            b.op(0, "promise", p, k)
            b.op(0, "getfut", p, f)
            if rng.random() < self.sh["owned"]:
                h = rng.choice(list(actors))
                actors[h].proms.append((p, k))
                actors[h].mine.append((p, k))
            else:
                for h in actors:
                    if rng.random() < 0.7:
                        actors[h].proms.append((p, k))
            if rng.random() < 0.6:
                g = b.fut(k.lower())
                b.op(0, "share", f, g)
                holders = list(actors)
                for h in holders:
                    c = b.fut(k.lower())
                    b.op(0, "copy", g, c)
                    actors[h].shared.append(c)
            else:
                actors[rng.choice(list(actors))].futs.append(f)
        for h in scripts:
            b.op(0, "sspawn" if h in stds else "spawn", h)
        for h, a in actors.items():
            self.nops = 0
            self.fill(a, self.r("ops"))
            if h:
                b.op(h, "reg", h)
            for o in a.ops:
                b.op(h, o)
            if h and (h in stds or rng.random() < 0.6):
                b.op(h, "unreg")
        if rng.random() < 0.4:
            for h in scripts:
                if rng.random() < 0.5 and h not in stds:
                    b.op(0, "nexit", "v%d" % h)
        rng.shuffle(scripts)
        for h in scripts:
            if h in stds:
                b.op(0, "nexit", "v%d" % h)
            b.op(0, "join", h)
        if rng.random() < 0.3:
            b.op(0, "process")
        for h in loops:
            b.op(0, rng.choice(["join", "destroy"]), h)
        for p in self.pools:
            if rng.random() < 0.3:
                b.op(0, "pwaitall", p)
            if not self.nest:
                b.op(0, "pdestroy", p)
        if "inva" in self.w:
            b.op(0, "process")
            b.op(0, "census")
        if not (self.pools and self.nest) and rng.random() < self.sh["shutdown"]:
            b.op(0, "shutdown", 1)
        return b.text()


def mix(rng, weights, **shape):
    return Mixer(rng, weights, **shape).build()


def sprinkle(rng, text):
    """marks set and looked for here and there: what a thread was handed lets it see what went before"""
    lines = text.strip().split("\n")
    n = max([0] + [int(l.split()[1]) for l in lines if l.startswith("put ")])
    out = []
    hand = ("invoke", "dispatch", "async", "then", "sched", "setv", "munlock", "spawn", "sspawn", "msec")
    take = ("get", "fwait", "fwaitfor", "ready", "mlock", "mtry", "join", "tassign", "pwait", "pwaitall", "pdestroy", "task", "thread", "waitfor",
            "wait", "process")
    where = [i for i, l in enumerate(lines) if l.split()[0] in hand]
    puts = set(rng.sample(where, min(len(where), rng.randint(3, 8))))
    ends = {i for i, l in enumerate(lines) if l.split()[0] == "task" and rng.random() < 0.3}
    last = None
    marks = list(range(1, n + len(puts) + len(ends) + 1))
    for i, l in enumerate(lines + ["task end"]):
        w = l.split()[0]
        if w in ("thread", "task") and last is not None:
            n += 1
            out.append("put %d" % n)
            last = None
        if l == "task end":
            break
        if i in ends:
            last = i
        if i in puts:
            n += 1
            out.append("put %d" % n)
        out.append(l)
        if w in take:
            out += ["see %d" % x for x in rng.sample(marks, min(len(marks), rng.randint(1, 3)))]
    return "\n".join(out) + "\n"
