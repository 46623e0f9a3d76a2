"""What each property's check runs: the aspects of the specification it enforces and its programs."""
import random

import gen
import templates
from engine import Prog


class Prop:
    def __init__(self, aspects, mixes, temps=(), when=False, args=False, models=(), n=56, share=0.5, explore_s=12, marks=False, **kw):
        self.aspects, self.mixes, self.temps = aspects, mixes, list(temps)
        self.when, self.args, self.models = when, args, list(models)
        self.n, self.share, self.explore_s = n, share, explore_s     # programs, share of templates
        self.marks = marks      # marks are set and looked for throughout
        self.kw = kw

    def programs(self, rng, tier):
        out = []
        n = self.n * (4 if tier == "thorough" else 1)
        runs = 400 if tier == "thorough" else 260
        nt = int(n * self.share) if self.temps else 0
        for i in range(nt):
            name = self.temps[i % len(self.temps)]
            r = random.Random(rng.random())
            text = getattr(templates, "t_" + name)(r)
            out.append(Prog(gen.sprinkle(r, text) if self.marks else text, "%s%d" % (name, i), runs=runs, traces=self.kw.get("traces", 14),
                            adv=r.choice([10, 40, 40, 70]), spur=r.choice([0, 20, 20])))
        for i in range(n - nt):
            name, w, sh = self.mixes[i % len(self.mixes)]
            r = random.Random(rng.random())
            text = gen.mix(r, w, **sh)
            out.append(Prog(gen.sprinkle(r, text) if self.marks else text, "%s%d" % (name, i), runs=runs, traces=self.kw.get("traces", 14),
                            adv=r.choice([10, 40, 40, 70]), spur=r.choice([0, 20, 20])))
        return out


def M(name, w, **sh):
    return (name, w, sh)


CORE = M("core", dict(inv=5, disp=2, self=1, burst=1, bad=1, wait=1, waitfor=3, sleep=1, process=2, processfor=1, notify=1,
                      nexit=0.3, pend=0.5, depth=0.5, list=0.3, exitq=0.5, ids=0.5, busy=1, throw=0.1))
TASKS = M("tasks", dict(inv=6, disp=3, self=1, burst=2, bad=1, wait=1, waitfor=1, process=3, config=0.5, throw=0.1), shutdown=0)
BLOCK = M("block", dict(inv=4, wait=1, waitfor=1, sleep=1, fwait=2, fwaitfor=1, get=1, set=2, cvwait=1, cvnotify=1, mutex=1, notify=1),
          shutdown=0)
TIMES = M("times", dict(inv=3, waitfor=3, sleep=2, fwaitfor=2, cvwait=1.5, cvnotify=0.5, set=1, notify=1, busy=2, processfor=1))
EXIT = M("exit", dict(inv=2, nexit=3, exitq=2, wait=2, waitfor=1, sleep=1, fwait=1, get=1, fwaitfor=1, cvwait=1, set=0.5, **{"async": 0.5}),
         shutdown=0.5)
IDS = M("ids", dict(inv=2, list=3, ids=3, exitq=1, nexit=0.5, rereg=2, waitfor=1, process=1), scripts=(1, 3))
SHUT = M("shut", dict(inv=2, list=1, exitq=1, waitfor=1, sleep=1, wait=1, ids=1, **{"async": 0.5}), shutdown=1.0)
FUT = M("fut", dict(inv=2, disp=1, fwait=2, fwaitfor=2, get=2, again=0.5, peek=1, set=4, share=1, promise=1, mkready=1, wait=0.3, process=1,
                    nexit=0.1), proms=(1, 2))
BRK = M("brk", dict(promise=2, drop=3, passign=2, set=1, fwait=2, get=3, peek=1, then=2, inv=1, fdrop=1, share=1, process=1, **{"async": 2}))
CONT = M("cont", dict(inv=2, then=4, set=3, fwait=2, fwaitfor=1, get=1, process=1, mkready=1, again=0.3, **{"async": 2}), proms=(1, 2))
ASYNC = M("async", dict(inv=2, then=1, set=1, fwait=2, get=2, process=2, **{"async": 5}))
WHEN = M("when", dict(promise=3, when=4, set=3, fwait=2, get=3, peek=1, inv=1, share=1, process=1, mkready=1, fwaitfor=1, **{"async": 1}),
         proms=(2, 4))
WHENC = M("whenc", dict(promise=3, when=4, then=3, set=3, drop=0.5, fwait=1, get=2, inv=1, share=1, process=1, mkready=1, **{"async": 1}),
          proms=(2, 4))
CV = M("cv", dict(inv=1, cvwait=3, cvnotify=4, busy=1, process=1, notify=0.5, nexit=0.2))
MTX = M("mtx", dict(inv=1, mutex=4, mtry=2, munlock=1, busy=1, process=1, notify=0.5))
POOL = M("pool", dict(sched=6, pctl=2, pwait=1, fwait=1, get=1, busy=1), pools=(1, 1), loops=(0, 0))
POOLC = M("poolc", dict(sched=6, pctl=2, pwait=1, fwait=1, get=1, then=3, inv=1, process=1, busy=0.5), pools=(1, 2))
PRIO = M("prio", dict(sched=8, pctl=3, busy=1), pools=(1, 1), loops=(0, 0), scripts=(0, 1), ops=(4, 8), depth=1)
ARGS = M("args", dict(inva=5, asyna=4, thena=2, set=2, promise=1, fwait=1, get=2, process=2, throw=0.1))
ARGP = M("argp", dict(inva=1, asyna=1, scheda=5, thena=1, get=2, process=1, pctl=1, throw=0.1), pools=(1, 1))
PROC = M("proc", dict(inv=6, disp=1, self=2, burst=2, process=4, processfor=4, wait=0.3, busy=2, throw=0.2, nexit=0.2))
SYNC = M("sync", dict(inv=3, disp=1, set=3, get=2, fwait=1, fwaitfor=1, peek=1, share=1, mutex=4, mtry=2, cvwait=1, cvnotify=2, process=2,
                      waitfor=1, pend=1, depth=0.5, list=1, exitq=1, nexit=0.2, ids=0.5, **{"async": 2}), proms=(1, 2))
INTRO = M("intro", dict(inv=4, disp=2, pend=4, depth=4, wait=0.5, waitfor=1, process=2, processfor=1, burst=1, throw=0.2, config=1))
THROW = M("throw", dict(inv=5, disp=3, wait=1, waitfor=2, process=2, processfor=1, fwait=1, set=2, cvwait=0.5, cvnotify=0.5, depth=1,
                        pend=0.5, throw=0.3))


def kinds(m, kind):
    return (m[0], dict(m[1], whens=[kind]), m[2])


PROPS = {
    "C01": Prop(["once", "serve"], [TASKS, CORE, THROW], ["bursts", "nested", "dead", "selfdisp"], models="inbox nested leaving".split()),
    "C02": Prop(["fifo"], [TASKS, CORE, BLOCK], ["bursts", "nested", "senders"], models="inbox nested".split()),
    "C03": Prop(["serve", "wake"], [BLOCK, CORE, TASKS], ["serve", "serve2", "senders", "deep", "wakes"], models="inbox nested lockserve waiters".split()),
    "C04": Prop(["time"], [TIMES, CORE, FUT], ["timed", "timed2", "deadline", "procfor"], models="timed cvtimes exits".split()),
    "C05": Prop(["exit"], [EXIT, CORE], ["exits", "exits2", "joins"], models="exits exitget joins".split()),
    "C06": Prop(["ident"], [IDS, CORE], ["regs", "rereg", "reuse", "moves", "reinit"], models="rereg leaving".split()),
    "C07": Prop(["shut"], [SHUT, EXIT], ["shut", "shut2", "inits", "reinit"], models="shutdowns joins".split()),
    "C08": Prop(["oneshot"], [FUT, BRK], ["race", "readers", "once"], models="oneshot exitget timed".split()),
    "C09": Prop(["broken"], [BRK, POOL], ["drops", "dropq", "dropjob"], models="broken dropped gone stops".split()),
    "C10": Prop(["fwake"], [FUT, BLOCK], ["waiters", "rewait", "latewait", "selfset"], models="waiters oneshot timed".split()),
    "C11": Prop(["cont"], [CONT, BRK], ["conts", "chain", "contrace"], models="conts chains gone".split()),
    "C12": Prop(["policy"], [ASYNC, CONT], ["asyncs", "policies"], models="policies broken chains".split()),
    "C13": Prop(["wall"], [kinds(WHEN, "whenall"), kinds(WHENC, "whenall")], ["whenall"], when=True, n=44, models="whenall".split()),
    "C14": Prop(["wany"], [kinds(WHEN, "whenany"), kinds(WHENC, "whenany")], ["whenany"], when=True, n=44, models="whenany anyearly".split()),
    "C15": Prop(["cv"], [CV, THROW], ["cvpred", "cvall", "cvone", "cvtimed", "cvcrowd"], models="condvar cvtimes".split()),
    "C16": Prop(["mtx"], [MTX, BLOCK], ["mutual", "handover", "misuse", "mcrowd"], models="mutex lockserve".split()),
    "C17": Prop(["job"], [POOL, POOLC], ["jobs", "jobstop", "jobnest", "stalejobs"], n=46, models="jobs jobnest stops".split()),
    "C18": Prop(["prio"], [PRIO, POOL], ["prio", "reprio", "rerank"], n=44, models="urgent jobnest".split()),
    "C19": Prop(["pwait"], [POOL, POOLC], ["pwaits", "pdestroy", "jobnest", "stopwait", "waitfail"], n=50, models="jobs jobnest stops".split()),
    "C20": Prop(["args"], [ARGS, ARGP], ["args"], args=True, models="policies".split()),
    "C21": Prop(["intro"], [INTRO, THROW], ["counts", "throws", "depths"], models="nested leaving".split()),
    "C22": Prop(["proc"], [PROC, THROW], ["proc", "procfor", "procdeep", "proc", "throws"], models="nested".split()),
    "C23": Prop(["name"], [IDS, CORE], ["names"], share=0.75, models="hooks renamed".split()),
    "C24": Prop(["handle"], [EXIT, IDS], ["handles", "handles", "joins", "moves"], share=0.75, models="joins handles".split()),
    "C25": Prop(["dtor"], [CORE, CONT], ["dtors", "dtorjobs", "dtorconts", "dtors"], share=0.75, models="captured".split()),
    "C26": Prop(["sync"], [CORE, FUT, CONT, POOLC, SYNC, SHUT, WHENC],
                "publish tries conts mutual bursts jobs names waiters handles shut asyncs cvpred race whenall whenany publish reprio polls".split(), when=True,
                n=156, share=0.62, explore_s=20, traces=7, marks=True, models="publish relays guarded".split()),
    "C27": Prop(["stray"], [CORE, FUT], ["strays"], share=0.85, models="strays straylaunch".split()),
    "C28": Prop(["log"], [CORE, IDS], ["logs"], share=0.85, models="refused".split()),
    "C29": Prop(["obj"], [FUT], ["objects", "objects", "keeps", "objects", "lives"], share=0.8, n=90, models="objects promises".split()),
    "C30": Prop(["free"], [CORE, POOLC], ["free"], share=0.85, n=70, models="heldup heldjobs lockserve".split()),
}
