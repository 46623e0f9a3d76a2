"""Building the driver, running programs under many schedules, validating the traces with TLC."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

from trace import prep

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(2, min(8, os.cpu_count() or 2))

ASPECTS = ["once", "fifo", "serve", "wake", "time", "exit", "ident", "shut", "oneshot", "broken", "fwake", "cont",
           "policy", "wall", "wany", "cv", "mtx", "job", "prio", "pwait", "args", "intro", "proc", "name", "handle", "dtor", "sync",
           "stray", "log", "obj", "free"]


class CheckError(Exception):
    pass


class Prog:
    def __init__(self, text, name, runs=150, traces=12, adv=40, spur=20, plain=1, withtime=0):
        self.text, self.name = text, name
        self.runs, self.traces = runs, traces
        self.adv, self.spur, self.plain, self.withtime = adv, spur, plain, withtime
        m = re.search(r"^unit (\d+)", text, re.M)
        self.unit = int(m.group(1)) if m else 1


class Work:
    """scratch directory with the driver built from the repository's working tree"""

    def __init__(self, when=True, args=True):
        self.dir = tempfile.mkdtemp(prefix="tppv-")
        self.when, self.args = when, args
        self.n = 0

    def build(self):
        cmd = ["bash", os.path.join(ROOT, "rt", "build.sh"), os.path.join(self.dir, "bin")]
        if not self.when:
            cmd.append("nowhen")
        if not self.args:
            cmd.append("noargs")
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise CheckError("building the driver failed:\n" + p.stdout[-4000:])
        self.driver = os.path.join(self.dir, "bin", "driver")

    def path(self, stem):
        self.n += 1
        return os.path.join(self.dir, "%s%d" % (stem, self.n))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # ---- executions
    def drive(self, jobs):
        """jobs: list of job texts, one driver process per entry; returns parsed output lines"""
        ps = []
        for i, text in enumerate(jobs):
            if not text:
                continue
            j, o = self.path("job"), self.path("out")
            with open(j, "w") as f:
                f.write(text)
            ps.append((subprocess.Popen([self.driver, j, o, str(i % NCPU)], stdout=subprocess.DEVNULL,
                                        stderr=subprocess.DEVNULL), j, o))
        out = []
        for p, j, o in ps:
            rc = p.wait()
            if rc != 0:
                raise CheckError("driver failed with %d on %s" % (rc, j))
            with open(o) as f:
                for line in f:
                    out.append(json.loads(line))
            os.unlink(j)
            os.unlink(o)
        return out

    def explore(self, progs, seed, budget):
        """runs the programs for about `budget` seconds of wall time; returns traces and statistics"""
        per = budget * 1000.0 * NCPU / max(1, len(progs))
        jobs = [""] * NCPU
        for i, p in enumerate(progs):
            jobs[i % NCPU] += "prog %d %d %d %d %d %d %d %d %d\n%send\n" % (
                i, p.runs, p.traces, (seed * 7919 + i * 31 + 1) % (1 << 31), p.adv, p.spur, p.plain, p.withtime, per, p.text)
        traces, st = [], dict(runs=0, bad=0, points=0, distinct=0, ill=0)
        for d in self.drive(jobs):
            if "ev" in d:
                traces.append(Trace(progs[d["p"]], d["k"], d["ev"]))
            else:
                for k in st:
                    st[k] += d[k]
        return traces, st

    def replay(self, t):
        out = self.drive(["replay 0 %s\n%send\n" % (t.key, t.prog.text)])
        return Trace(t.prog, t.key, out[0]["ev"])

    # ---- validation
    def tlc(self, traces, enf, workers=1, diag=False):
        """returns (accepted ids, states, transitions, printed lines); ids are positions in traces"""
        tf, cf, md = self.path("tr"), self.path("cfg") + ".cfg", self.path("meta")
        with open(tf, "w") as f:
            for i, t in enumerate(traces):
                f.write(json.dumps({"id": i, "ev": t.prepared()}) + "\n")
        tol = (2, 300)
        if traces[0].prog.unit >= 1000:
            tol = (1, 3)
        with open(cf, "w") as f:
            f.write("SPECIFICATION Spec\nCONSTANTS\n  Enf = {%s}\n  TolLow = %d\n  TolUp = %d\nCHECK_DEADLOCK FALSE\n"
                    % (", ".join('"%s"' % x for x in enf), tol[0], tol[1]))
        env = dict(os.environ, TPP_TRACES=tf, TPP_DIAG="1" if diag else "0")
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx3g", "-Xss16m",
               "-XX:TieredStopAtLevel=%d" % (1 if len(traces) < 4 else 4),
               "-cp", CP, "tlc2.TLC", "-metadir", md, "-workers", str(workers), "-noGenerateSpecTE", "-fp", "0", "-config", cf,
               os.path.join(SPEC, "TppTrace.tla")]
        return subprocess.Popen(cmd, cwd=self.dir, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), (tf, cf, md)

    def collect(self, p, files, limit=None):
        try:
            out, _ = p.communicate(timeout=limit)
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
        for f in files:
            shutil.rmtree(f, ignore_errors=True) if os.path.isdir(f) else (os.path.exists(f) and os.unlink(f))
        ok = {int(x) for x in re.findall(r'<<"OK", (\d+)>>', out)}
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        done = p.returncode == 0 and m is not None
        return done, ok, int(m.group(2)) if m else 0, int(m.group(1)) if m else 0, out

    def validate(self, traces, enf, limit=240):
        """returns the rejected traces, those TLC failed on, and statistics"""
        st = dict(states=0, transitions=0, traces=0)
        rejected, errors = [], []
        groups = {}
        for t in traces:
            groups.setdefault(1000 if t.prog.unit >= 1000 else 1, []).append(t)
        batches = []
        for g in groups.values():
            g = sorted(g, key=lambda t: -len(t.ev))
            n = max(1, min(NCPU, (len(g) + 19) // 20))
            batches += [b for b in (g[i::n] for i in range(n)) if b]
        run = [(b,) + self.tlc(b, enf) for b in batches[:NCPU]]
        rest = batches[NCPU:]
        end = time.time() + limit
        while run:
            b, p, files = run.pop(0)
            done, ok, s, tr, out = self.collect(p, files, max(5, end - time.time()))
            if rest:
                nb = rest.pop(0)
                run.append((nb,) + self.tlc(nb, enf))
            st["states"] += s
            st["transitions"] += tr
            if done:
                st["traces"] += len(b)
                rejected += [t for i, t in enumerate(b) if i not in ok]
            elif len(b) == 1:
                errors.append((b[0], out))
            else:
                # the model checker gave up: find out on which trace
                k = max(1, len(b) // 4)
                rest += [b[i:i + k] for i in range(0, len(b), k)]
                if not run and rest:
                    nb = rest.pop(0)
                    run.append((nb,) + self.tlc(nb, enf))
            if len(errors) >= 3:
                break
        for x in run:
            x[1].kill()
            x[1].communicate()
        return rejected, errors, st

    def judge(self, traces, enf, limit):
        """True (accepted), False (rejected) or None (undecided) for each trace, one TLC each"""
        out = []
        for i in range(0, len(traces), NCPU):
            run = [self.tlc([t], enf) for t in traces[i:i + NCPU]]
            end = time.time() + limit
            for p, files in run:
                done, ok, s, tr, txt = self.collect(p, files, max(1, end - time.time()))
                out.append((0 in ok) if done or 0 in ok else None)
        return out

    def diagnose(self, t, enf):
        """how far the specification can follow the trace"""
        p, files = self.tlc([t], enf, diag=True)
        done, ok, s, tr, out = self.collect(p, files, 60)
        at = [int(x) for x in re.findall(r'<<"AT", (\d+)>>', out)]
        return done, 0 in ok, max(at + [0]), out


def undefined(out):
    """TLC stopped because the specification gives no meaning to the trace (not for lack of time or memory)"""
    return "Error: " in out and not re.search(r"OutOfMemory|Java heap|StackOverflow", out)


class Trace:
    def __init__(self, prog, key, ev):
        self.prog, self.key, self.ev = prog, key, ev

    def prepared(self):
        return prep(self.ev, self.prog.unit)
