"""C16: concurrent command-line runs in one directory do not interfere (scheduled file operations, kills, I/O errors)."""
import hashlib
import json
import os
import re
import select
import signal
import time
from collections import Counter

from .. import clilib, core, formats, iolib, meshgen, shim
from . import c07

LEVEL = "exploration"
QUICK, THOROUGH = 1200, 100000
RULE = ("a scenario is two to four command-line processes in one directory tree (same or different inputs and options, similarly named but different "
        "outputs) whose disk operations are interleaved by a seeded schedule, some killed at a chosen operation or given I/O errors; every one is "
        "also run alone in a copy of the directory; non-trivial when the schedule switched between two unfinished processes at least twice")
REAL = ["meshmagick.cli.main and everything below it, in separate processes on one directory", "process death and exit status"]
STUB = ["the order of disk operations, kills and I/O errors come from the scheduler and the LD_PRELOAD disk simulator", "the wall clock is frozen"]
ASSUMPTIONS = ["a process runs undisturbed between two of its disk operations", "runs with -lid share the documented names Lid_n.obj: at most one per scenario"]

STEMS = ["out.{f}", "out.{f}", "OUT.{f}", "out2.{f}", "in.{f}", "out.x.{f}", "sub/out.{f}", "other/out.{f}", "{f}.{f}", "result.bin"]


def warm():
    clilib.warm()
    import tempfile  # noqa: F401
    import gmsh, pygmsh  # noqa: F401,E401


def gen(rng, i, tier):
    nin = rng.choice([1, 1, 2, 3])
    ins = []
    for k in range(nin):
        closed = rng.random() < .6
        if rng.random() < .08:
            V, F = meshgen.big_mesh(rng)
        else:
            V, F = meshgen.closed(rng, True) if closed else meshgen.any_mesh(rng)
        fin = rng.choice([f for f in formats.RW if f not in ("diodore-dat", "inp")])
        ins.append({"name": rng.choice(["in", "in", "a%d" % k, "sub/in"]) + "." + fin, "fmt": fin, "mesh": [V, F], "closed": closed})
    seen = set()
    ins = [x for x in ins if not (x["name"] in seen or seen.add(x["name"]))]
    procs, used = [], set(x["name"] for x in ins)
    lid = rng.random() < (.03 if tier == "quick" else .06)
    for _ in range(rng.choice([2, 2, 2, 3, 3, 4])):
        a = rng.choice(ins)
        p = {"in": a["name"], "cwd": rng.choice(["", "", "", "sub/"]), "ops": clilib.gen_ops(rng, a["closed"]) + clilib.quiet_ops(rng), "extra": [],
             "out": None, "bad": None, "rules": [], "cap": {}, "kill": None, "report": None}
        if procs and rng.random() < .35:
            p["ops"] = [list(o) for o in procs[0]["ops"]]
        if rng.random() < (.7 if procs and "-cc" in procs[0]["extra"] else .2):
            p["extra"] += ["-cc", rng.choice(ins)["name"]]
        if a["closed"] and rng.random() < .12:
            p["extra"] += ["-hs", "-zg", "0"] + (["-mdisp", str(clilib._f(rng, .1, 3))] if rng.random() < .5 else [])
            if rng.random() < .7:
                p["report"] = "%s%d.txt" % (rng.choice(["report", "out"]), len(procs))
        if lid:
            lid = False
            n = rng.choice([3, 4, 5])
            p["extra"] += ["-lid"] + sum([[str(round(c, 3)) for c in (1.5 * core_cos(k / n), 1.5 * core_sin(k / n))] for k in range(n)], []) + ["-ms", "1.0"]
            if rng.random() < .3:
                p["extra"] += ["-lid", "5", "5", "6", "5", "6", "6"]
        for _try in range(50):
            f = rng.choice([x for x in formats.RW if x not in ("diodore-dat", "inp")])
            if procs and rng.random() < .4:
                f = procs[0]["fmt"]
            o = rng.choice(STEMS).format(f=f)
            if o not in used:
                break
        else:
            continue
        used.add(o)
        p["out"], p["fmt"] = o, f
        k = rng.random()
        if k < .08:
            p["bad"] = rng.choice(c07.BAD)
        elif k < .3:
            p["kill"] = rng.choice([rng.randrange(0, 8), rng.randrange(0, 40), rng.randrange(0, 200)])
        elif k < .45:
            p["rules"] = [{"kinds": [rng.choice(["openr", "read", "openw", "write", "closew", "rename", "unlink", "mkdir"])],
                           "nth": rng.choice([0, 0, 1, 2, 5]), "action": rng.choice(["errno", "sticky", "short", "eintr"]),
                           "param": rng.choice([5, 28, 13, 122])}]
            if p["rules"][0]["action"] in ("short", "eintr"):
                p["rules"][0].update(kinds=[rng.choice(["read", "write"])], param=rng.choice([1, 3]))
        if rng.random() < .4:
            p["cap"] = {"write_cap": rng.choice([7, 50, 300, 4096]), "read_cap": rng.choice([0, 100, 4096])}
        procs.append(p)
    style = rng.random()
    if style < .35:
        sched = [[rng.randrange(12), 1] for _ in range(rng.randint(5, 200))]
    elif style < .8:
        sched = [[rng.randrange(12), rng.choice([1, 2, 3, 5, 8, 20])] for _ in range(rng.randint(3, 60))]
    else:
        sched = [[rng.randrange(12), rng.choice([1, 5, 10, 30, 60])] for _ in range(rng.randint(1, 4))]
    return {"ins": ins, "procs": procs, "sched": sched, "existing": [p["out"] for p in procs if rng.random() < .3]}


def core_cos(t):
    import math
    return math.cos(2 * math.pi * t)


def core_sin(t):
    import math
    return math.sin(2 * math.pi * t)


def setup(sc, d):
    """A copy of the initial directory; the inputs were written by a process of their own (warnings are given once per process)."""
    from meshmagick import mmio
    t = os.path.dirname(os.path.dirname(d)) + "/template/"
    if not os.path.isdir(t):
        def body(w):
            for s in ("", "sub", "other", ".tmp", ".home"):
                os.mkdir(t + s)
            os.chdir(t)
            for x in sc["ins"]:
                mmio.write_mesh(x["name"], *iolib.arrays(x["mesh"]), x["fmt"])
            for o in sc["existing"]:
                with open(t + o, "w") as f:
                    f.write("earlier result\n" * 30)
        code, _ = core.fork_call(body)
        if code:
            raise RuntimeError("writing the inputs failed: %d" % code)
    core.shutil.copytree(t, d)


def command(p):
    def at(n):
        return os.path.relpath("/" + n, "/" + p["cwd"])
    argv = [at(p["in"]), "-o", at(p["out"])]
    if os.path.splitext(p["out"])[1][1:] != p["fmt"]:
        argv += ["-ofmt", p["fmt"]]
    argv += clilib.flat(p["ops"])
    x = list(p["extra"])
    if x[:1] == ["-cc"]:
        x[1] = at(x[1])
    argv += x
    if p["report"]:
        argv += ["--hs-report", at(p["report"])]
    return argv + (p["bad"] or [])


class Proc:
    """One simulated process, stopped before each of its disk operations."""

    def __init__(self, p, d, log, faults=True, others=()):
        self.p = p
        rq, self.wq = os.pipe()
        self.ack, wa = os.pipe()
        self.req, self.wa = rq, wa
        self.outfile = log
        self.gates, self.buf, self.status, self.killed = 0, b"", None, False
        self.waiting = None
        self.pid = os.fork()
        if self.pid == 0:
            code = 70
            try:
                for o in others:
                    for fd in (o.req, o.wa):
                        os.close(fd)
                os.close(self.req)
                os.close(self.wa)
                os.environ["TMPDIR"] = d + ".tmp"
                os.environ["HOME"] = d + ".home"
                import tempfile
                tempfile.tempdir = None
                plan = {"rules": p["rules"] if faults else [], "clock": [10**18, 0], "clock_mode": 2, "max_ops": 100000}
                if faults:
                    plan.update(p["cap"])
                code, rep, err = clilib.process_body(command(p), d + p["cwd"], d, plan, log, (self.wq, self.ack))
                shim.lib().fs_gate(-1, -1)
                with open(log + ".err", "w") as f:
                    json.dump([err, sum(rep["fired"])], f)
            except BaseException:
                import traceback
                traceback.print_exc()
                code = 70
            finally:
                os._exit(code & 0xff)
        os.close(self.wq)
        os.close(self.ack)
        self.advance()

    def advance(self):
        """Wait until the process stands before its next disk operation or is over."""
        t_end = time.monotonic() + 60
        while b"\n" not in self.buf:
            rd, _, _ = select.select([self.req], [], [], max(0, t_end - time.monotonic()))
            if not rd:
                os.kill(self.pid, signal.SIGKILL)
                self.hung = True
            b = os.read(self.req, 4096)
            if not b:
                self.waiting = None
                _, st = os.waitpid(self.pid, 0)
                self.status = 128 + os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st)
                os.close(self.req)
                os.close(self.wa)
                self.req = self.wa = -1
                return
            self.buf += b
        line, self.buf = self.buf.split(b"\n", 1)
        self.waiting = line.decode("utf-8", "replace")

    def go(self):
        """Grant one operation (or kill the process before it)."""
        kill = self.p["kill"] is not None and self.gates == self.p["kill"]
        self.gates += 1
        self.killed |= kill
        k = self.waiting.split(" ")[0]
        os.write(self.wa, b"K" if kill else b"g")
        self.advance()
        return k

    def info(self):
        try:
            e, k = json.load(open(self.outfile + ".err"))
            return [re.sub(r"/tmp\w{8}", "/tmp*", e), k]
        except (OSError, ValueError):
            return ["", 0]


def alone(ctx, sc, k, tag, faults):
    d = ctx.dir + tag + "/"
    setup(sc, d)
    p = dict(sc["procs"][k], kill=None)
    q = Proc(p, d, ctx.dir + tag + ".so", faults)
    while q.waiting is not None:
        q.go()
    return q, d


def stdout_of(q, d):
    so = open(q.outfile, "rb").read().replace(d.encode(), b"<d>/")
    return re.sub(rb"0x[0-9a-f]+|\( *[\d.]+s\) \[ *[0-9A-F]+\]", b"", re.sub(rb"/tmp\w{8}", b"/tmp*", so))     # VTK messages tell the time since the start


def contents(d):
    s = iolib.snapshot(d)
    s = {k: (v.replace(d.encode(), b"<d>/") if v is not None else None) for k, v in s.items()}
    return {k: v for k, v in s.items() if not k.startswith(".home/.fltk")}      # gmsh's window toolkit keeps its preferences there


def run(sc, ctx):
    procs = sc["procs"]
    n = len(procs)
    base = None
    solo = []
    for k in range(n):
        faulty = bool(procs[k]["rules"])
        q, d = alone(ctx, sc, k, "alone%d" % k, faulty)
        if base is None:
            b0 = ctx.dir + "base/"
            setup(sc, b0)
            base = contents(b0)
        c = contents(d)
        e = q.info()
        ctx.log("alone", k, q.status, e)
        solo.append((q.status, c, stdout_of(q, d), e))
        if q.status == 0:
            doc = documented(procs[k])
            odd = [f for f in c if f not in base and f not in doc]
            if odd:
                ctx.fail("auxiliary-file", "a successful run left %s besides its outputs; command line %s" % (sorted(odd), command(procs[k])))
    D = ctx.dir + "disk/"
    setup(sc, D)
    ps = []
    for k in range(n):
        ps.append(Proc(procs[k], D, ctx.dir + "p%d.so" % k, True, [x for x in ps if x.req >= 0]))
    live = [k for k in range(n) if ps[k].waiting is not None]
    order, sw, last = [], 0, None
    sched = list(sc["sched"])
    while live:
        if sched:
            c, burst = sched.pop(0)
        else:
            c, burst = 0, 1 << 30
        k = live[c % len(live)]
        if last is not None and k != last and last in live:
            sw += 1
        last = k
        while burst and ps[k].waiting is not None:
            order.append((k, ps[k].go()))
            burst -= 1
        if ps[k].waiting is None:
            live.remove(k)
    h = hashlib.sha256(repr(order).encode()).hexdigest()[:12]
    ctx.log("order", h, sw, [p.status for p in ps])
    ctx.nontrivial = sw >= 2
    ctx.stats["fault:context-switch"] += sw
    ctx.stats["fault:kill"] += sum(p.killed for p in ps)
    ctx.stats["fault:io"] += sum(p.info()[1] for p in ps)
    ctx.stats["fault:bad-option"] += sum(bool(p["bad"]) for p in procs)
    ctx.stats["probe:disk-operations"] += len(order)
    for a, b in zip(order, order[1:]):
        if a[0] != b[0]:
            ctx.cover.add("%s|%s" % (a[1], b[1]))
    new = contents(D)
    for x in sc["ins"]:
        if new.get(x["name"], 0) != base[x["name"]]:
            ctx.fail("input-changed", "%s was changed or removed; %s" % (x["name"], told(sc, order)))
    for k in range(n):
        if ps[k].killed:
            continue
        st, c, so, e = solo[k]
        if ps[k].status != st:
            ctx.fail("status-differs", "process %d ended with status %d, alone with %d (%s / %s); %s" % (k, ps[k].status, st, ps[k].info()[0], e[0], told(sc, order)))
        for f in documented(procs[k]):
            if new.get(f, 0) != c.get(f, 0):
                ctx.fail("output-differs", "process %d: %s; %s" % (k, differ(f, c.get(f, 0), new.get(f, 0)), told(sc, order)))
        if st == 0 and stdout_of(ps[k], D) != so:
            ctx.fail("text-differs", "process %d printed: %s; %s" % (k, differ("text", so, stdout_of(ps[k], D)), told(sc, order)))
    allowed = set(base)
    for k in range(n):
        allowed |= set(solo[k][1]) | documented(procs[k])
    plain = lambda f: re.sub(r"tmp[a-z0-9_]{8}", "tmp*", f)           # temporary names are random
    alike = set(map(plain, allowed))
    odd = [f for f in new if f not in allowed and plain(f) not in alike]
    if odd and not any(p.killed for p in ps):
        ctx.fail("auxiliary-file", "the runs together left %s; %s" % (sorted(odd), told(sc, order)))
    # whoever was killed starts again among the leftovers, faults off
    for k in range(n):
        if not (ps[k].killed or procs[k]["rules"]):
            continue
        if procs[k]["rules"]:
            q, d = alone(ctx, sc, k, "again%d" % k, False)
            st, c, so = q.status, contents(d), stdout_of(q, d)
        else:
            st, c, so, _ = solo[k]
        q = Proc(dict(procs[k], kill=None), D, ctx.dir + "r%d.so" % k, False)
        while q.waiting is not None:
            q.go()
        ctx.stats["fault:restart"] += 1
        new = contents(D)
        if q.status != st:
            ctx.fail("restart-status-differs", "process %d, run again after its end, gave status %d, alone %d (%s)" % (k, q.status, st, q.info()[0]))
        for f in documented(procs[k]) if st == 0 else ():
            if new.get(f, 0) != c.get(f, 0):
                ctx.fail("restart-output-differs", "process %d, run again after it was ended: %s; %s" % (k, differ(f, c.get(f, 0), new.get(f, 0)), told(sc, order)))


def documented(p):
    out = {os.path.normpath(p["out"])}
    if p["report"]:
        out.add(os.path.normpath(p["report"]))
    for k in range(p["extra"].count("-lid")):
        out.add(os.path.normpath(p["cwd"] + "Lid_%d.obj" % (k + 1)))
    return out


def differ(f, a, b):
    if a == 0 or b == 0:
        return "%s %s" % (f, "is missing" if b == 0 else "was not to be there")
    i = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
    return "%s differs from byte %d on: %r instead of %r" % (f, i, b[max(0, i - 20):i + 40], a[max(0, i - 20):i + 40])


def told(sc, order):
    out, i = [], 0
    while i < len(order):
        j = i
        while j < len(order) and order[j][0] == order[i][0]:
            j += 1
        out.append("%d:%s" % (order[i][0], ",".join("%s*%d" % x if x[1] > 1 else x[0] for x in Counter(o[1] for o in order[i:j]).items())))
        i = j
    return "schedule %s; command lines %s" % (" ".join(out[:40]), [command(p) for p in sc["procs"]])


def shrink(sc):
    if len(sc["procs"]) > 2:
        for k in range(len(sc["procs"])):
            yield dict(sc, procs=sc["procs"][:k] + sc["procs"][k + 1:])
    n = len(sc["sched"])
    step = n // 2
    while step >= 1:
        for s in range(0, n, step):
            yield dict(sc, sched=sc["sched"][:s] + sc["sched"][s + step:])
        step //= 2
    if sc["existing"]:
        yield dict(sc, existing=[])
    for k, p in enumerate(sc["procs"]):
        for ch in ({"ops": []}, {"extra": []}, {"report": None}, {"cap": {}}, {"kill": None}, {"rules": []}, {"bad": None}, {"cwd": ""}):
            a, v = list(ch.items())[0]
            if p[a] != v:
                q = dict(p, **ch)
                if a == "extra":
                    q["report"] = None
                yield dict(sc, procs=sc["procs"][:k] + [q] + sc["procs"][k + 1:])
        for i in range(len(p["ops"])):
            q = dict(p, ops=p["ops"][:i] + p["ops"][i + 1:])
            yield dict(sc, procs=sc["procs"][:k] + [q] + sc["procs"][k + 1:])
    for k, x in enumerate(sc["ins"]):
        for m in iolib.shrink_mesh(x["mesh"]):
            yield dict(sc, ins=sc["ins"][:k] + [dict(x, mesh=m)] + sc["ins"][k + 1:])
