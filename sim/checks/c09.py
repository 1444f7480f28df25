"""C09: the output depends only on the input file and the options (pairs of simulated command lines)."""
import os
import re

from .. import clilib, core, formats, iolib, meshgen, zygote
from . import c08

LEVEL = "exploration"
QUICK, THOROUGH = 1800, 100000
RULE = ("a scenario is one command line run twice: plainly, and in another interpreter with another hash seed, locale, time zone, environment "
        "(including every variable the code asked for), memory fill pattern, random generator state, clock, working directory with stray files, "
        "I/O schedule and after other conversions in the same process; non-trivial when both runs ended with the same status and wrote an output")
REAL = ["meshmagick.cli.main and everything below it, in separate interpreters"]
STUB = ["clock and I/O schedule from the LD_PRELOAD disk simulator", "random generators are seeded differently in the two runs",
        "freed and fresh memory is filled with different patterns (glibc MALLOC_PERTURB_)"]
ASSUMPTIONS = ["dates in the form of strftime %c are the date stamp"]

DATE = re.compile(rb"\b(Mon|Tue|Wed|Thu|Fri|Sat|Sun) (Jan|Feb|Mar|Apr|May|Jun|Jul|Aug|Sep|Oct|Nov|Dec) [ \d]\d \d\d:\d\d:\d\d \d{4}")
STRAY = ["Lid_1.msh", "Lid_1.obj", "in.nat~", "meshmagick.cfg", ".meshmagickrc", "config.ini", "densities.txt", "numpy.txt", "mmio.txt", "out.nat.tmp", "full_debug.vtp"]


def warm():
    clilib.warm()
    zygote.start()


def gen(rng, i, tier):
    while True:
        sc = c08.gen(rng, i, tier)
        if sc["how"] != "none" and not sc["bad"]:
            break
    sc["rule"] = None
    sc["plan"] = iolib.benign_plan(rng) if rng.random() < .6 else {}
    first = []
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        V, F = meshgen.closed(rng, True)
        first.append({"mesh": [V, F], "ops": clilib.gen_ops(rng, True), "fmt": rng.choice(["nat", "mar", "vtk", "gdf", "obj", "tec", "hst", "stl"]),
                      "bad": rng.choice(c08.BAD) if rng.random() < .25 else [], "own": rng.random() < .5})
    sc["second"] = {"z": rng.randrange(3), "clock": [rng.randrange(0, 4 * 10**18), rng.choice([0, 0, 1, 10**9, 86400 * 10**9])], "first": first,
                    "stray": [f for f in STRAY if rng.random() < .3], "rand": rng.randrange(2**30),
                    "env": rng.choice(["1", "0", "", "fr_FR.UTF-8", "/tmp"]), "deep": rng.random() < .3}
    return sc


def setup(sc, d):
    from meshmagick import mmio
    os.makedirs(d)
    fin, fout = sc["fin"], sc["fout"]
    ext = "xyz" if sc["how"] == "ifmt" else fin
    names = ["in." + ext]
    os.chdir(d)
    mmio.write_mesh("in." + ext, *iolib.arrays(sc["mesh"]), fin)
    if sc["cc"]:
        mmio.write_mesh("second." + fin, *iolib.arrays(sc["cc"]), fin)
        names.append("second." + fin)
    os.chdir("/")
    # the input of both runs is the same, date stamp included
    for n in names:
        b = open(d + n, "rb").read()
        with open(d + n, "wb") as f:
            f.write(DATE.sub(b"Thu Jan  1 00:00:00 1970", b))
    out = {"o": "out." + fout, "ifmt": "out." + fout, "ofmt": "in." + fout, "o+ofmt": "result.bin", "upper": "OUT." + fout.upper()}[sc["how"]]
    return names, out


def command(sc, names, out, at):
    argv = [at + names[0]] + (["-ifmt", sc["fin"]] if sc["how"] == "ifmt" else [])
    if sc["cc"]:
        argv += ["-cc", at + names[1]]
    if sc["how"] in ("ofmt", "o+ofmt"):
        argv += ["-ofmt", sc["fout"]]
    if sc["how"] != "ofmt":
        argv += ["-o", at + out]
    hs = ["20" if str(a).startswith("frac") else a for a in sc["hs"] or []]
    return argv + clilib.flat(sc["ops"]) + clilib.flat(sc["quiet"]) + hs


def run(sc, ctx):
    s2 = sc["second"]
    d1 = ctx.dir + "a/"
    d2 = ctx.dir + "b/" + ("some/where else/" if s2["deep"] else "")
    names, out = setup(sc, d1)
    setup(sc, d2)
    for f in s2["stray"]:
        with open(d2 + f, "w") as h:
            h.write("0.5\nnot for you\n")
    first = []
    from meshmagick import mmio
    argv = command(sc, names, out, "")
    for k, c in enumerate(s2["first"]):
        if not c.get("own", True):           # the same command when its input had other contents
            p = ctx.dir + "first%d" % k
            mmio.write_mesh(p, *iolib.arrays(c["mesh"]), sc["fin"])
            first.append({"argv": argv + c["bad"], "put": [p, d2 + names[0]]})
            continue
        p = ctx.dir + "first%d.%s" % (k, c["fmt"])
        mmio.write_mesh(p, *iolib.arrays(c["mesh"]), c["fmt"])
        first.append({"argv": [p, "-o", ctx.dir + "done%d.nat" % k] + clilib.flat(c["ops"]) + c["bad"], "put": None})
    a = {"argv": command(sc, names, out, ""), "cwd": d1, "prefix": d1, "plan": {"clock": [10**18, 0], "max_ops": 200000}, "outfile": ctx.dir + "so1", "rand": 1}
    ra = zygote.call(0, a)
    if not ra or ra.get("harness"):
        raise RuntimeError("first run: %s" % ra)
    plan = dict(sc["plan"], clock=s2["clock"], max_ops=400000)
    b = {"argv": command(sc, names, out, ""), "cwd": d2, "prefix": ctx.dir, "plan": plan, "outfile": ctx.dir + "so2", "rand": s2["rand"],
         "first": first, "restore": d2, "env": {k: s2["env"] for k in ra["env"]}}
    rb = zygote.call(s2["z"], b)
    if not rb:
        ctx.fail("second-run-died", "the second run died; command line %s" % b["argv"])
    if rb.get("harness"):
        raise RuntimeError("second run: %s" % rb)
    ctx.log(b["argv"], ra["code"], rb["code"], ra["env"])
    ctx.stats["fault:short-read"] += rb["report"]["short_reads"]
    ctx.stats["fault:short-write"] += rb["report"]["short_writes"]
    ctx.stats["fault:clock"] += rb["report"]["clock_reads"]
    ctx.stats["fault:other-interpreter"] += s2["z"] != 0
    ctx.stats["fault:environment-variable"] += len(ra["env"])
    ctx.stats["fault:stray-files"] += bool(s2["stray"])
    ctx.stats["fault:earlier-conversions"] += len(first)
    ctx.stats["fault:earlier-contents"] += sum(bool(c["put"]) for c in first)
    ctx.stats["outcome:%s" % ("success" if ra["code"] == 0 else "failure")] += 1
    ctx.cover.add("%s>%s z%d first%d %s" % (sc["fin"], sc["fout"], s2["z"], len(first), sc["how"]))
    what = "interpreter %d, clock %s, %d earlier conversions, I/O schedule %s" % (s2["z"], s2["clock"], len(first), sc["plan"])
    if ra["code"] != rb["code"]:
        ctx.fail("status-differs", "exit status %d, then %d (%s / %s); %s; command line %s" % (ra["code"], rb["code"], ra["err"], rb["err"], what, a["argv"]))
    if (ra["err"] or "").replace(d1, "") != (rb["err"] or "").replace(d2, ""):
        ctx.fail("error-differs", "%s, then %s; %s" % (ra["err"], rb["err"], what))
    x, y = (open(d + out, "rb").read() if os.path.exists(d + out) else None for d in (d1, d2))
    if (x is None) != (y is None):
        ctx.fail("output-differs", "the output exists in one of the runs only; %s; command line %s" % (what, a["argv"]))
    if x is not None:
        x, y = DATE.sub(b"<date>", x), DATE.sub(b"<date>", y)
        if x != y:
            i = next((k for k in range(min(len(x), len(y))) if x[k] != y[k]), min(len(x), len(y)))
            ctx.fail("output-differs", "outputs differ from byte %d: %r and %r; %s; command line %s" % (i, x[max(0, i - 30):i + 40], y[max(0, i - 30):i + 40], what, a["argv"]))
        ctx.nontrivial = ra["code"] == 0
    h = [sorted(f for f in os.listdir(d) if f not in s2["stray"]) for d in (d1, d2)]
    if h[0] != h[1]:
        ctx.fail("files-differ", "%s, then %s; command line %s" % (h[0], h[1], a["argv"]))
    so = [DATE.sub(b"<date>", open(ctx.dir + n, "rb").read()).replace(d.encode(), b"") for n, d in (("so1", d1), ("so2", d2))]
    so = [re.sub(rb"(?s)Traceback \(most.*", b"", t) for t in so]
    if so[0] != so[1] and ra["code"] == 0:
        l = [(p, q) for p, q in zip(so[0].split(b"\n") + [b""], so[1].split(b"\n") + [b""]) if p != q]
        ctx.fail("text-differs", "printed text differs: %r; %s; command line %s" % (l[:1], what, a["argv"]))


def shrink(sc):
    s2 = sc["second"]
    for k in range(len(s2["first"])):
        yield dict(sc, second=dict(s2, first=s2["first"][:k] + s2["first"][k + 1:]))
    if s2["stray"]:
        yield dict(sc, second=dict(s2, stray=[]))
    if s2["z"]:
        yield dict(sc, second=dict(s2, z=0))
    if s2["clock"] != [10**18, 0]:
        yield dict(sc, second=dict(s2, clock=[10**18, 0]))
    if s2["rand"] != 1:
        yield dict(sc, second=dict(s2, rand=1))
    yield from c08.shrink(sc)
