"""C02: injected failures of the write path must be reported by the library call and by the exit status."""
import errno
import os

from .. import clilib, core, formats, iolib, meshgen, shim

LEVEL = "fault_enumeration"
QUICK, THOROUGH = 4000, 150000
RULE = ("a scenario writes one random mesh in one format, through the library or the command line, with one fault placed at a "
        "chosen fraction of the calls of the write path (open, n-th write transient or persistent, disk full after k bytes, close), "
        "possibly under short writes; non-trivial when the fault actually fired")
REAL = ["meshmagick.mmio writers", "meshmagick.cli.main in a forked process", "CPython file objects", "VTK XML writers", "exit status"]
STUB = ["system-call failures come from the LD_PRELOAD disk simulator"]
ASSUMPTIONS = ["a failing fsync is not part of the write path (meshmagick never syncs)"]

warm = clilib.warm


def gen(rng, i, tier):
    fmt = formats.RW[i % len(formats.RW)]
    sc = {"fmt": fmt, "mesh": iolib.gen_io_mesh(rng, fmt), "via": rng.choice(["lib", "lib", "lib", "cli", "cli", "cli-ofmt", "lib-nodir"])}
    if rng.random() < 0.03:
        sc["via"] = "cli-report"
    sc["quick"] = fmt == "vtp" and rng.random() < .3
    k = rng.choice(["open", "write", "write-sticky", "budget", "budget", "close", "path"])
    f = {"kind": k, "frac": rng.random()}
    if k in ("open", "path"):
        f["errno"] = rng.choice(iolib.ERR_OPEN)
    elif k in ("write", "write-sticky"):
        f["errno"] = rng.choice(iolib.ERR_WRITE)
    elif k == "close":
        f["errno"] = rng.choice(iolib.ERR_CLOSE)
    elif k == "budget":
        f["frac"] = rng.choice([0., rng.random(), rng.random(), 0.99999])
    sc["fault"] = f
    sc["write_cap"] = rng.choice([None, None, 7, 64, 1000])
    sc["preexisting"] = rng.random() < 0.4
    if sc["via"] == "cli-report":
        sc["fmt"] = "report"
        sc["mesh"] = list(meshgen.box(rng, rng.uniform(1, 4), rng.uniform(1, 4), rng.uniform(1, 3)))
    if sc["via"] == "lib-nodir":
        sc["fault"] = {"kind": "nodir", "frac": 0}
    return sc


def do_write(ctx, sc, d, plan):
    """Returns (acknowledged, path, report, message)."""
    from meshmagick import mmio
    fmt = sc["fmt"]
    ext = fmt.replace("diodore-", "")
    plan = dict(plan, clock=[10**18, 0])
    V, F = iolib.arrays(sc["mesh"])
    via = sc["via"]
    if via == "cli-report":
        src = os.path.dirname(d.rstrip("/")) + "/input.msh"
        with open(src, "wb") as f:
            f.write(formats.emit("msh2", *sc["mesh"]))
        r = clilib.run(ctx, [src, "-hs", "-zg", "0", "--hs-report", d + "report.txt", "-o", d + "out.nat"], d, plan=plan)
        return r["code"] == 0, d + "report.txt", r["report"] or {"kinds": {}, "fired": [], "budget_hits": 0, "hash": ""}, r["err"]
    if via.startswith("lib"):
        path = d + "out." + (ext.upper() if fmt == "diodore-dat" else ext)
        if via == "lib-nodir":
            path = d + "missing/out." + ext.upper()
        shim.begin(d, plan)
        try:
            iolib.save(path, V, F, fmt, sc.get("quick"))
            ok, msg = True, ""
        except Exception as e:
            ok, msg = False, "%s: %s" % (type(e).__name__, e)
        rep = shim.report()
        shim.end()
        return ok, path, rep, msg
    src = os.path.dirname(d.rstrip("/")) + "/input.msh"
    with open(src, "wb") as f:
        f.write(formats.emit("msh2", *sc["mesh"]))
    if via == "cli-ofmt":
        path = d + "out.bin"
        argv = [src, "-o", path, "-ofmt", fmt]
        if fmt == "diodore-dat":
            path = d + "out.BIN"
    else:
        path = d + "out." + (ext.upper() if fmt == "diodore-dat" else ext)
        argv = [src, "-o", path] + (["-ofmt", fmt] if fmt == "diodore-dat" else [])
    r = clilib.run(ctx, argv, d, plan=plan)
    return r["code"] == 0, path, r["report"] or {"kinds": {}, "fired": [], "budget_hits": 0, "hash": ""}, r["err"]


def run(sc, ctx):
    fmt, flt = sc["fmt"], sc["fault"]
    V, F = iolib.arrays(sc["mesh"])
    sca = iolib.scale_of(sc["mesh"])
    want = formats.polys(V, F)
    # fault-free dry run, to know the calls of the write path
    ref = ctx.dir + "ref/"
    os.mkdir(ref)
    base = {"write_cap": sc["write_cap"]}
    if flt["kind"] != "nodir":
        ok, path, rep, msg = do_write(ctx, sc, ref, base)
        if not ok:
            ctx.fail("sound-write-fails", "%s via %s without any fault: %s" % (fmt, sc["via"], msg))
        size = sum(os.path.getsize(ref + f) for f in os.listdir(ref))
        n = rep["kinds"]
    d = ctx.dir + "disk/"
    os.mkdir(d)
    plan = dict(base)
    k = flt["kind"]
    if k == "open":
        plan["rules"] = [{"kinds": ["openw"], "nth": int(flt["frac"] * n.get("openw", 1)), "action": "errno", "param": flt["errno"]}]
    elif k in ("write", "write-sticky"):
        plan["rules"] = [{"kinds": ["write"], "nth": int(flt["frac"] * n.get("write", 1)),
                          "action": "errno" if k == "write" else "sticky", "param": flt["errno"]}]
    elif k == "close":
        plan["rules"] = [{"kinds": ["closew"], "nth": int(flt["frac"] * n.get("closew", 1)), "action": "errno", "param": flt["errno"]}]
    elif k == "budget":
        plan["budget"] = int(flt["frac"] * size)
    elif k == "path":        # renaming, truncating, linking, creating directories: whatever else the write path calls
        kinds = [x for x in ("rename", "trunc", "mkdir", "unlink") if n.get(x)] or ["openw"]
        tot = sum(n.get(x, 0) for x in kinds)
        plan["rules"] = [{"kinds": kinds, "nth": int(flt["frac"] * tot), "action": "errno", "param": flt["errno"]}]
    if sc["preexisting"] and k != "nodir":
        for f in os.listdir(ref):
            with open(d + f, "wb") as h:
                h.write(b"previous contents\n" * 50)
    ok, path, rep, msg = do_write(ctx, sc, d, plan)
    fired = sum(rep["fired"]) + rep["budget_hits"] + (k == "nodir")
    ctx.log(fmt, sc["via"], k, ok, fired, msg[:200])
    # messages carry absolute paths: do not hash them beyond the scratch prefix
    if fired:
        ctx.nontrivial = True
        ctx.stats["fault:" + k] += 1
        ctx.cover.add("%s/%s/%s" % (fmt, sc["via"], k))
        if ok and fmt == "report":
            for f in ("report.txt", "out.nat"):
                got = open(d + f, "rb").read() if os.path.exists(d + f) else None
                if got != open(ref + f, "rb").read() or k == "close":
                    ctx.fail("failure-not-reported", "%s of a command line: injected %s failure (errno %s) was not reported; it is %s" % (
                        f, k, errno.errorcode.get(flt.get("errno", 0), "-"), "missing" if got is None else "%d bytes" % len(got)))
        elif ok:
            data = open(path, "rb").read() if os.path.exists(path) else None
            P = formats.strict_parse(fmt, data) if data is not None else None
            state = "missing" if data is None else ("incomplete (%d bytes of %d)" % (len(data), size) if P is None else "complete")
            if k == "close" or P is None:
                ctx.fail("failure-not-reported", "%s via %s: injected %s failure (errno %s) was not reported; file is %s" % (
                    fmt, sc["via"], k, errno.errorcode.get(flt.get("errno", 0), "-"), state))
            d2 = (formats.same_triangulated if fmt == "stl" else formats.same_polys)(want, P, formats.tol(fmt, sca))
            if d2:
                ctx.fail("failure-not-reported", "%s via %s: success reported, wrong contents: %s" % (fmt, sc["via"], d2))
    elif not ok:
        ctx.fail("sound-write-fails", "%s via %s failed although no fault fired: %s" % (fmt, sc["via"], msg))


def shrink(sc):
    if sc["write_cap"]:
        yield dict(sc, write_cap=None)
    if sc["preexisting"]:
        yield dict(sc, preexisting=False)
    if sc["via"] not in ("lib", "cli-report"):
        yield dict(sc, via="lib")
    f = sc["fault"]
    for fr in (0., .5):
        if f["frac"] != fr:
            yield dict(sc, fault=dict(f, frac=fr))
    for m in [] if sc["via"] == "cli-report" else iolib.shrink_mesh(sc["mesh"]):
        yield dict(sc, mesh=m)
