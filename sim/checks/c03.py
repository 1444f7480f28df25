"""C03: acknowledged files are complete whatever kills the process afterwards."""
import os

from .. import clilib, core, formats, iolib, shim

LEVEL = "fault_enumeration"
QUICK, THOROUGH = 5000, 150000
RULE = ("a scenario writes 1-4 random meshes one after the other in one process (library) or runs one command line, and kills the "
        "process without any clean-up: at a chosen system call (optionally after part of the bytes of a write), or at the instant the "
        "last call returned; non-trivial when at least one file had been acknowledged before the kill")
REAL = ["meshmagick.mmio writers", "meshmagick.cli.main", "CPython file objects and their buffers", "process termination by _exit"]
STUB = ["the kill is placed by the LD_PRELOAD disk simulator"]
ASSUMPTIONS = ["process crash, not power loss: bytes accepted by the operating system survive (meshmagick never calls fsync and does not promise power-loss durability)"]
warm = clilib.warm


def gen(rng, i, tier):
    if rng.random() < 0.35:
        fmt = formats.RW[i % len(formats.RW)]
        return {"via": "cli", "items": [{"fmt": fmt, "mesh": iolib.gen_io_mesh(rng, fmt)}], "write_cap": rng.choice([None, 64]),
                "kill": {"at": "end"}, "api": "mmio"}
    items = []
    for k in range(rng.choice([1, 1, 2, 3, 4])):
        fmt = formats.RW[(i + k * 5) % len(formats.RW)]
        items.append({"fmt": fmt, "mesh": iolib.gen_io_mesh(rng, fmt), "quick": rng.random() < .25})
    kill = {"at": "end"} if rng.random() < 0.5 else {"at": "op", "frac": rng.random(), "partial": rng.choice([None, 0, 30, 90])}
    return {"via": "lib", "items": items, "kill": kill, "write_cap": rng.choice([None, None, 50, 1000]), "same_name": rng.random() < 0.1}


def name(k, fmt, same):
    ext = fmt.replace("diodore-", "")
    return "out%d.%s" % (0 if same else k, ext.upper() if fmt == "diodore-dat" else ext)


def write_all(sc, d, plan, ack):
    from meshmagick import mmio
    shim.begin(d, plan)
    for k, it in enumerate(sc["items"]):
        V, F = iolib.arrays(it["mesh"])
        shim.lib().fs_resume()
        iolib.save(d + name(k, it["fmt"], False), V, F, it["fmt"], it.get("quick"))
        ack(k)


def run(sc, ctx):
    if sc["via"] == "cli":
        it = sc["items"][0]
        src = ctx.dir + "in.msh"
        with open(src, "wb") as f:
            f.write(formats.emit("msh2", *it["mesh"]))
        d = ctx.dir + "disk/"
        os.mkdir(d)
        out = d + name(0, it["fmt"], False)
        argv = [src, "-o", out] + (["-ofmt", it["fmt"]] if it["fmt"] == "diodore-dat" else [])
        r = clilib.run(ctx, argv, d, plan={"write_cap": sc["write_cap"]}, crash_after=True)
        ctx.log("cli", r["code"], r["err"])
        if r["code"] != 0:
            ctx.fail("sound-run-fails", "command line on a sound input exited with %d: %s" % (r["code"], r["err"]))
        ctx.stats["fault:kill-after-exit-status"] += 1
        ctx.nontrivial = True
        check(ctx, it, out)
        return
    d0, d = ctx.dir + "ref/", ctx.dir + "disk/"
    os.mkdir(d0); os.mkdir(d)
    base = {"write_cap": sc["write_cap"]}
    plan = dict(base)
    kill = sc["kill"]
    if kill["at"] == "op":
        def dry(w):
            write_all(sc, d0, base, lambda k: None)
            os.write(w, str(shim.lib().fs_ops()).encode())
            shim.end()
        code, out = core.fork_call(dry)
        if code:
            ctx.fail("sound-run-fails", "writing sound meshes failed (status %d)" % code)
        n = int(kill["frac"] * int(out))
        kinds = ["openw", "write", "closew", "openr", "read", "closer", "rename", "unlink", "trunc"]
        if kill["partial"] is not None:
            plan["rules"] = [{"kinds": ["write"], "nth": int(kill["frac"] * max(1, int(out) - 2 * len(sc["items"]))), "action": "crash_partial", "param": kill["partial"]}]
        else:
            plan["rules"] = [{"kinds": kinds, "nth": n, "action": "crash"}]

    def body(w):
        write_all(sc, d, plan, lambda k: os.write(w, b"%d " % k))
        shim.lib().fs_pause()
        os.kill(os.getpid(), 9)        # nothing gets flushed
    code, out = core.fork_call(body)
    acked = [int(x) for x in out.split()]
    ctx.log("killed", code, acked)
    if code not in (137,):
        ctx.fail("sound-run-fails", "writing sound meshes ended with status %d after %s" % (code, acked))
    if kill["at"] == "end":
        ctx.stats["fault:kill-after-return"] += 1
    elif len(acked) < len(sc["items"]):
        ctx.stats["fault:kill-inside-write"] += 1
    else:
        ctx.stats["fault:kill-after-return"] += 1
    if acked:
        ctx.nontrivial = True
    for k in acked:
        check(ctx, sc["items"][k], d + name(k, sc["items"][k]["fmt"], False))


def check(ctx, it, path):
    fmt = it["fmt"]
    V, F = iolib.arrays(it["mesh"])
    want = formats.polys(V, F)
    sca = iolib.scale_of(it["mesh"])
    if not os.path.exists(path):
        ctx.fail("acknowledged-lost", "%s: acknowledged file does not exist after the kill" % fmt)
    data = open(path, "rb").read()
    P = formats.strict_parse(fmt, data)
    ctx.cover.add("%s/%s" % (fmt, "large" if len(data) > 8192 else "small"))
    if P is None:
        ctx.fail("acknowledged-lost", "%s: acknowledged file is incomplete after the kill: %d bytes, ends with %r" % (fmt, len(data), data[-60:]))
    d = (formats.same_triangulated if fmt == "stl" else formats.same_polys)(want, P, formats.tol(fmt, sca))
    if d:
        ctx.fail("acknowledged-lost", "%s: acknowledged file is not the mesh after the kill: %s" % (fmt, d))


def shrink(sc):
    if sc["via"] == "lib":
        for i in range(len(sc["items"])):
            if len(sc["items"]) > 1:
                yield dict(sc, items=sc["items"][:i] + sc["items"][i + 1:])
    if sc["write_cap"]:
        yield dict(sc, write_cap=None)
    if sc["kill"]["at"] == "op":
        yield dict(sc, kill={"at": "end"})
    for i, it in enumerate(sc["items"]):
        for m in iolib.shrink_mesh(it["mesh"]):
            yield dict(sc, items=sc["items"][:i] + [dict(it, mesh=m)] + sc["items"][i + 1:])
