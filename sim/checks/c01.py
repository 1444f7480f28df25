"""C01: write + read round trip under benign (legal) I/O schedules and arbitrary clocks."""
import os

from .. import core, formats, iolib, shim

LEVEL = "exploration"
QUICK, THOROUGH = 8000, 120000
RULE = ("a scenario is a random mesh (1..n faces, triangles and quads, several magnitudes), a format and its alias, and a benign "
        "I/O schedule (read/write size caps, short transfers, EINTR, simulated clock); non-trivial when the schedule altered at "
        "least one transfer or the clock was simulated")
REAL = ["meshmagick.mmio readers and writers", "CPython file objects", "VTK 9 readers/writers (libstdc++ streams)", "numpy"]
STUB = ["short/interrupted transfers and wall clock come from the LD_PRELOAD disk simulator; bytes are stored in a real scratch directory"]
ASSUMPTIONS = ["coordinates up to 1e3; vertices further apart than 1e-4", "float32 storage inside VTK counts as the printed precision of VTK formats"]

warm = iolib.warm
TRUE_SIZE = ("vtk", "vtp", "vtu", "obj", "pnl", "diodore-dat")      # formats with genuine triangles


def gen(rng, i, tier):
    fmt = formats.RW[i % len(formats.RW)]
    sc = {"fmt": fmt, "alias": rng.choice(formats.ALIASES.get(fmt, [fmt])), "mesh": iolib.gen_io_mesh(rng, fmt),
          "plan": iolib.benign_plan(rng) if rng.random() < 0.85 else {}}
    if rng.random() < 0.5:
        sc["plan"] = dict(sc["plan"], clock=[rng.randrange(0, 4 * 10**18), rng.choice([0, 1, 10**9, 86400 * 10**9])])
    sc["name"] = rng.choice(["out.%s", "deep.name.%s", "x", "with space.%s", "UPPER.%s"])
    if "%s" in sc["name"]:
        sc["name"] = sc["name"] % rng.choice([fmt.replace("diodore-", ""), fmt.replace("diodore-", "").upper()])
    sc["layout"] = rng.choice(["C", "C", "F", "strided", "int32"])
    if sc["alias"] == "x":
        sc["name"] = "x.%s" % fmt
    sc["quick"] = fmt == "vtp" and rng.random() < .25
    return sc


BIG = [("nat", 101000), ("mar", 100500), ("nem", 100500), ("gdf", 12000), ("hst", 30000), ("diodore-dat", 12000), ("obj", 20000), ("tec", 20000), ("pnl", 20000),
       ("vtk", 20000), ("vtp", 20000), ("vtu", 20000), ("stl", 10000)]


def fixed_scenarios(tier):
    """Meshes whose numbers fill the columns of the formats."""
    return [{"fmt": f, "alias": f, "big": n, "plan": {}, "name": "big." + f.replace("diodore-", ""), "layout": "C"} for f, n in BIG] + \
        ([] if tier == "quick" else [{"fmt": f, "alias": f, "big": 100500, "plan": {}, "name": "big." + f.replace("diodore-", ""), "layout": "C"} for f in ("hst", "diodore-dat", "stl")])


def big(sc, ctx):
    """A band of sc["big"] quadrangles, compared in order."""
    import numpy as np
    from meshmagick import mmio
    n, fmt = sc["big"], sc["fmt"]
    x = np.arange(n + 1) * 2. ** -7
    V = np.vstack([np.column_stack([x, 0 * x, -1. + 0 * x]), np.column_stack([x, 1. + 0 * x, -1. + 0 * x])])
    i = np.arange(n)
    F = np.column_stack([i, i + 1, i + 2 + n, i + 1 + n])
    path = ctx.dir + sc["name"]
    mmio.write_mesh(path, V, F, sc["alias"])
    real = iolib.outname(fmt, path)
    want, eps = V[F], formats.tol(fmt, float(np.abs(V).max()))
    try:
        v, f = mmio.load_mesh(real, sc["alias"])
    except Exception as e:
        ctx.fail("big-mesh", "%s: reading back a mesh of %d vertices and %d faces raised %s: %s" % (fmt, len(V), len(F), type(e).__name__, e))
    v, f = np.asarray(v), np.asarray(f)

    def fail(what, w):
        ctx.fail("big-mesh", "%s: %s of a mesh of %d vertices and %d faces: %s" % (fmt, what, len(V), len(F), w))
    for what, Q in (("file", formats.strict_parse(fmt, open(real, "rb").read())), ("mesh read back", None if fmt == "stl" else [v[k] for k in f])):
        if fmt == "stl":
            if len(f) != 2 * n or Q is not None and len(Q) != 2 * n:
                fail(what, "%d triangles" % len(f))
            continue
        if Q is None or len(Q) != n:
            fail(what, "malformed" if Q is None else "%d faces" % len(Q))
        d = np.abs(np.array(Q, dtype=float) - want).max(axis=(1, 2))
        if not d.max() <= eps:
            k = int(d.argmax())
            fail(what, "face %d is %s instead of %s" % (k, np.array(Q[k]).tolist(), want[k].tolist()))
    ctx.stats["probe:big-mesh"] += 1


def layout(V, F, how):
    import numpy as np
    if how == "F":
        return np.asfortranarray(V), np.asfortranarray(F)
    if how == "strided":
        W = np.zeros((2 * len(V), 3)); W[::2] = V
        G = np.zeros((2 * len(F), 4), dtype=int); G[::2] = F
        return W[::2], G[::2]
    if how == "int32":
        return V, F.astype(np.int32)
    return V, F


def run(sc, ctx):
    from meshmagick import mmio
    fmt = sc["fmt"]
    if "big" in sc:
        return big(sc, ctx)
    V, F = iolib.arrays(sc["mesh"])
    want = formats.polys(V, F)
    sca = iolib.scale_of(sc["mesh"])
    path = ctx.dir + sc["name"]
    v, f = layout(V.copy(), F.copy(), sc.get("layout", "C"))
    shim.begin(ctx.dir, sc["plan"])
    try:
        iolib.save(path, v, f, sc["alias"], sc.get("quick"))
    except Exception as e:
        shim.end()
        ctx.fail("write-raises", "%s: writing a sound mesh raised %s: %s" % (fmt, type(e).__name__, e))
    r1 = shim.report()
    if sc["plan"].get("clock"):
        ctx.simtime_ns += max(0, shim.lib().fs_clock_now() - sc["plan"]["clock"][0])
    shim.end()
    real = iolib.outname(fmt, path)
    if not os.path.exists(real):
        ctx.fail("no-output", "%s: no file after a successful write; directory has %s" % (fmt, sorted(os.listdir(ctx.dir))))
    data = open(real, "rb").read()
    P = formats.strict_parse(fmt, data)
    if P is None:
        ctx.fail("malformed-file", "%s: the written file is not a well-formed complete file: %r" % (fmt, data[:300]))
    corners = sum(map(len, P if fmt not in TRUE_SIZE else want))
    if fmt in TRUE_SIZE and len(P) == len(want) and formats.CORNERS[0] != corners:
        ctx.fail("malformed-file", "%s: the faces of the written file list %d corners instead of %d: %r" % (fmt, formats.CORNERS[0], corners, data[-300:]))
    eps = formats.tol(fmt, sca)
    cmpf = formats.same_triangulated if fmt == "stl" else formats.same_polys
    d = cmpf(want, P, eps)
    if d:
        ctx.fail("file-differs", "%s: written file does not describe the mesh: %s" % (fmt, d))
    shim.begin(ctx.dir, sc["plan"])
    try:
        v2, f2 = mmio.load_mesh(real, sc["alias"])
    except Exception as e:
        shim.end()
        ctx.fail("load-raises", "%s: reading back raised %s: %s" % (fmt, type(e).__name__, e))
    r2 = shim.report()
    shim.end()
    d = iolib.compare(fmt, want, v2, f2, sca)
    if d:
        ctx.fail("roundtrip-differs", "%s: %s" % (fmt, d))
    for r in (r1, r2):
        ctx.log(r["hash"])
        ctx.stats["fault:short-read"] += r["short_reads"]
        ctx.stats["fault:short-write"] += r["short_writes"]
        ctx.stats["fault:eintr-or-short-rule"] += sum(r["fired"])
        ctx.stats["fault:clock-read"] += r["clock_reads"]
        if r["short_reads"] + r["short_writes"] + sum(r["fired"]) + r["clock_reads"]:
            ctx.nontrivial = True
    ctx.log(len(data), d)
    ctx.cover.add("%s/%d faces/%s%s" % (fmt, min(len(F), 5), "t" if any(x[0] == x[3] for x in F) else "", "q" if any(x[0] != x[3] for x in F) else ""))
    ctx.stats["probe:tiny-mesh"] += len(F) < 4
    ctx.stats["probe:mixed-faces"] += len({x[0] == x[3] for x in F.tolist()}) == 2


def shrink(sc):
    if "big" in sc:
        for n in (10, 1000, 10000, 100000):
            if n < sc["big"]:
                yield dict(sc, big=n)
        return
    for p in iolib.shrink_plan(sc["plan"]):
        yield dict(sc, plan=p)
    if sc.get("layout") != "C":
        yield dict(sc, layout="C")
    for m in iolib.shrink_mesh(sc["mesh"]):
        yield dict(sc, mesh=m)
