"""C08: exit status 0 means the documented result was written (reference pipeline on plain polygon lists)."""
import math
import os
import re

import numpy as np

from .. import clilib, core, formats, iolib, meshgen, refmesh as R, shim
from . import c07

LEVEL = "exploration"
QUICK, THOROUGH = 3200, 150000
RULE = ("a scenario is one simulated command-line process on a random mesh, formats and option set, with or without an unsound option, an "
        "injected read, open, write or close failure or a legal but irregular I/O schedule; non-trivial when at least one operation was "
        "requested or a fault fired")
REAL = ["meshmagick.cli.main and everything below it", "exit status of the process"]
STUB = ["I/O failures, short transfers and the clock come from the LD_PRELOAD disk simulator"]
ASSUMPTIONS = ["clipping compared on planar faces whose vertices are not within the vicinity tolerance of the plane",
               "clipping may also report a failure", "normal healing is judged by consistency and outwardness, not by the polygon list"]


def warm():
    clilib.warm()
    import gmsh, pygmsh  # noqa: F401,E401



SHARED = ("nat", "mar", "msh2", "vtk", "tec", "obj", "pnl", "rad")
BAD = [b for b in c07.BAD if not (b[:2] == ["-hs", "-zg"]) and b not in (["-ifmt", "gdf"], ["-ifmt", "med"], ["-ifmt", "vtp"], ["-ofmt", "rad"], ["-ofmt", "msh"])]


def gen(rng, i, tier):
    planar = rng.random() < 0.55
    if planar:
        V, F = meshgen.closed(rng, True)
        if rng.random() < .5:
            V = meshgen.rotate(V, rng)
        if rng.random() < .5:
            V = meshgen.affine(V, (1, 1, 1), [clilib._f(rng, -2, 2) for _ in range(3)])
        V = [[float("%.9g" % x) for x in v] for v in V]
        if rng.random() < .15:                       # an open body
            F = [f for f in F if rng.random() < .7] or F
            V, F = meshgen.compact(V, F)
    else:
        V, F = meshgen.any_mesh(rng)
    ops = clilib.gen_ops(rng, planar)
    if rng.random() < 0.15:
        ops = [o for o in ops if o[0] == "-p" or rng.random() < .3]
    d = rng.random()
    flipped = any(o[0] in ("-hm", "-hn") for o in ops) and d < .7
    if flipped:
        F = [f[::-1] if rng.random() < .4 else f for f in F]
    if rng.random() < 0.2:                           # unshared vertices, apart by less than any -md tolerance or equal
        V, F = [list(v) for v in V], [list(f) for f in F]
        for f in F:
            if rng.random() < .5:
                k = rng.randrange(4)
                o = f[k]
                V.append(list(V[o]))
                f[:] = [len(V) - 1 if x == o else x for x in f]
    near = 0.
    if not any(o[0] in ("-c", "-hm", "-hn") for o in ops) and rng.random() < .12:     # vertices nearly equal
        V, F = [list(v) for v in V], [list(f) for f in F]
        e = near = rng.choice([5e-6, 5e-5])
        for f in F:
            if rng.random() < .5:
                k = rng.randrange(4)
                o = f[k]
                V.append([x + rng.choice([-e, 0, e]) for x in V[o]])
                f[:] = [len(V) - 1 if x == o else x for x in f]
    if rng.random() < 0.15:
        for _ in range(rng.randint(1, 3)):
            k = rng.randrange(len(V) + 1)
            V.insert(k, [round(rng.uniform(-3, 3), 3) for _ in range(3)])
            F = [[x + (x >= k) for x in f] for f in F]
    fin = rng.choice([f for f in formats.RW if f != "diodore-dat"])
    fout = rng.choice([f for f in formats.RW if f != "diodore-dat"])
    if fout == "inp" or fin in ("inp",):
        fin = "nat" if fin == "inp" else fin
    sc = {"mesh": [V, F], "planar": planar, "fin": fin, "fout": fout, "ops": ops, "quiet": clilib.quiet_ops(rng),
          "how": rng.choices(["o", "ofmt", "o+ofmt", "upper", "none", "ifmt"], [10, 3, 3, 1, 1, 2])[0], "bad": None, "rule": None, "plan": {},
          "cc": None, "hs": None, "report": False, "near": near}
    if rng.random() < .2:
        sc["cc"] = list(meshgen.closed(rng, True))
        t = [clilib._f(rng, -2, 2) for _ in range(3)]
        k = rng.randrange(1, len(F)) if len(F) > 1 else 0
        sc["cc"][0] = [[float("%.9g" % x) for x in v] for v in meshgen.affine(sc["cc"][0], (1, 1, 1), t)]
        if k and rng.random() < .5:                  # the body in two files
            sc["cc"] = list(meshgen.compact(V, F[k:]))
            sc["mesh"] = list(meshgen.compact(V, F[:k]))
            if not any(o[0] == "-md" for o in sc["ops"]) and rng.random() < .7:
                sc["ops"].append(["-md"] + rng.choice([[], ["1e-8"], ["1e-4"]]))
    if rng.random() < .1:
        sc["ops"].append([rng.choice(["-pi", "-si"])])
    if planar and rng.random() < .12 and not any(o[0] in ("-c", "-fn", "-hm", "-hn", "--mirror", "-sym", "-tq") for o in ops):
        sc["ops"] = [o for o in sc["ops"] if o[0] not in ("-tz", "-t", "-r", "-rx", "-ry", "-rz")]
        sc["hs"] = rng.choice([["-hs", "-zg", "0"], ["-hs", "-zg", "-0.2", "-mdisp", rng.choice(["frac0.3", "frac0.5", "frac0.8", "frac0.02", "frac1.3", "1e-9"])]])
        if rng.random() < .4:
            z = rng.choice([-.3, 0., .5, 2.])
            sc["hs"] = ["-hs", "-mdisp", rng.choice(["frac0.3", "frac0.5", "frac0.6"]), "-cog"] + [str(clilib._f(rng, -.3, .3)) for _ in range(2)] + [str(z)]
            sc["fout"] = rng.choice(["nat", "mar", "gdf", "vtp", "hst"])
        sc["cc"] = None
        sc["report"] = rng.random() < .5
    if not sc["hs"] and rng.random() < .04:
        sc["lid"] = [gen_lid(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
        if any(o[0][:2] == "-s" and o[0] != "-sym" for o in ops) or rng.random() < .5:
            sc["ms"] = rng.choice([.3, .6, 1., 2.])
    k = rng.random()
    if k < 0.12:
        sc["bad"] = rng.choice([b for b in BAD if not (sc["hs"] and b[0] == "-hs")])
    elif k < 0.35:
        sc["rule"] = {"kind": rng.choice(["openr", "read", "openw", "write", "closew", "write"]), "frac": rng.random(),
                      "action": rng.choice(["errno", "sticky"]), "errno": rng.choice([5, 28, 13, 122])}
    elif k < 0.7:
        sc["plan"] = iolib.benign_plan(rng)
    if rng.random() < .25:
        sc["name"] = rng.choice(["hull.v2", "data/hull", "run.d/hull", "a b", "data/x.y"])
    if rng.random() < .3:                            # results of an earlier run
        sc["old"] = rng.choice(["mesh", "long", "short", "binary"])
    return sc


def leave(sc, d, out):
    """Files of an earlier run in the place of the results."""
    from meshmagick import mmio
    k = sc.get("old")
    if k == "mesh" and sc["fout"] == "inp":
        k = "long"
    names = [n for n in (out, "report.txt" if sc["report"] else None) if n and not n.startswith(sc.get("name", "in") + ".")]
    if not k:
        return
    for n in names:
        if k == "mesh" and n == out:
            X = [[float(x), float(y), 9.] for y in range(13) for x in range(13)]
            Q = [[13 * y + x, 13 * y + x + 1, 13 * y + x + 14, 13 * y + x + 13] for y in range(12) for x in range(12)]
            mmio.write_mesh(d + n, *iolib.arrays([X, Q]), sc["fout"])
            continue
        with open(d + n, "wb") as f:
            f.write({"long": b"1 2 3 4\n" * 9000, "mesh": b"==\n" * 9000, "short": b"0\n", "binary": bytes(range(256)) * 300}[k])


def files(d):
    return {os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs}


def gen_lid(rng):
    """Corners of a convex polygon, in either direction."""
    n, r, x, y = rng.randint(3, 7), rng.uniform(.5, 1.5), rng.uniform(-3, 3), rng.uniform(-3, 3)
    a = [2 * math.pi * (k + rng.uniform(0, .4)) / n for k in range(n)]
    p = [[round(x + r * math.cos(t), 3), round(y + r * math.sin(t), 3)] for t in a]
    return sum(p[::-1] if rng.random() < .3 else p, [])


def soup(P):
    V, F = [], []
    for p in P:
        k = len(V)
        V += [list(v) for v in p]
        F.append([k, k + 1, k + 2, k + (3 if len(p) == 4 else 0)])
    return V, F


KEYS = {"Oxy": [0, 0, 1.], "Oxz": [0, 1., 0], "Oyz": [1., 0, 0], "/Oxy": [0, 0, -1.], "/Oxz": [0, -1., 0], "/Oyz": [-1., 0, 0]}


def plane_of(a, planes, default):
    if not a:
        a = [default]
    if len(a) == 1:
        return (KEYS[a[0]], 0.) if a[0] in KEYS else planes[int(a[0])]
    return [float(x) for x in a[:3]], float(a[3])


class Unsure(Exception):
    pass


def clip_polys(P, n, c, slack):
    """Part of the polygons under the plane; raises Unsure near the vicinity tolerance."""
    n = R.unit(n)
    out = []
    for p in P:
        d = [R.dot(v, n) - c for v in p]
        if any(slack < abs(x) < 2.5e-3 for x in d):
            raise Unsure
        d = [0. if abs(x) <= slack else x for x in d]
        if max(d) <= 0:
            if min(d) < 0:
                out.append(p)
            elif min(d) == 0:
                raise Unsure             # a face lying on the plane
            continue
        if min(d) >= 0:
            continue
        q = []
        for i in range(len(p)):
            a, b, da, db = p[i - 1], p[i], d[i - 1], d[i]
            if da * db < 0:
                t = da / (da - db)
                q.append(tuple(a[k] + t * (b[k] - a[k]) for k in range(3)))
            if db <= 0:
                q.append(b)
        out.append(q)
    return out


def moments(P):
    """Oriented surface integrals of polygons (fan from the first corner): area, n, x, x n, x x n."""
    M = [0.] * 40
    for p in P:
        for i in range(1, len(p) - 1):
            a, b, c = p[0], p[i], p[i + 1]
            cr = R.cross(R.sub(b, a), R.sub(c, a))
            A = R.norm(cr) / 2
            g = [(a[k] + b[k] + c[k]) / 3 for k in range(3)]
            M[0] += A
            for k in range(3):
                M[1 + k] += cr[k] / 2
                M[4 + k] += A * g[k]
                for l in range(3):
                    M[7 + 3 * k + l] += cr[k] / 2 * g[l]
                    s = (sum(x[k] * x[l] for x in (a, b, c)) + 9 * g[k] * g[l]) / 12
                    M[16 + 3 * k + l] += A * s
    return M


def compare_integrals(want, got, eps, S):
    a, b = moments(want), moments(got)
    n = len(want) + len(got) + 4
    for k, (x, y) in enumerate(zip(a, b)):
        w = 0 if k < 4 else 1 if k < 16 else 2
        tol = 20 * eps * n * S * max(S, 1e-3) ** w + 1e-9 * a[0] * S ** w
        if abs(x - y) > tol:
            return "surface moment %d is %.9g instead of %.9g" % (k, y, x)
    return None


def pipeline(sc, P0, Pc, argv_ops):
    """(kind, polygons, amplification): what the documented operations make of the input."""
    ops = {}
    for o in argv_ops:
        ops.setdefault(o[0], []).append(o[1:])
    planes = [plane_of(a, [], "Oxy") for a in ops.get("-p", [])]
    V, F = soup(P0)
    if Pc is not None:
        V, F = R.concat(V, F, *soup(Pc))
    fuzz = 0.
    amp = 1.

    def need(r):
        if r is None:
            raise Unsure
        return r
    if "-md" in ops:
        a = float(ops["-md"][-1][0]) if ops["-md"][-1] else 1e-8
        V, F = need(R.merge(V, F, a))
    for a in ops.get("--mirror", [])[-1:]:
        V, F = R.mirror(V, F, *plane_of(a, planes, "Oxy"))
    for a in ops.get("-sym", []):
        V, F = need(R.symmetrize(V, F, *plane_of(a, planes, "Oxz")))
    heal = "-hm" in ops or "-hn" in ops

    def num(k):
        return [float(x) for x in ops[k][-1]]
    if "-t" in ops:
        V, F = R.translate(V, F, num("-t"))
    for k, ax in (("-tx", 0), ("-ty", 1), ("-tz", 2)):
        if k in ops:
            t = [0., 0., 0.]
            t[ax] = num(k)[0]
            V, F = R.translate(V, F, t)
    if "-r" in ops:
        V, F = R.rotate(V, F, [math.radians(x) for x in num("-r")])
    for k, ax in (("-rx", 0), ("-ry", 1), ("-rz", 2)):
        if k in ops:
            t = [0., 0., 0.]
            t[ax] = math.radians(num(k)[0])
            V, F = R.rotate(V, F, t)
    for k, ax in (("-s", None), ("-sx", 0), ("-sy", 1), ("-sz", 2)):
        if k in ops:
            s = num(k)[0]
            V, F = R.scale(V, F, [s if ax in (None, j) else 1. for j in range(3)])
            amp *= max(1., s)
    if "-fn" in ops:
        V, F = R.flip(V, F)
    P = formats.polys(V, F)
    return P, "tri" if "-tq" in ops else "poly", heal, [plane_of(a, planes, "Oxy") for a in ops.get("-c", [])], "-fn" in ops, amp


def oriented(P, eps, shared_by_position, flip):
    """None, or what is wrong with the orientation of a healed surface."""
    V, F = soup(P)
    m = R.merge(V, F, max(eps * 4, 1e-12))
    if m is None:
        return None
    V, F = m
    if any(len(set(f)) < 3 for f in F):
        return None
    E = R.edges(F)
    if any(len(u) > 2 for u in E.values()):
        return None
    c = R.same_orientation_conflicts(F)
    if c:
        return "neighbouring faces with opposite orientations remain (edge %s)" % (c[0],)
    ok, groups = R.orientable(F)
    if R.closed(F) and groups == 1:
        v = R.volume(V, F) * (-1 if flip else 1)
        if v < -1e-6:
            return "normals of a closed mesh point inwards after healing"
    return None


def run(sc, ctx):
    from meshmagick import mmio
    d = ctx.dir + "disk/"
    os.mkdir(d)
    fin, fout = sc["fin"], sc["fout"]
    ext = "xyz" if sc["how"] == "ifmt" else fin
    name = sc.get("name", "in")
    os.makedirs(os.path.dirname(d + name), exist_ok=True)
    src = d + name + "." + ext
    V, F = iolib.arrays(sc["mesh"])
    mmio.write_mesh(src, V, F, fin)
    P0 = formats.strict_parse(fin, open(src, "rb").read(), True)
    V0 = list(formats.VERTICES[0]) if P0 else []
    Pc = None
    ops = [list(o) for o in sc["ops"]]
    argv = [name + "." + ext] + (["-ifmt", fin] if sc["how"] == "ifmt" else [])
    if sc["cc"]:
        mmio.write_mesh(d + "second." + fin, *iolib.arrays(sc["cc"]), fin)
        Pc = formats.strict_parse(fin, open(d + "second." + fin, "rb").read(), True)
        V0 = V0 + list(formats.VERTICES[0] or []) if Pc else V0
        argv += ["-cc", "second." + fin]
    if P0 is None or (sc["cc"] and Pc is None):
        ctx.stats["input-not-writable"] += 1
        return
    out = {"o": "out." + fout, "ifmt": "out." + fout, "ofmt": name + "." + fout, "o+ofmt": "result.bin", "upper": "OUT." + fout.upper(), "none": None}[sc["how"]]
    if sc["how"] in ("ofmt", "o+ofmt"):
        argv += ["-ofmt", fout]
    if out and sc["how"] != "ofmt":
        argv += ["-o", out]
    try:
        P, kind, heal, clips, flip, amp = pipeline(sc, P0, Pc, ops)
        unsure = False
    except Unsure:
        unsure, heal, clips = True, False, []
    argv += clilib.flat(ops) + clilib.flat(sc["quiet"])
    disp = None
    if sc["hs"]:
        hs = list(sc["hs"])
        if "-mdisp" in hs and not unsure:
            # target relative to the volume of the transformed body
            vol = abs(R.volume(*soup_tri(P)))
            k = hs.index("-mdisp") + 1
            hs[k] = "%.9g" % (vol * 1.025 * float(hs[k][4:]) if hs[k].startswith("frac") else float(hs[k]))
            disp = float(hs[k])
        argv += hs + (["--hs-report", "report.txt"] if sc["report"] else [])
    for l in sc.get("lid") or []:
        argv += ["-lid"] + [str(x) for x in l]
    if sc.get("ms"):
        argv += ["-ms", str(sc["ms"])]
    if sc["bad"]:
        argv += sc["bad"]
    plan = dict(sc["plan"], rules=[], max_ops=200000)
    plan["clock"] = [1500000000 * 10**9, 0]
    if sc["plan"].get("rules"):
        plan["rules"] = list(sc["plan"]["rules"])
    fired = False
    leave(sc, d, out)

    def home():
        os.environ["HOME"] = ctx.dir + ".home"             # preferences of the toolkits behind gmsh
    if sc["rule"]:
        r = sc["rule"]
        ref = clilib.run(ctx, argv, d, plan={"rules": [], "clock": plan["clock"], "max_ops": 200000}, before=home)
        n = (ref["report"] or {}).get("kinds", {}).get(r["kind"], 1)
        for f in files(d):
            if f not in (name + "." + ext, "second." + fin):
                os.unlink(d + f)
        if ext == fout and sc["how"] == "ofmt":            # rewritten in place by the reference run
            mmio.write_mesh(src, V, F, fin)
        leave(sc, d, out)
        plan["rules"] = [{"kinds": [r["kind"]], "nth": int(r["frac"] * max(1, n)), "action": r["action"], "param": r["errno"]}]
    so = ctx.dir + "stdout.txt"
    res = clilib.run(ctx, argv, d, plan=plan, outfile=so, before=home)
    code = res["code"]
    rep = res["report"] or {"fired": [], "short_reads": 0, "short_writes": 0}
    fired = bool(sc["rule"] and sum(rep["fired"]))
    what = "bad option %s" % sc["bad"] if sc["bad"] else "%(action)s at %(kind)s" % sc["rule"] if sc["rule"] else "no fault"
    ctx.log(argv, what, code, res["err"], fired)
    ctx.nontrivial = bool(ops or fired or sc["bad"])
    for o in ops:
        ctx.stats["probe:" + o[0]] += 1
    ctx.stats["fault:short-read"] += rep["short_reads"]
    ctx.stats["fault:short-write"] += rep["short_writes"]
    if fired:
        ctx.stats["fault:%(kind)s-%(action)s" % sc["rule"]] += 1
    if sc["bad"]:
        ctx.stats["fault:bad-option"] += 1
    ctx.cover.add("%s>%s %s %s" % (fin, fout, sc["how"], what.split("[")[0]))
    ctx.stats["probe:over-earlier-results"] += bool(sc.get("old"))
    # options in argv with --hs-report etc. are part of the command line shown to the reader
    cl = "command line %s (%s)" % (" ".join(argv), what)
    if code > 128:
        ctx.fail("abnormal-end", "exit status %d; %s" % (code, cl))
    if sc["bad"]:
        if code == 0:
            ctx.fail("bad-option-accepted", "exit status 0; %s" % cl)
        return
    if code != 0:
        sound = not (clips or heal or fired or sc["hs"] or unsure or fout == "inp")
        if sound:
            ctx.fail("sound-command-fails", "exit status %d, %s; %s" % (code, res["err"], cl))
        ctx.stats["outcome:failure"] += 1
        if not fired:
            ctx.stats["outcome:unforced-failure"] += 1
        return
    ctx.stats["outcome:success"] += 1
    here = files(d) - {name + "." + ext, "second." + fin, "report.txt"}
    here -= {"Lid_%d.obj" % (k + 1) for k in range(len(sc.get("lid") or []))}
    if out is None:
        if here:
            ctx.fail("unrequested-output", "%s appeared; %s" % (sorted(here), cl))
        return
    if not os.path.exists(d + out):
        ctx.fail("no-output", "exit status 0 but %s does not exist (found %s); %s" % (out, sorted(here), cl))
    data = open(d + out, "rb").read()
    if unsure:
        return
    S = max([abs(x) for p in P for v in p for x in v] + [1e-3])
    sca0 = max([abs(x) for p in P0 + (Pc or []) for v in p for x in v] + [1e-3])
    eps = (formats.tol(fin, sca0) if fin in ("vtk", "vtp", "vtu", "stl") else 1e-12) * amp * 3 + formats.tol(fout, S) + 1e-9 * S
    eps = eps + amp * 1e-8 * 2
    if any(o[0] == "-md" for o in ops):         # whichever of nearly equal vertices is kept
        eps += 4 * amp * sc.get("near", 0.)
    try:
        slack = 1e-7 * S
        for n, c in clips:
            P = clip_polys(P, n, c, slack)
    except Unsure:
        ctx.stats["near-plane"] += 1
        return
    if clips and not P:
        ctx.stats["empty-clip"] += 1
        return
    got = formats.strict_parse(fout, data, True)
    if got is None:
        ctx.fail("malformed-output", "exit status 0 but the output is not a complete %s file: %r; %s" % (fout, data[:200], cl))
    md = [o for o in ops if o[0] == "-md"]
    if md and not heal and not clips and not sc.get("lid") and fin in ("nat", "mar", "tec", "vtk", "pnl", "obj") and fout not in ("gdf", "stl") and not any(o[0] in ("-sym", "-tq", "-hs") for o in ops):
        V0 = [[float(np.float32(x)) for x in v] for v in V0] if fin == "vtk" else V0         # single precision
        m = R.merge(V0, [], float(md[-1][1]) if md[-1][1:] else 1e-8)
        if m is not None:
            ctx.stats["probe:merged-vertices"] += len(m[0]) < len(V0)
            if len(m[0]) != len(formats.VERTICES[0]):
                ctx.fail("wrong-result", "%d vertices instead of %d after merging; %s" % (len(formats.VERTICES[0]), len(m[0]), cl))
    if sc.get("lid"):
        L = lids(sc, d, ctx, cl)
        E = [math.dist(p[i - 1], p[i]) for p in formats.dedupe(P) for i in range(len(p))]
        t = re.findall(r"Mean edge length \((\S+) m\)", open(so).read())
        if t and not clips and not sc["cc"] and not sc.get("near") and kind != "tri" and not any(o[0] in ("-sym", "-md", "-hm", "-hn") for o in ops) and E:
            ctx.stats["probe:mean-edge-length"] += 1
            if abs(float(t[0]) - sum(E) / len(E)) > 1e-6 + 2 * eps:
                ctx.fail("wrong-result", "mean edge length %s instead of %.7g; %s" % (t[0], sum(E) / len(E), cl))
        got = without(got, L, eps + formats.tol("obj", 5.) + 2e-6, fout == "stl", ctx, cl)
    if sc["hs"] and disp is not None:
        Q, e = hydro(P, got, eps, disp, "-cog" in sc["hs"])
        if e:
            ctx.fail("wrong-equilibrium", "%s; %s" % (e, cl))
        P = Q
        eps += formats.tol(fout, S)
    got = formats.dedupe(got)
    P = formats.dedupe(P)
    if clips:
        if not heal:
            e = compare_integrals(P, got, eps, S)
            if e:
                ctx.fail("wrong-result", "%s; %s" % (e, cl))
        else:
            a, b = moments(P)[0], moments(got)[0]
            if abs(a - b) > 40 * eps * S * (len(P) + len(got)) + 1e-9 * a:
                ctx.fail("wrong-result", "area %.9g instead of %.9g; %s" % (b, a, cl))
        for n, c in clips:
            n = R.unit(n)
            if any(R.dot(v, n) - c > 2 * eps + 1e-9 * S for p in got for v in p):
                ctx.fail("wrong-result", "part of the result is on the wrong side of the clipping plane; %s" % cl)
        return
    tri = kind == "tri" or fout == "stl"
    if heal:
        if tri:
            P, got = real_faces(P, eps, S), real_faces(got, eps, S)
        e = unoriented(P, got, eps, tri)
        if not e and not sc["cc"] and not any(o[0] == "-sym" for o in ops):
            hm = any(o[0] == "-hm" for o in ops)
            if hm or (fin in SHARED and all(x == y or V[x].tolist() != V[y].tolist() for x in range(len(V)) for y in range(x))):
                e = oriented(got, eps, True, flip)
        if e:
            ctx.fail("wrong-result", "%s; %s" % (e, cl))
        return
    if tri:                    # a triangle stored as a quadrangle with a repeated corner (GDF) also gives an empty triangle
        got, P = real_faces(got, eps, S), real_faces(P, eps, S)
    e = (formats.same_triangulated if tri else formats.same_polys)(P, got, eps)
    if e:
        ctx.fail("wrong-result", "%s; %s" % (e, cl))
    if sc["report"]:
        check_report(ctx, d, so, P, cl)


def lids(sc, d, ctx, cl):
    """The polygons of the lids, each of which covers the polygon given on the command line."""
    out = []
    for k, l in enumerate(sc["lid"]):
        f = "Lid_%d.obj" % (k + 1)
        L = formats.strict_parse("obj", open(d + f, "rb").read()) if os.path.exists(d + f) else None
        if L is None:
            ctx.fail("wrong-lid", "%s is missing or not complete; %s" % (f, cl))
        c = list(zip(l[::2], l[1::2]))
        s = sum(c[i - 1][0] * c[i][1] - c[i][0] * c[i - 1][1] for i in range(len(c))) / 2
        a = [sum(p[i - 1][0] * p[i][1] - p[i][0] * p[i - 1][1] for i in range(len(p))) / 2 for p in L]
        if any(v[2] != 0 for p in L for v in p):
            ctx.fail("wrong-lid", "%s is not on the free surface; %s" % (f, cl))
        if abs(sum(map(abs, a)) - abs(s)) > 1e-5 * (1 + len(L)) or abs(abs(sum(a)) - abs(s)) > 1e-5 * (1 + len(L)):
            ctx.fail("wrong-lid", "%s covers %.6f instead of %.6f, oriented %.6f; %s" % (f, sum(map(abs, a)), abs(s), sum(a), cl))
        m = [min(x[k] for x in c) for k in (0, 1)] + [max(x[k] for x in c) for k in (0, 1)]
        w = [min(v[k] for p in L for v in p) for k in (0, 1)] + [max(v[k] for p in L for v in p) for k in (0, 1)]
        if any(abs(x - y) > 2e-6 for x, y in zip(m, w)):
            ctx.fail("wrong-lid", "%s extends over %s instead of %s; %s" % (f, w, m, cl))
        e = max(math.dist(p[i - 1], p[i]) for p in L for i in range(len(p)))
        if sc.get("ms") and e > 2 * sc["ms"]:
            ctx.fail("wrong-lid", "%s has an edge of %.3f with a mesh size of %s; %s" % (f, e, sc["ms"], cl))
        out += L
    ctx.stats["probe:lid"] += 1
    return out


def without(got, L, eps, tri, ctx, cl):
    """The faces of the output that are not those of the lids."""
    left = list(got)
    for p in L:
        for j in range(len(left) - 1, -1, -1):
            if formats._same(p, left[j], eps):
                del left[j]
                break
        else:
            ctx.fail("wrong-result", "the face %s of a lid is not part of the result; %s" % (formats.rnd(p), cl))
    return left


def check_report(ctx, d, so, P, cl):
    if not os.path.exists(d + "report.txt"):
        ctx.fail("no-report", "exit status 0 but the hydrostatic report was not written; %s" % cl)
    t = open(d + "report.txt").read()
    i = t.find("HYDROSTATIC REPORT")
    body = t[i:].strip() if i >= 0 else None
    if body is None or body not in open(so).read():
        ctx.fail("wrong-report", "the hydrostatic report file differs from the printed report; %s" % cl)
    ctx.stats["probe:hs-report"] += 1


def soup_tri(P):
    V, F = [], []
    for p in P:
        k = len(V)
        V += [list(v) for v in p]
        for i in range(1, len(p) - 1):
            F.append([k, k + i, k + i + 1, k])
    return V, F


def hydro(P, got, eps, disp, rigid=False):
    """The output must be the body moved (vertically, or as a rigid body) to the requested displacement."""
    if rigid:
        Q = got
        a, b = ([sorted(math.dist(p[i], p[j]) for i in range(len(p)) for j in range(i)) for p in X] for X in (formats.dedupe(P), formats.dedupe(got)))
        if len(a) != len(b) or any(len(x) != len(y) or any(abs(s - t) > 6 * eps for s, t in zip(x, y)) for x, y in zip(a, b)):
            return Q, "the body was deformed"
        e = displaced(Q, eps, disp)
        return Q, e
    z = [v[2] for p in P for v in p]
    w = [v[2] for p in got for v in p]
    dz = max(w) - max(z)
    Q = [[(v[0], v[1], v[2] + dz) for v in p] for p in P]
    if formats.same_polys(formats.dedupe(Q), formats.dedupe(got), 3 * eps) and formats.same_triangulated(formats.dedupe(Q), formats.dedupe(got), 3 * eps):
        return Q, "the body was not moved vertically only"
    return Q, displaced(Q, eps, disp)


def displaced(Q, eps, disp):
    under = [clip0(p) for p in Q]
    V, F = soup_tri([p for p in under if len(p) > 2])
    vol = abs(R.volume(V, F)) if F else 0.
    A = max(1e-9, sum(R.area(V, f) for f in F))
    err = abs(vol * 1.025 - disp)
    tol = 3e-3 * A + 20 * eps * A + 1e-5 * disp
    if err > tol:
        return "displacement of the result is %.9g tons instead of %.9g" % (vol * 1.025, disp)
    return None


def clip0(p):
    q = []
    for i in range(len(p)):
        a, b = p[i - 1], p[i]
        if (a[2] < 0 < b[2]) or (b[2] < 0 < a[2]):
            t = a[2] / (a[2] - b[2])
            q.append(tuple(a[k] + t * (b[k] - a[k]) for k in range(3)))
        if b[2] <= 0:
            q.append(b)
    return q


def real_faces(P, eps, S):
    return [p for p in P if moments([p])[0] > 2 * eps * sum(math.dist(p[i - 1], p[i]) for i in range(len(p)))]


def unoriented(A, B, eps, tri):
    """Same polygons whatever their orientation."""
    if tri:
        return formats.same_triangulated(A, B, eps, lambda p, q, e: formats._same(p, q, e) or formats._same(p[::-1], q, e))
    if len(A) != len(B):
        return "%d faces instead of %d" % (len(B), len(A))
    left = list(B)
    for p in A:
        for j, q in enumerate(left):
            if formats._same(p, q, eps) or formats._same(p[::-1], q, eps):
                del left[j]
                break
        else:
            return "face %s has no counterpart" % (formats.rnd(p),)
    return None


def shrink(sc):
    for i in range(len(sc["ops"])):
        if sc["ops"][i][0] != "-p":
            yield dict(sc, ops=sc["ops"][:i] + sc["ops"][i + 1:])
    if sc["cc"]:
        yield dict(sc, cc=None)
    if sc["plan"]:
        yield dict(sc, plan={})
    if sc.get("lid"):
        yield dict(sc, lid=None, ms=None)
        if len(sc["lid"]) > 1:
            yield dict(sc, lid=sc["lid"][1:])
    if sc["quiet"]:
        yield dict(sc, quiet=[])
    if sc["fin"] != "nat":
        yield dict(sc, fin="nat")
    if sc["fout"] != "nat":
        yield dict(sc, fout="nat")
    if sc["how"] != "o":
        yield dict(sc, how="o")
    for m in iolib.shrink_mesh(sc["mesh"]):
        yield dict(sc, mesh=m)
