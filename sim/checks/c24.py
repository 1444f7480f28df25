"""C24: the numbers a command prints and reports are those of the mesh it writes, whatever the disk does."""
import math
import os
import re

import numpy as np

from .. import clilib, formats, iolib, meshgen, refmesh as R
from . import c07, c08, c18, c19

LEVEL = "exploration"
QUICK, THOROUGH = 2000, 120000
RULE = ("a scenario is one simulated command-line process on a closed hull with random formats, transformations and computation options (plain and shell inertia, mesh "
        "summary, hydrostatics as is, at a displacement, at a centre of gravity, with lpp, perpendicular, density, gravity and report options, or a set of options that "
        "cannot be computed), whose input, output, report file and standard output are on the simulated disk: legal but irregular transfers or a failing open, read, "
        "write or close; every printed number is compared with own integrals over the polygons of the output file; non-trivial when a result was judged or a fault fired")
REAL = ["meshmagick.cli.main and everything below it", "standard output buffering and exit status of the process"]
STUB = ["I/O failures, short transfers and the clock come from the LD_PRELOAD disk simulator"]
ASSUMPTIONS = ["hydrostatics are judged on hulls closed around the immersed part with no vertex near the free surface", "values are judged to the digits printed"]
warm = clilib.warm
FMT = [f for f in formats.RW if f not in ("diodore-dat", "inp", "stl", "pnl", "rad")]
MOVES = ["-tx", "-ty", "-rz", "-s", "-sx", "-sy", "-tq", "-md"]


def gen(rng, i, tier):
    V, F = c18.gen_hull(rng)
    hs = rng.random() < .62
    ops = clilib.gen_ops(rng, True, allow_clip=False)
    if hs:
        ops = [o for o in ops if o[0] in MOVES]
    ops = [o for o in ops if o[0] == "-p" or rng.random() < .6]
    sc = {"mesh": [V, F], "fin": rng.choice(FMT), "fout": rng.choice(FMT), "ops": ops, "opts": [], "hs": [], "report": False, "rule": None, "plan": {}, "quiet": rng.random() < .1}
    f = lambda x: str(float("%.4g" % x)) if abs(x) >= 1e-3 else "0.0"
    if not hs or rng.random() < .15:
        for k in ("-pi", "-si"):
            if rng.random() < .7:
                sc["opts"].append([k])
        if rng.random() < .4:
            sc["opts"].append(["--rho-medium", rng.choice(["1", "0.25", "1025", "2600.5", "7850"])])
        if rng.random() < .4:
            sc["opts"].append(["--thickness", rng.choice(["1", "0.01", "0.25", "0", "3.5"])])
    if hs:
        k = rng.random()
        z = ["-zg", f(rng.uniform(-1, 1))]
        d = ["-mdisp", "frac%.3f" % rng.choice([rng.uniform(.1, .9), rng.uniform(.3, .6), rng.uniform(.3, .6), 1.4])]
        c = ["-cog", f(rng.uniform(-.3, .3)), f(rng.uniform(-.3, .3)), f(rng.uniform(-.5, .2))]
        sc["hs"] = ["-hs"] + (z if k < .4 else d + z if k < .65 else d + c if k < .8 else c if k < .88 else c + z + (d if k < .92 else []) if k < .95 else d if k < .97 else [])
        for o, p in ((["-lpp", f(rng.uniform(.5, 9))], .3), (["-ap"], .25), (["-wd", rng.choice(["1000", "1", "0.5", "1023.5"])], .35), (["-g", rng.choice(["9.80665", "1", "9.7"])], .3),
                     (["-pn", "barge"], .1)):
            if rng.random() < p:
                sc["hs"] += o
        if "-cog" in sc["hs"]:
            sc["fin"], sc["fout"], sc["ops"] = "nat", rng.choice(["nat", "mar", "vtu"]), [o for o in sc["ops"] if o[0] != "-tq"]
        sc["report"] = rng.random() < .4
    if rng.random() < .45:
        sc["opts"].append(["-i"])
    if rng.random() < .07:
        sc["opts"].append(["--list-medium"])
    k = rng.random()
    if k < .3:
        sc["rule"] = {"kind": rng.choice(["openr", "read", "openw", "write", "write", "write", "closew"]), "frac": rng.random(), "action": rng.choice(["errno", "sticky", "short"]),
                      "errno": rng.choice([5, 28, 32])}
    elif k < .7:
        sc["plan"] = iolib.benign_plan(rng)
    return sc


NUM = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)"


def parse_report(t):
    """Label -> list of (values as written) of every report line, in order."""
    out = {}
    for line in t.splitlines():
        m = re.match(r"^\t(.*?)-*>  (.*)$", line)
        if m:
            out.setdefault(m.group(1).rstrip("-").strip(), []).append(re.findall(NUM, m.group(2)))
    return out


def unit_of(x):
    """Half a unit of the last digit written."""
    m = re.match(r"[-+]?\d+\.?(\d*)(?:[eE]([-+]?\d+))?$", x)
    return .5 * 10. ** (int(m.group(2) or 0) - len(m.group(1))) if m else math.nan


def off(written, want, slack):
    if len(written) != len(want):
        return True
    return any(not abs(float(x) - y) <= 1.02 * unit_of(x) + slack for x, y in zip(written, want))


def run(sc, ctx):
    from meshmagick import mmio
    d = ctx.dir + "disk/"
    os.mkdir(d)
    fin, fout = sc["fin"], sc["fout"]
    src = d + "in." + fin
    mmio.write_mesh(src, *iolib.arrays(sc["mesh"]), fin)
    P0 = formats.strict_parse(fin, open(src, "rb").read(), True)
    if P0 is None:
        ctx.stats["input-not-writable"] += 1
        return
    try:
        P, kind, heal, clips, flip, amp = c08.pipeline(sc, P0, None, sc["ops"])
    except c08.Unsure:
        return
    P = formats.dedupe(P)
    planar = c18.c17.planar_convex(formats.polys(*sc["mesh"]))
    opt = {o[0]: o[1:] for o in sc["opts"]}
    argv = ["in." + fin, "-o", "out." + fout] + clilib.flat(sc["ops"]) + clilib.flat(sc["opts"])
    hs = list(sc["hs"])
    h = lambda k, default=None, n=1: (hs[hs.index(k) + 1:][:n] if n > 1 else hs[hs.index(k) + 1]) if k in hs else default
    rho, grav = float(h("-wd", 1025.)), float(h("-g", 9.81))
    if "-mdisp" in hs:
        vol = abs(R.volume(*c08.soup_tri(P)))
        hs[hs.index("-mdisp") + 1] = "%.9g" % (vol * rho * 1e-3 * float(h("-mdisp")[4:]))
    argv += hs + (["--hs-report", "report.txt"] if sc["report"] else []) + (["-q"] if sc["quiet"] else [])
    clock = [1500000000 * 10**9, 0]
    so = d + "stdout.log"
    plan = dict(sc["plan"], rules=list(sc["plan"].get("rules", [])), clock=clock, max_ops=300000)
    if sc["rule"]:
        r = sc["rule"]
        ref = clilib.run(ctx, argv, d, plan={"rules": [], "clock": clock, "max_ops": 300000}, stdout=so)
        n = (ref["report"] or {}).get("kinds", {}).get(r["kind"], 1)
        for x in os.listdir(d):
            if x != "in." + fin:
                os.unlink(d + x)
        first = r["kind"] == "openw"          # the shell opens the standard output
        plan["rules"] = [{"kinds": [r["kind"]], "nth": first + int(r["frac"] * max(1, n - first)), "action": r["action"], "param": 1 if r["action"] == "short" else r["errno"]}]
    res = clilib.run(ctx, argv, d, plan=plan, stdout=so)
    code, rep = res["code"], res["report"] or {"fired": [], "short_reads": 0, "short_writes": 0}
    fired = bool(sc["rule"] and sc["rule"]["action"] != "short" and sum(rep["fired"]))
    ctx.log(argv, code, res["err"], fired)
    for o in sc["opts"] + ([hs[:1]] if hs else []):
        ctx.stats["probe:" + o[0]] += 1
    ctx.stats["fault:short-read"] += rep["short_reads"]
    ctx.stats["fault:short-write"] += rep["short_writes"]
    if fired:
        ctx.stats["fault:%(kind)s-%(action)s" % sc["rule"]] += 1
        ctx.nontrivial = True
    ctx.cover.add("%s %s %s" % (fout, " ".join(sorted(o[0] for o in sc["opts"])), " ".join(x for x in hs if x[0] == "-" and x[1:2].isalpha())))
    what = " (%(action)s at %(kind)s)" % sc["rule"] if sc["rule"] else ""
    cl = "command line %s%s" % (" ".join(argv), what)
    if code > 128:
        ctx.fail("abnormal-end", "exit status %d; %s" % (code, cl))
    cog, zg = h("-cog", None, 3), h("-zg")
    if hs and cog is None and zg is None and code == 0:
        ctx.fail("impossible", "exit status 0 although the height of the centre of gravity is missing; %s" % cl)
    if code:
        ctx.stats["outcome:failure"] += 1
        if not fired and not hs and not heal:
            ctx.fail("sound-command-fails", "exit status %d, %s; %s" % (code, res["err"], cl))
        if not fired and not heal and hs and "-mdisp" not in hs and cog is None and zg is not None and planar and judge(P, 0.) is not None:
            ctx.fail("sound-command-fails", "exit status %d, %s; %s" % (code, res["err"], cl))
        return
    ctx.stats["outcome:success"] += 1
    text = open(so, encoding="utf-8", errors="replace").read()
    got = formats.strict_parse(fout, open(d + "out." + fout, "rb").read(), True) if os.path.exists(d + "out." + fout) else None
    if got is None:
        ctx.fail("no-output", "exit status 0 without a complete output; %s" % cl)
    Q = formats.dedupe(got)
    S = max([abs(x) for p in P + Q for v in p for x in v] + [1e-3])
    sca0 = max([abs(x) for p in P0 for v in p for x in v] + [1e-3])
    eps = (formats.tol(fin, sca0) if fin in ("vtk", "vtp", "vtu", "stl") else 1e-12) * amp * 3 + formats.tol(fout, S) + 1e-9 * S + amp * 2e-8
    bad = lambda t: ctx.fail("wrong-number", "%s; %s" % (t, cl))
    if not sc["quiet"] and not heal and planar:
        for k in ("-pi", "-si"):
            if k in opt:
                check_inertia(ctx, k, opt, text, P, S, eps, bad)
    if "-i" in opt:
        check_info(ctx, text, Q, S, eps, bad)
    if hs and planar:
        check_hydro(ctx, sc, hs, h, text, d, P, Q, S, eps, rho, grav, cog, zg, bad)


# ------------------------------------------------------------------ inertia and summary
def check_inertia(ctx, k, opt, text, P, S, eps, bad):
    rho = float(opt["--rho-medium"][0]) if "--rho-medium" in opt else 1023. if k == "-pi" else 7850.
    t = float(opt["--thickness"][0]) if "--thickness" in opt else .02
    i = text.find("uniform distribution" if k == "-pi" else "shell distribution")
    if i < 0:
        bad("no inertia printed for %s" % k)
    j = text.find("Expressed at point", i)
    T = text[i:text.find("\n", j)]
    head = T[:T.find("Mass")]
    if "%.1f kg" % rho not in head or k == "-si" and "%.3f m" % t not in head:
        bad("%s inertia printed for other values than those asked: %r" % (k, head))
    V, F = c08.soup_tri(P)
    V = [list(map(float, v)) for v in V]
    if k == "-pi" and (not c18.closed_body(P) or R.volume(V, F) < 1e-4 * S ** 3):
        return
    m, c, M = (R.solid_of if k == "-pi" else R.shell_of)(V, F)
    A = R.shell_of(V, F)[0]
    f = rho * (1. if k == "-pi" else t)
    n = len(P) + 4
    e = (1e-7 * S + 20 * eps) * f
    e0 = e * A if k == "-pi" else e * S * n           # error on the mass: moved surfaces or moved edges
    grp = re.search(r"Mass = (%s) tons.*?xg = (%s)\s+yg = (%s)\s+zg = (%s).*?\(SI\):\s+((?:%s\s+){9})Expressed at point :\s+((?:%s\s*){3})$" % ((NUM,) * 6), T, re.S)
    if not grp:
        bad("inertia of %s not readable: %r" % (k, T))
    ctx.stats["probe:judged" + k] += 1
    ctx.nontrivial = True
    if off([grp[1]], [f * m / 1000.], e0 / 1000.):
        bad("%s mass printed as %s tons instead of %.9g" % (k, grp[1], f * m / 1000.))
    if off([grp[2], grp[3], grp[4]], c, 4 * (1e-7 * S + 20 * eps) * (A if k == "-pi" else S * n) * S / m):
        bad("%s centre of gravity printed as %s instead of %s" % (k, [grp[2], grp[3], grp[4]], c))
    p = [float(x) for x in grp[6].split()]
    G = np.array(c19.Body(f * m, c, (f * np.array(M)).tolist(), [0., 0., 0.]).at(p))
    s2 = (S + max(map(abs, p))) ** 2
    if off(grp[5].split(), G.ravel().tolist(), 4 * e0 * s2):
        bad("%s inertia matrix at %s printed as %s instead of %s" % (k, p, grp[5].split(), G.ravel().tolist()))


def check_info(ctx, text, Q, S, eps, bad):
    m = {k: re.search(k + r"\s*[:=]\s*(%s)" % NUM, text[text.rfind("MESH NAME"):]) for k in
         ("Number of faces", "Number of triangles", "Number of quadrangles", "xmin", "xmax", "ymin", "ymax", "zmin", "zmax")}
    if not all(m.values()):
        bad("mesh summary not printed")
    ctx.stats["probe:judged-i"] += 1
    ctx.nontrivial = True
    for k, w in (("Number of faces", len(Q)), ("Number of triangles", sum(len(p) == 3 for p in Q)), ("Number of quadrangles", sum(len(p) == 4 for p in Q))):
        if int(m[k][1]) != w:
            bad("%s printed as %s instead of %d" % (k, m[k][1], w))
    for a, ax in enumerate("xyz"):
        x = [v[a] for p in Q for v in p]
        for k, w in ((ax + "min", min(x)), (ax + "max", max(x))):
            if off([m[k][1]], [w], 2 * eps):
                bad("%s printed as %s instead of %.9g" % (k, m[k][1], w))


# ------------------------------------------------------------------ hydrostatics
def judge(Q, eps):
    """Own hydrostatics of the polygons under the free surface, None when not decidable."""
    z = [v[2] for p in Q for v in p]
    if not c18.closed_body(Q) or min(math.dist(p[i], p[i - 1]) for p in Q for i in range(len(p))) < 1e-3 or min(z) > -.01 or max(z) < .01 or c18.c17.crowded(Q):
        return None
    o = c18.own(Q)
    if o is None or o["on"] is None or c18.c17.touching(o["polys"], [0., 0., 1.], 0.):
        return None
    L = max(1e-2, max(abs(x) for p in Q for v in p for x in v))
    A = o["W"][0]
    return None if A < 1e-4 * L * L or o["vol"] < 1e-5 * L ** 3 else o


def motion(P, Q, eps):
    """Rotation and translation from polygons P to polygons Q in the same order (their first corners may differ)."""
    if [len(p) for p in P] != [len(p) for p in Q]:
        return None
    a, b = (np.array([np.mean(p, axis=0) for p in X]) for X in (P, Q))
    ca, cb = a.mean(axis=0), b.mean(axis=0)
    U, s, W = np.linalg.svd((a - ca).T @ (b - cb))
    if s[1] < 1e-2 * s[0]:
        return None
    rot = W.T @ np.diag([1., 1., np.linalg.det(W.T @ U.T)]) @ U.T
    t = cb - rot @ ca
    return None if formats.same_polys([[tuple(rot @ np.array(v) + t) for v in p] for p in P], Q, eps) else (rot, t)


def check_hydro(ctx, sc, hs, h, text, d, P, Q, S, eps, rho, grav, cog, zg, bad):
    i = text.find("HYDROSTATIC REPORT")
    if i < 0:
        bad("no hydrostatic report printed")
    j = text.find("MESH NAME", i)
    body = text[i:] if j < 0 else text[i:j]
    if sc["report"]:
        t = open(d + "report.txt").read() if os.path.exists(d + "report.txt") else ""
        k = t.find("HYDROSTATIC REPORT")
        if k < 0 or t[k:].strip() not in text:
            bad("the report file differs from the printed report")
        ctx.stats["probe:report-file"] += 1
    r = parse_report(body)
    lim = "Impossible to reach" in text
    if cog is None:
        rot, t = np.eye(3), [0., 0., max(v[2] for p in Q for v in p) - max(v[2] for p in P for v in p)]
        if "-tq" not in [o[0] for o in sc["ops"]]:
            e = formats.same_polys([[(v[0], v[1], v[2] + t[2]) for v in p] for p in P], Q, 3 * eps)
            if e:
                bad("the mesh was not moved vertically only: %s" % e)
    else:
        mv = motion(P, Q, 20 * eps)
        if mv is None:
            ctx.stats["probe:hs-not-comparable"] += 1
            return
        rot, t = mv
        if abs(t[0]) > 40 * eps or abs(t[1]) > 40 * eps:
            bad("the mesh was moved by the rotation %s and the translation %s" % (rot.tolist(), t.tolist()))
    o = judge(Q, eps)
    if o is None:
        ctx.stats["probe:hs-not-decidable"] += 1
        return
    ctx.stats["probe:judged-hs"] += 1
    ctx.nontrivial = True
    L = max(1e-2, S)
    n = 1e-7 + 40 * eps / L
    A, Sx, Sy, Sxy, Sxx, Syy = o["W"]
    B = np.array(o["B"])
    z = t[2]
    back = lambda p: rot.T @ (np.array(p) - np.array([0., 0., z]))
    b0 = back(B)
    G0 = np.array([float(x) for x in cog]) if cog else np.array([b0[0], b0[1], float(zg)])
    G = rot @ G0 + np.array([0., 0., z])
    a = G[2] - B[2]
    Axx, Ayy, Axy = Sxx - 2 * B[0] * Sx + B[0] ** 2 * A, Syy - 2 * B[1] * Sy + B[1] ** 2 * A, Sxy - B[0] * Sy - B[1] * Sx + B[0] * B[1] * A
    Ax, Ay = Sx - B[0] * A, Sy - B[1] * A
    v = o["vol"]
    rt, rl = Ayy / v, Axx / v
    rg = rho * grav
    mass = rho * v
    lwl = o["on"][1] - o["on"][0]
    lpp = float(h("-lpp")) if "-lpp" in hs else o["on"][1] if "-ap" in hs else lwl
    J = np.array(c19.Body(mass, B, (rho * np.array(o["J"])).tolist(), [0., 0., 0.]).at(G.tolist()))
    bx = o["box"][3] - o["box"][2]
    two = "" if "-lpp" in hs or "-ap" in hs else "[2] "
    heel, trim = math.degrees(math.atan2(rot[2, 1], rot[2, 2])), math.degrees(math.asin(max(-1., min(1., -rot[2, 0]))))
    cv, ca = n * L ** 4 / v, n * L ** 3 / A
    std = lambda x: ([x ** 2 * mass], 4 * n * rho * L ** 3 * x * x + 2 * abs(x) * mass * n * L)
    sq = lambda x: ([math.sqrt(max(0., x) / mass)], n * L ** 5 / v / max(1e-9, 2 * math.sqrt(max(0., x) / mass)) + n * L ** 5 / v ** 2 * math.sqrt(max(0., x) / mass))
    want = {"Z CORRECTION (M)": [([z], n * L)], "HEEL CORRECTION (DEG)": [([heel], 60 * n)], "TRIM CORRECTION (DEG)": [([trim], 60 * n)],
            "GRAVITY ACCELERATION (M/S**2)": [([grav], 0)], "DENSITY OF WATER (KG/M**3)": [([rho], 0)],
            "WATERPLANE AREA (M**2)": [([A], n * L ** 2)], "WATERPLANE CENTER (M)": [(back([Sx / A, Sy / A, 0.]), ca)],
            "WETTED SURFACE AREA (M**2)": [([o["area"]], n * L ** 2 * len(Q))], "DISPLACEMENT VOLUME (M**3)": [([v], n * L ** 3)],
            "DISPLACEMENT MASS (TONS)": [([mass / 1000.], rho * 1e-3 * n * L ** 3)], "BUOYANCY CENTER (M)": [(b0, cv)],
            "CENTER OF GRAVITY (M)": [(G0, cv)], "DRAFT (M)": [([abs(o["box"][4])], n * L)],
            "LENGTH OVERALL SUBMERGED (M)": [([o["box"][1] - o["box"][0]], n * L)], "BREADTH OVERALL SUBMERGED (M)": [([bx], n * L)],
            "LENGTH AT WATERLINE LWL (M)": [([lwl], n * L)], "FORWARD PERPENDICULAR FP (M)": [([o["on"][1]], n * L)],
            two.upper() + "LENGTH BETWEEN PERPENDICULARS LPP (M)": [([lpp], n * L)],
            "TRANSVERSAL METACENTRIC RADIUS (M)": [([rt], cv)], "LONGITUDINAL METACENTRIC RADIUS (M)": [([rl], cv)],
            "TRANSVERSAL METACENTRIC HEIGHT GMT (M)": [([rt - a], cv)], "LONGITUDINAL METACENTRIC HEIGHT GML (M)": [([rl - a], cv)],
            "K33 (N/M)": [([rg * A], rg * n * L ** 2 + 1e-4)], "K34 (N)": [([rg * Ay], rg * n * (L ** 3 + A * L ** 4 / v) + 1e-4)], "K35 (N)": [([-rg * Ax], rg * n * (L ** 3 + A * L ** 4 / v) + 1e-4)],
            "K44 (N.M)": [([rg * v * (rt - a)], rg * n * L ** 4 + rg * v * cv + 1e-4)], "K45 (N.M)": [([-rg * Axy], rg * n * (L ** 4 + A * L ** 5 / v) + 1e-4)],
            "K55 (N.M)": [([rg * v * (rl - a)], rg * n * L ** 4 + rg * v * cv + 1e-4)],
            "RXX (M)": [([.3 * bx], n * L)], "RYY (M)": [([.25 * lpp], n * L)], "RZZ (M)": [([.25 * lpp], n * L)],
            "IXX": [std(.3 * bx), ([J[0, 0]], rho * n * L ** 5)], "IYY": [std(.25 * lpp), ([J[1, 1]], rho * n * L ** 5)], "IZZ": [std(.25 * lpp), ([J[2, 2]], rho * n * L ** 5)],
            "RXX": [sq(J[0, 0])], "RYY": [sq(J[1, 1])], "RZZ": [sq(J[2, 2])]}
    G_L = float(np.abs(G).max()) / L
    for k, w in want.items():
        if k not in r or len(r[k]) != len(w):
            bad("the hydrostatic report does not give %s as expected: %s" % (k, r.get(k)))
        for x, (y, s) in zip(r[k], w):
            if off(x, list(y), s * 4 * (1 + G_L) ** 2):
                bad("%s reported as %s instead of %s" % (k, x, [float("%.9g" % q) for q in y]))
    unstable = ["TRANSVERSALLY UNSTABLE" in body, "LONGITUDINALLY UNSTABLE" in body]
    for u, gm, k in zip(unstable, (rt - a, rl - a), ("transversal", "longitudinal")):
        if abs(gm) > 8 * cv * (1 + G_L) ** 2 and u != (gm < 0):
            bad("%s metacentric height %.6g reported as %s" % (k, gm, "unstable" if u else "stable"))
    if "-mdisp" not in hs and cog is not None:           # the displacement of the mesh as it was
        o = judge(P, eps)
        if o is not None and abs(mass - rho * o["vol"]) > 1.1e-6 * mass + rho * n * L ** 3 * 4:
            bad("the hull written displaces %.9g tons; it displaced %.9g before" % (mass / 1000., rho * o["vol"] / 1000.))
    if "-mdisp" in hs and not lim:
        disp = float(h("-mdisp"))
        if abs(mass / 1000. - disp) > 1.1e-6 * disp + rho * 1e-3 * n * L ** 3 * 4:
            bad("the hull written displaces %.9g tons instead of %.9g" % (mass / 1000., disp))


def shrink(sc):
    for k in ("ops", "opts"):
        for i in range(len(sc[k])):
            if sc[k][i][0] != "-p":
                yield dict(sc, **{k: sc[k][:i] + sc[k][i + 1:]})
    for k, n in (("-lpp", 2), ("-ap", 1), ("-wd", 2), ("-g", 2), ("-pn", 2)):
        if k in sc["hs"]:
            i = sc["hs"].index(k)
            yield dict(sc, hs=sc["hs"][:i] + sc["hs"][i + n:])
    if sc["plan"]:
        yield dict(sc, plan={})
    if sc["report"]:
        yield dict(sc, report=False)
    for k in ("fin", "fout"):
        if sc[k] != "nat":
            yield dict(sc, **{k: "nat"})
    if not sc["hs"]:
        for m in iolib.shrink_mesh(sc["mesh"]):
            yield dict(sc, mesh=m)
