"""C18: hydrostatics are repeatable, right for the immersed part, and leave their input unchanged (sessions with faults)."""
import copy
import math
import warnings

import numpy as np

from .. import formats, meshgen, meshsim as S, refmesh as R, shim, threads
from . import c08, c15, c17, c19

LEVEL = "exploration"
QUICK, THOROUGH = 1000, 100000
RULE = ("a scenario is one session over one to three hulls (closed, twin, ring-shaped, rotated, with holes, out of the water): hydrostatic properties at given "
        "positions, attitudes and options, displacement and three-degree equilibriums for reachable and unreachable displacements, transformations and clippings in "
        "between, results and arguments overwritten, two computations running as threads preempted at seeded switch points, calls interrupted or refused memory; "
        "every result is compared with the same call in a process that never did anything else and with a polygon clipping of our own; "
        "non-trivial when at least two computations were judged")
REAL = ["meshmagick.hydrostatics", "meshmagick.mesh_clipper, mesh, inertia, rotations below it", "real Python threads"]
STUB = ["interrupts are raised, and threads switched, only where the interpreter does so inside meshmagick code", "malloc called by numpy fails through LD_PRELOAD"]
ASSUMPTIONS = ["immersed volumes and waterplanes are judged on hulls with planar convex faces closed around the immersed part",
               "vertices within the vicinity tolerance of the free surface (1e-3) may count as lying on it"]
VIC = 1e-3
SCALAR = ["wet_surface_area", "disp_volume", "disp_mass", "waterplane_area"]
EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}


def warm():
    S.warm()
    import meshmagick.hydrostatics, meshmagick.inertia, meshmagick.rotations  # noqa: F401,E401
    warnings.simplefilter("ignore")
    assert shim.alloc_setup() == 0
    assert threads.instrument() > 200


# ------------------------------------------------------------------ generator
def ring(rng, n):
    """A closed annular prism (moonpool)."""
    V, F = [], []
    for r in (1.5, .6):
        for z in (-1., 1.):
            V += [[r * math.cos(2 * math.pi * i / n), r * math.sin(2 * math.pi * i / n), z] for i in range(n)]
    for i in range(n):
        j = (i + 1) % n
        F.append([i, j, n + j, n + i])                              # outside
        F.append([2 * n + i, 3 * n + i, 3 * n + j, 2 * n + j])      # inside
        F.append([n + i, n + j, 3 * n + j, 3 * n + i])              # top
        F.append([i, 2 * n + i, 2 * n + j, j])                      # bottom
    return V, F


def gen_hull(rng):
    k = rng.random()
    level = False
    if k < .15:
        V, F = ring(rng, rng.randint(3, 5))
    elif k > .86:                           # a row of edges on the waterline
        level = True
        n = rng.randint(4, 6)
        V, F = rng.choice([lambda: meshgen.hull(rng, n, 3), lambda: meshgen.prism(rng, n, 1., 2., 2), lambda: meshgen.box(rng, 2, 2, 2, 2)])()
        if rng.random() < .5:
            F = meshgen.split_some(rng, F, rng.choice([.3, 1.]))
    else:
        V, F = meshgen.closed(rng, True)
        if rng.random() < .3:
            V = meshgen.rotate(V, rng)
    if .15 < k < .27:                       # two bodies
        y = [v[1] for v in V]
        dy = max(y) - min(y) + rng.choice([.2, 1.])
        F = F + [[x + len(V) for x in f] for f in F]
        V = V + [[v[0], v[1] + dy, v[2] + rng.choice([0, 0, .05])] for v in V]
    s = rng.choice([1., 1., 1., 10., 40.])
    V = meshgen.affine(V, (s * rng.choice([1., 1., 3.]), s, s), [s * rng.choice([0., rng.uniform(-2, 2)]) for _ in range(3)])
    z = sorted(v[2] for v in V)
    f = z[0] + (z[-1] - z[0]) * rng.uniform(.1, .9)
    k = rng.random()
    if k < .12:
        f = rng.choice(z)
    elif k < .2:
        f = rng.choice([z[0] - .2, z[-1] + .2, z[0] - 1e-2, z[-1] + 1e-2])
    if level:
        rows = [x for x in z[1:-1] if z[0] + 1e-6 < x < z[-1] - 1e-6]
        f = rng.choice(rows) if rows else f
        V = [[v[0], v[1], f if abs(v[2] - f) < 1e-9 * s else v[2]] for v in V]
    V = [[float("%.9g" % x) for x in (v[0], v[1], v[2] - f)] for v in V]
    if rng.random() < .08:
        F = [x for x in F if rng.random() < .85] or F
        V, F = meshgen.compact(V, F)
    if rng.random() < .05:
        F = [x[::-1] for x in F]
    return [V, F]


def gen_call(rng):
    r = rng.random()
    st = {"m": rng.randrange(4), "cog": [S._g(rng, .3) for _ in range(3)], "rho": rng.choice([1025., 1000., 1., 1023.]), "g": rng.choice([9.81, 9.80665])}
    if r < .55:
        st.update(a="hydro", kw=rng.sample(["at_cog", "lpp", "orig", "z", "rot"], rng.choice([0, 1, 1, 2, 3])), x=[S._g(rng, .2) for _ in range(3)], z=S._g(rng, .3))
    elif r < .85:
        st.update(a="dispeq", f=rng.choice([rng.uniform(.05, .95), rng.uniform(.3, .7), rng.uniform(.3, .7), 1.2, 2., 0.]), reltol=rng.choice([None, 1e-4, 1e-8]), verbose=rng.random() < .2)
        if rng.random() < .3:
            st["near"] = rng.choice([0., 1., -1.]) * 10 ** -rng.uniform(1.5, 8)      # hardly anything else than the present displacement
    else:
        st.update(a="fulleq", f=rng.choice([rng.uniform(.2, .8), rng.uniform(.4, .6), 1.5]), reltol=rng.choice([None, 1e-4]), verbose=rng.random() < .2)
    return st


def gen(rng, i, tier):
    meshes = [gen_hull(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    steps = []
    for _ in range(rng.randint(2, 14 if tier == "thorough" else 7)):
        r = rng.random()
        if r < .66:
            st = gen_call(rng)
            if rng.random() < .3:
                st["fault"] = [rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "alloc"]), round(rng.random(), 5), rng.choice([1, 1, 3])]
        elif r < .74:
            calls = [gen_call(rng) for _ in range(2)]
            if rng.random() < .6:
                calls[1]["m"] = calls[0]["m"]
            st = {"a": "par", "calls": calls, "sched": threads.gen_segments(rng, 2)}
        elif r < .82:
            st = {"a": "mesh", "m": rng.randrange(4), "op": rng.choice([{"op": "translate_z", "t": S._g(rng, .2)}, {"op": "translate", "t": [rng.choice([0., S._g(rng, .5)]), S._g(rng, .5), rng.choice([0., S._g(rng, .2)])]},
                                                                        {"op": "rotate_z", "a": S._g(rng, 3.)}, {"op": "rotate_x", "a": S._g(rng, .4)},
                                                                        {"op": "scale", "s": rng.choice([.7, 1.5])}, {"op": "triangulate_quadrangles"},
                                                                        {"op": "merge_duplicates", "atol": None, "ri": False}])}
        elif r < .88:
            st = {"a": "clip", "m": rng.randrange(4), "c": S._g(rng, .2), "default": rng.random() < .5}
        elif r < .94:
            st = {"a": "scribble", "i": rng.random(), "only": "args" if rng.random() < .5 else ""}
        else:
            st = {"a": "query", "m": rng.randrange(4), "q": rng.sample([q for q in S.QUERIES if q not in ("str", "polydata")], 3), "k": rng.randrange(40)}
        steps.append(st)
    return {"meshes": meshes, "steps": steps}


# ------------------------------------------------------------------ one call
def perform(mesh, st, V, cog, rot):
    """The call itself on a given mesh; V: its vertices as numbers, for the target displacement."""
    from meshmagick import hydrostatics as H
    if st["a"] == "hydro":
        kw = {}
        for k in st["kw"]:
            kw.update({"at_cog": {"at_cog": True}, "lpp": {"lpp": 3.}, "orig": {"orig_at_ap": True}, "z": {"z_corr": st["z"]}, "rot": {"rotmat_corr": rot}}[k])
        return H.compute_hydrostatics(mesh, cog, st["rho"], st["g"], **kw)
    kw = {} if st["reltol"] is None else {"reltol": st["reltol"]}
    if st["verbose"]:
        kw["verbose"] = True
    if st["a"] == "dispeq":
        return H.displacement_equilibrium(mesh, st["target"], st["rho"], st["g"], **dict(kw, **({"cog": cog} if st["cog"][0] > 0 else {})))
    return H.full_equilibrium(mesh, cog, st["target"], st["rho"], st["g"], **kw)


def plain(v):
    if isinstance(v, dict):
        return {k: plain(v[k]) for k in v}
    if hasattr(v, "nb_faces"):
        return [np.array(v.vertices, dtype=float), np.array(v.faces, dtype=float)]
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, np.ndarray):
        return v.copy()
    return v


def alone(V, F, st):
    """In the process that does nothing else."""
    from meshmagick.mesh import Mesh
    with warnings.catch_warnings(record=True) as W:
        warnings.simplefilter("always")
        try:
            r = {"value": plain(perform(Mesh(V, F), st, V, np.array(st["cog"]), rotation(st)))}
        except Exception as e:
            r = {"raised": type(e).__name__}
        r["warned"] = [str(w.message) for w in W if issubclass(w.category, UserWarning)]
    return r


def rotation(st):
    return np.array(R.rotmat(*st["x"]), dtype=float) if st["a"] == "hydro" else None


def closed_body(P):
    """Closed, consistently oriented, outward."""
    m = R.merge(*c08.soup(P), 1e-9)
    if m is None or not R.closed(m[1]) or R.same_orientation_conflicts(m[1]) or any(len(e) != 2 for e in R.edges(m[1]).values()):
        return False
    V, F = c08.soup_tri(P)
    return R.volume(V, F) > 0


def target(V, F, st):
    if "near" in st:
        Q = [p for p in (c08.clip0(p) for p in formats.polys(V, F)) if len(p) > 2]
        Pv, Pf = c08.soup_tri(Q)
        return float("%.12g" % (abs(R.volume(Pv, Pf)) * st["rho"] * 1e-3 * (1 + st["near"]))) if Pf else 0.
    Pv, Pf = c08.soup_tri(formats.polys(V, F))
    return float("%.9g" % (abs(R.volume(Pv, Pf)) * st["rho"] * 1e-3 * st["f"])) if st["f"] else 0.


# ------------------------------------------------------------------ our own hydrostatics
def own(P):
    """Integrals of the immersed part, None when vertices are too near the free surface."""
    want = c17.clip_polys(P, [0., 0., 1.], 0., VIC)
    if want is None or c17.crowded(want):
        return None
    o = {"area": 0., "W": [0.] * 6, "polys": want}
    for p in want:
        for i in range(1, len(p) - 1):
            a, b, c = p[0], p[i], p[i + 1]
            cr = R.cross(R.sub(b, a), R.sub(c, a))
            o["area"] += R.norm(cr) / 2
            g = [(a[k] + b[k] + c[k]) / 3 for k in range(3)]
            q = lambda k, l: (sum(x[k] * x[l] for x in (a, b, c)) + 9 * g[k] * g[l]) / 12
            for n, f in enumerate((1., g[0], g[1], q(0, 1), q(0, 0), q(1, 1))):
                o["W"][n] -= f * cr[2] / 2
    Vt, Ft = c08.soup_tri(want)
    o["vol"] = R.volume(Vt, Ft) if Ft else 0.
    if o["vol"] <= 0:
        return None
    o["vol"], o["B"], o["J"] = R.solid_of(Vt, [[f[0], f[1], f[2], f[0]] for f in Ft])
    on = waterline(want)
    al = [v for p in want for v in p]
    o["on"] = [f(v[k] for v in on) for k in (0, 1) for f in (min, max)] if on else None
    o["box"] = [f(v[k] for v in al) for k in (0, 1, 2) for f in (min, max)]
    return o


def waterline(P):
    """Points of the edges lying on the free surface that belong to one immersed face only."""
    E = {}
    for p in P:
        for i in range(len(p)):
            if abs(p[i][2]) < 1e-9 and abs(p[i - 1][2]) < 1e-9:
                k = tuple(sorted((tuple(round(x, 7) + 0. for x in p[i]), tuple(round(x, 7) + 0. for x in p[i - 1]))))
                E.setdefault(k, []).append(p[i])
                E[k].append(p[i - 1])
    return [v for e in E.values() if len(e) == 2 for v in e]


def sound(V, F, st):
    """Whether the body is closed, sound and clear of the doubtful cases, so that its properties must be computed."""
    rot = rotation(st) if "rot" in st["kw"] else np.eye(3)
    W = V @ rot.T + np.array([0., 0., st["z"] if "z" in st["kw"] else 0.])
    P = formats.polys(W, F)
    if not c17.planar_convex(P) or not closed_body(P) or min(math.dist(p[i], p[i - 1]) for p in P for i in range(len(p))) < 1e-3:
        return False
    if not (W[:, 2] < -2 * VIC).any() or not (W[:, 2] > 2 * VIC).any():
        return False
    o = own(P)
    L = max(1e-2, float(np.abs(W).max()))
    return o is not None and o["on"] is not None and not c17.touching(o["polys"], [0., 0., 1.], 0.) and o["W"][0] > 1e-4 * L * L and o["vol"] > 1e-4 * L ** 3


def judge_properties(ctx, what, V, F, st, h):
    """Compare a dictionary of properties with our own clipping of the mesh in its corrected position."""
    rot = rotation(st) if "rot" in st["kw"] else np.eye(3)
    z = st["z"] if "z" in st["kw"] else 0.
    W = V @ rot.T + np.array([0., 0., z])
    P = formats.polys(W, F)
    bad = lambda t: ctx.fail("wrong-hydrostatics", "%s (%s): %s" % (what, {k: st[k] for k in ("kw", "x", "z", "rho", "cog")}, t))
    if max(W[:, 2]) < -2 * VIC or min(W[:, 2]) > 2 * VIC:
        bad("a result for a mesh that does not cross the free surface")
    if not c17.planar_convex(P) or not closed_body(P) or min(math.dist(p[i], p[i - 1]) for p in P for i in range(len(p))) < 1e-3:
        return
    o = own(P)
    if o is None or o["on"] is None or c17.touching(o["polys"], [0., 0., 1.], 0.):
        return
    ctx.stats["probe:properties-judged"] += 1
    L = max(1e-2, float(np.abs(W).max()))
    n = 1e-7
    rg, at = st["rho"] * st["g"], "at_cog" in st["kw"]
    B = np.array(o["B"])
    x0, y0 = (B[0], B[1]) if at else (0., 0.)
    A, Sx, Sy, Sxy, Sxx, Syy = o["W"]
    Ax, Ay, Axy = Sx - x0 * A, Sy - y0 * A, Sxy - x0 * Sy - y0 * Sx + x0 * y0 * A
    Axx, Ayy = Sxx - 2 * x0 * Sx + x0 * x0 * A, Syy - 2 * y0 * Sy + y0 * y0 * A
    if A < 1e-6 * L * L or o["vol"] < 1e-6 * L ** 3:
        return
    cog = rot @ np.array(st["cog"]) + np.array([0., 0., z])
    a = cog[2] - B[2]
    rt, rl = Ayy / o["vol"], Axx / o["vol"]
    K = rg * np.array([[A, Ay, -Ax], [Ay, o["vol"] * (rt - a), -Axy], [-Ax, -Axy, o["vol"] * (rl - a)]])
    back = lambda p: rot.T @ (np.array(p) - np.array([0., 0., z]))
    J = np.array(c19.Body(st["rho"] * o["vol"], B, (st["rho"] * np.array(o["J"])).tolist(), [0., 0., 0.]).at(cog.tolist()))
    want = {"wet_surface_area": (o["area"], L ** 2), "disp_volume": (o["vol"], L ** 3), "disp_mass": (st["rho"] * o["vol"], st["rho"] * L ** 3),
            "waterplane_area": (A, L * L), "buoyancy_center": (back(B), L ** 4 / o["vol"]), "waterplane_center": (back([Sx / A, Sy / A, 0.]), L ** 3 / A),
            "transversal_metacentric_radius": (rt, L ** 4 / o["vol"]), "longitudinal_metacentric_radius": (rl, L ** 4 / o["vol"]),
            "transversal_metacentric_height": (rt - a, L ** 4 / o["vol"]), "longitudinal_metacentric_height": (rl - a, L ** 4 / o["vol"]),
            "stiffness_matrix": (K, rg * L ** 4 + rg * L ** 2 + 1e-4 / n * 1.001), "cog": (np.array(st["cog"]), L), "z_eq": (z, L), "rotmat_eq": (rot, 1.),
            "length_at_waterline": (o["on"][1] - o["on"][0], L), "breadth_at_waterline": (o["on"][3] - o["on"][2], L),
            "breadth": (o["on"][3] - o["on"][2], L), "length_overall_submerged": (o["box"][1] - o["box"][0], L),
            "breadth_overall_submerged": (o["box"][3] - o["box"][2], L), "draught": (abs(o["box"][4]), L), "forward_perpendicular": (o["on"][1], L),
            "Ixx": (J[0, 0], st["rho"] * L ** 5), "Iyy": (J[1, 1], st["rho"] * L ** 5), "Izz": (J[2, 2], st["rho"] * L ** 5),
            "Ixy": (-J[0, 1], st["rho"] * L ** 5), "Ixz": (-J[0, 2], st["rho"] * L ** 5), "Iyz": (-J[1, 2], st["rho"] * L ** 5),
            "rho_water": (st["rho"], 1.), "grav": (st["g"], 1.)}
    extra = 3e-5 if c17.crowded(P) else 0.
    for k, (v, s) in want.items():
        if np.abs(np.asarray(h[k]) - v).max() > (n + extra) * s:
            bad("%s is %s instead of %s" % (k, np.asarray(h[k]).tolist(), np.asarray(v).tolist()))
    lpp = 3. if "lpp" in st["kw"] else o["on"][1] if "orig" in st["kw"] else o["on"][1] - o["on"][0]
    if abs(h["length_between_perpendiculars"] - lpp) > n * L:
        bad("length between perpendiculars %r instead of %r" % (h["length_between_perpendiculars"], lpp))


def judge_equilibrium(ctx, what, V, F, st, r, warned):
    rot, z = (np.eye(3), r) if st["a"] == "dispeq" else (np.array(r[1]), r[0])
    bad = lambda t: ctx.fail("no-equilibrium", "%s (%s): %s" % (what, {k: st[k] for k in ("target", "rho", "cog", "reltol")}, t))
    if warned:
        return
    if np.abs(rot @ rot.T - np.eye(3)).max() > 1e-9 or np.linalg.det(rot) < 0:
        bad("the attitude %s is not a rotation" % rot.tolist())
    W = V @ rot.T + np.array([0., 0., z])
    P = formats.polys(W, F)
    if not c17.planar_convex(P) or not closed_body(P):
        return
    ctx.stats["probe:equilibrium-judged"] += 1
    Q = [p for p in (c08.clip0(p) for p in P) if len(p) > 2]
    Vt, Ft = c08.soup_tri(Q)
    vol = R.volume(Vt, Ft) if Ft else 0.
    area = sum(R.area(W.tolist(), f) for f in F.tolist())
    slack = 3 * VIC * area if (np.abs(W[:, 2]) < 2 * VIC).any() or c17.crowded(Q) else 1e-9 * area * max(1., float(np.abs(W).max()))
    tol = st["reltol"] or 1e-6
    d = st["target"] * 1e3
    if abs(vol * st["rho"] - d) > 1.001 * tol * d + slack * st["rho"]:
        bad("the displacement there is %.9g kg instead of %.9g" % (vol * st["rho"], d))
    if st["a"] == "fulleq" and Ft:
        _, B, _ = R.solid_of(Vt, [[f[0], f[1], f[2], f[0]] for f in Ft])
        G = rot @ np.array(st["cog"]) + np.array([0., 0., z])
        L = max(W[:, 0].max() - W[:, 0].min(), W[:, 1].max() - W[:, 1].min())
        s = max(1., float(np.abs(W).max()))
        for k in (0, 1):
            if abs(vol * st["rho"] * B[k] - d * G[k]) > 1.001 * tol * d * L + 3 * s * slack * st["rho"]:
                bad("the buoyancy centre %s is not above the centre of gravity %s" % (B, G.tolist()))


# ------------------------------------------------------------------ session
def freeze(m):
    return (m.vertices.tobytes(), m.faces.tobytes(), m.vertices.shape, m.faces.shape, m.name)


def run(sc, ctx):
    P = c17.Pristine(alone)
    try:
        session(sc, ctx, P)
    finally:
        P.stop()


def session(sc, ctx, P):
    from meshmagick.mesh import Mesh, Plane
    from meshmagick.mesh_clipper import MeshClipper
    meshes = [Mesh(np.array(V), np.array(F), name="m%d" % k) for k, (V, F) in enumerate(sc["meshes"])]
    frozen = [freeze(m) for m in meshes]
    given = []                       # arrays this session holds: results and past arguments
    judged = [0]
    L = shim.lib()

    def prepare(st):
        k = st["m"] % len(meshes)
        V, F = np.array(meshes[k].vertices, dtype=float), np.array(meshes[k].faces).astype(int)
        st = dict(st)
        if "f" in st:
            st["target"] = target(V, F, st)
        return k, V, F, st

    def faulted(fault, fn, dry):
        kind, x, length = fault
        if kind == "alloc":
            L.fs_alloc_plan(1, 1024, -1, 0)
            try:
                dry()
            except Exception:
                pass
            L.fs_alloc_off()
            n = L.fs_alloc_count()
            if n:
                L.fs_alloc_plan(1, 1024, int(x * n), length)
            try:
                return fn()
            finally:
                L.fs_alloc_off()
        with threads.Count() as C:
            try:
                dry()
            except Exception:
                pass
        left = [1 + int(x * C.n)]

        def hook(code, off):
            left[0] -= 1
            if left[0] == 0:
                threads.watch(None)
                ctx.log("hit", code.co_name)
                raise EXC[kind]()
        threads.watch(hook)
        try:
            return fn()
        finally:
            threads.watch(None)

    def settle(what, st, V, F, out, faulty):
        """Judge what a call came to: ('ok', value) or ('raised', exception)."""
        ref = P.ask(V, F, st)
        kind, v = out
        if "error" in ref:
            ctx.fail("pristine", "%s: the reference process failed: %s" % (what, ref["error"]))
        if kind == "raised":
            if not faulty and ref.get("raised") != type(v).__name__:
                ctx.fail("not-repeatable", "%s raised %s (%s); alone it %s" % (what, type(v).__name__, v, "raises " + ref["raised"] if "raised" in ref else "succeeds"))
            if not faulty and st["a"] == "hydro" and sound(V, F, st):
                ctx.fail("refused", "%s (%s) raised %s (%s) for a closed body that floats" % (what, {k: st[k] for k in ("kw", "x", "z", "rho", "cog")}, type(v).__name__, v))
            ctx.cover.add(st["a"] + ":raised " + type(v).__name__)
            return
        got = plain(v)
        if "raised" in ref:
            ctx.fail("not-repeatable", "%s returned a result; alone it raises %s" % (what, ref["raised"]))
        s = max(1e-3, float(np.abs(V).max()))
        a, b = ([sorted(x.items())] if isinstance(x, dict) else [x] for x in (got, ref["value"]))
        a, b = c15.plain(a), c15.plain(b)
        if not c15.same(a, b, s):
            ctx.fail("not-repeatable", "%s: %s" % (what, diff(got, ref["value"], s)))
        judged[0] += 1
        if st["a"] == "hydro":
            if not np.array_equal(got["mesh"][0], V) or not np.array_equal(got["mesh"][1], F):
                ctx.fail("wrong-mesh", "%s: the mesh of the result is not the mesh given" % what)
            judge_properties(ctx, what, V, F, st, got)
        else:
            judge_equilibrium(ctx, what, V, F, st, v, ref["warned"])
        ctx.cover.add("%s:%s" % (st["a"], ",".join(sorted(st.get("kw", [])))))

    def keep(v):
        if isinstance(v, dict):
            for x in v.values():
                keep(x)
        elif isinstance(v, (list, tuple)):
            for x in v:
                keep(x)
        elif isinstance(v, np.ndarray):
            given.append(v)
        elif hasattr(v, "nb_faces"):
            given.append(v.vertices)

    results, passed = [], []
    for n, st in enumerate(sc["steps"]):
        a, what = st["a"], "step %d (%s)" % (n, st["a"])
        changed = None
        ctx.stats["probe:step-" + a] += 1
        if a in ("hydro", "dispeq", "fulleq"):
            k, V, F, st = prepare(st)
            cog, rot = np.array(st["cog"]), rotation(st)
            args = [(cog, cog.copy())] + ([(rot, rot.copy())] if rot is not None else [])
            fn = lambda: perform(meshes[k], st, V, cog, rot)
            f = st.get("fault")
            hit = False
            try:
                if f:
                    dry = lambda: perform(Mesh(V, F), st, V, np.array(st["cog"]), rotation(st))
                    out = "ok", faulted(f, fn, dry)
                else:
                    out = "ok", fn()
            except (Exception, KeyboardInterrupt) as e:
                e.__traceback__ = None
                out = "raised", e
                if f and isinstance(e, (MemoryError, KeyboardInterrupt)):
                    hit = True
                    ctx.stats["fault:" + f[0]] += 1
            for x, y in args:
                if x.tobytes() != y.tobytes():
                    ctx.fail("argument-changed", "%s changed the array passed in from %s to %s" % (what, y.tolist(), x.tolist()))
            settle(what, st, V, F, out, hit)
            if out[0] == "ok":
                keep(out[1])
                if st["a"] == "hydro" and sum(st["x"]) > 0:
                    report(ctx, what, out[1], s=st)
                results.append((what, out[1], copy.deepcopy(plain(out[1]))))
            given.extend(x for x, y in args)
            passed.extend(x for x, y in args)
            ctx.log(n, a, out[0], "%.9g" % (out[1]["disp_volume"] if a == "hydro" else out[1] if a == "dispeq" else out[1][0]) if out[0] == "ok" else type(out[1]).__name__)
        elif a == "par":
            jobs = [prepare(c) for c in st["calls"]]
            work = []
            for k, V, F, c in jobs:
                with threads.Count() as C:
                    try:
                        perform(Mesh(V, F), c, V, np.array(c["cog"]), rotation(c))
                    except Exception:
                        pass
                work.append(C.n)
            thunks = [lambda k=k, V=V, c=c: perform(meshes[k], c, V, np.array(c["cog"]), rotation(c)) for k, V, F, c in jobs]
            B = threads.Baton(thunks, threads.resolve(st["sched"], work))
            try:
                res = B.run()
            except threads.Stuck as e:
                ctx.fail("deadlock", str(e))
            ctx.stats["fault:preemption"] += B.mid
            for (k, V, F, c), out in zip(jobs, res):
                if out[0] == "raised" and not isinstance(out[1], Exception):
                    raise out[1]
                settle("%s, %s beside %s" % (what, c["a"], [x["a"] for x in st["calls"]]), c, V, F, out, False)
                if out[0] == "ok":
                    keep(out[1])
            ctx.log(n, a, B.points, B.switches)
        elif a == "mesh":
            k = st["m"] % len(meshes)
            S.do(meshes[k], st["op"])
            changed = k
            ctx.log(n, a, st["op"]["op"])
        elif a == "clip":
            m = meshes[st["m"] % len(meshes)]
            try:
                c = MeshClipper(m) if st["default"] else MeshClipper(m, plane=Plane([0., 0., 1.], st["c"]))
                keep(c.clipped_mesh)
                if st["default"]:
                    c.plane.c = st["c"]
            except (Exception, KeyboardInterrupt) as e:
                ctx.log(type(e).__name__)
        elif a == "query":
            m = meshes[st["m"] % len(meshes)]
            w = S.check_queries(m, st["q"], st["k"], independent=False)
            if w:
                ctx.fail("mesh-changed", "after %s: %s of mesh %d: %s" % (sc["steps"][n - 1]["a"] if n else "nothing", w[0], st["m"] % len(meshes), w[1]))
        elif a == "scribble":
            if st.get("only") == "args":              # the caller goes on using the arrays passed in
                g = list(passed)
            else:
                g, given[:], results[:] = list(given), [], []
            for x in (g if st["i"] < .6 else g[-1:]):
                if x.flags.writeable and x.size:
                    x[...] = 7
        else:
            raise KeyError(a)
        for w, v, before in results:
            if not c15.same(c15.plain([before]), c15.plain([plain(v)]), 0.):
                ctx.fail("result-changed", "%s changed what %s had returned: %s" % (what, w, diff(plain(v), before, 0.)))
        for k, m in enumerate(meshes):
            if k == changed:
                frozen[k] = freeze(m)
            elif freeze(m) != frozen[k]:
                ctx.fail("mesh-changed", "%s changed mesh %d" % (what, k))
    for k, m in enumerate(meshes):
        w = S.check_queries(m, ["faces_areas", "faces_normals", "faces_centers", "volume", "axis_aligned_bbox"], 0, independent=False)
        if w:
            ctx.fail("mesh-changed", "at the end: %s of mesh %d: %s" % (w[0], k, w[1]))
    ctx.nontrivial = judged[0] > 1


def diff(a, b, s):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b or not c15.same(c15.plain([a[k]]), c15.plain([b[k]]), s):
                return "%s is %s; alone it is %s" % (k, str(a.get(k))[:200], str(b.get(k))[:200])
    return "%s instead of %s" % (str(a)[:300], str(b)[:300])


def report(ctx, what, h, s):
    """The report says what the dictionary says, and leaves it unchanged."""
    from meshmagick.hydrostatics import get_hydrostatic_report
    before = copy.deepcopy(plain(h))
    if not (h["disp_mass"] > 0 and min(h["Ixx"], h["Iyy"], h["Izz"]) > 0):
        return
    t = get_hydrostatic_report(h)
    if not c15.same(c15.plain([before]), c15.plain([plain(h)]), 0.):
        ctx.fail("report-changed", "%s: writing the report changed the properties" % what)
    for k, label, f in (("waterplane_area", "WATERPLANE AREA (M**2)", "%.1f"), ("disp_volume", "DISPLACEMENT VOLUME (M**3)", "%.3f"), ("wet_surface_area", "WETTED SURFACE AREA (M**2)", "%.1f")):
        l = [x for x in t.split("\n") if label in x]
        if len(l) != 1 or l[0].split(">")[-1].strip() != f % h[k]:
            ctx.fail("wrong-report", "%s: the report says %s for %s = %r" % (what, l, k, h[k]))
    ctx.stats["probe:report"] += 1


def shrink(sc):
    T = sc["steps"]
    k = max(1, len(T) // 2)
    while T:
        for i in range(0, len(T), k):
            yield dict(sc, steps=T[:i] + T[i + k:])
        if k == 1:
            break
        k //= 2
    for i, x in enumerate(T):
        if x.get("fault"):
            yield dict(sc, steps=T[:i] + [{a: b for a, b in x.items() if a != "fault"}] + T[i + 1:])
        if x["a"] == "par":
            for c in x["calls"]:
                yield dict(sc, steps=T[:i] + [c] + T[i + 1:])
            for s in threads.shrink_segments(x["sched"]):
                yield dict(sc, steps=T[:i] + [dict(x, sched=s)] + T[i + 1:])
        for q in x.get("kw") or []:
            yield dict(sc, steps=T[:i] + [dict(x, kw=[y for y in x["kw"] if y != q])] + T[i + 1:])
    from .. import iolib
    for i, m in enumerate(sc["meshes"]):
        if len(sc["meshes"]) > 1:
            yield dict(sc, meshes=sc["meshes"][:i] + sc["meshes"][i + 1:])
        for w in iolib.shrink_mesh(m):
            yield dict(sc, meshes=sc["meshes"][:i] + [w] + sc["meshes"][i + 1:])
