"""C17: a clipper always reports results for its current mesh, plane and tolerance (sessions with faults)."""
import copy
import math
import os
import pickle
import struct

import numpy as np

from .. import core, formats, meshgen, meshsim as S, refmesh as R, shim
from . import c08, c15

LEVEL = "exploration"
QUICK, THOROUGH = 1500, 120000
RULE = ("a scenario is one session over one to three clippers sharing meshes and planes: planes and tolerances set (new objects, the same object after "
        "it was modified, unusable values, planes the mesh does not cross), the source mesh modified and the plane set again, flags toggled, results "
        "read in any order, settings interrupted at a chosen signal-delivery point or refused memory; every result is compared with a clipper built "
        "in a process that never did anything else and with a polygon clipping of our own; non-trivial when a clipper answered after a reconfiguration")
REAL = ["meshmagick.mesh_clipper.MeshClipper", "meshmagick.mesh.Mesh and Plane"]
STUB = ["interrupts are raised by an opcode trace function, only where the interpreter polls for signals",
        "malloc called by numpy fails through LD_PRELOAD (array data of 1 kB and more)"]
ASSUMPTIONS = ["a plane or mesh modified in place counts once the clipper is told (plane or tolerance set again)",
               "areas and curves are judged on planar faces whose vertices are on the plane or away from it by several tolerances",
               "meshes returned by a clipper are not modified between two readings of the same setting"]
MESHES = ["lower_mesh", "upper_mesh", "crown_mesh", "clipped_crown_mesh", "clipped_mesh"]
READS = MESHES + ["closed_polygons", "closed_polygons_vertices", "nb_closed_polygons", "open_lines", "open_lines_vertices", "nb_open_lines"]


def warm():
    S.warm()
    import meshmagick.mesh_clipper  # noqa: F401
    assert shim.alloc_setup() == 0


def gen_plane(rng, V):
    """A plane that crosses the mesh, most of the time well away from the vertices or exactly through some."""
    k = rng.random()
    if min(abs(v[2]) for v in V) in (1e-3, 1e-6, 1e-4, 1e-2, 0.) and rng.random() < .5:
        return [[0., 0., rng.choice([1., -1.])], 0.]
    if k < .4:
        n = rng.choice([[0., 0., 1.], [0., 0., -1.], [0., 1., 0.], [1., 0., 0.], [-1., 0., 0.]])
    else:
        n = [round(rng.uniform(-1, 1), 3), round(rng.uniform(-1, 1), 3), round(rng.uniform(.05, 1), 3)]
    u = R.unit(n)
    d = sorted(R.dot(v, u) for v in V)
    k = rng.random()
    if k < .72:
        c = d[0] + (d[-1] - d[0]) * rng.uniform(.05, .95)
        gaps = [(b - a, (a + b) / 2) for a, b in zip(d, d[1:])]
        if rng.random() < .6 and gaps:
            good = [g for g in gaps if g[0] > .01 * (d[-1] - d[0])]
            if good:
                c = max(good)[1] if rng.random() < .15 else rng.choice(good)[1]
        c = round(c, 9)
    elif k < .85:
        c = rng.choice(d)                     # through a vertex
    elif k < .95:
        c = rng.choice([d[0] - 1, d[-1] + 1, d[0] - .01, d[-1] + .01])
    else:
        c = rng.choice(d) + rng.choice([-1, 1]) * rng.choice([5e-4, 9.3e-4, 1.07e-3, 2e-3])
    return [n, float(c)]


def gen(rng, i, tier):
    meshes = []
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.random()
        if k < .6:
            V, F = c15.hull(rng)
            if rng.random() < .25:            # warped panels
                h = rng.choice([.02, .1, .3])
                V = [[float("%.9g" % (x + rng.uniform(-h, h))) for x in v] for v in V]
        elif k < .8:
            V, F = meshgen.closed(rng, True)
            keep = rng.uniform(.5, 1)
            F = [f for f in F if rng.random() < keep] or F
            V, F = meshgen.compact(V, F)
        else:
            V, F = S.gen_mesh(rng, .8)
        meshes.append([V, F])
    if rng.random() < .2:                     # bodies apart
        V, F = rng.choice(meshes)
        W, G = c15.hull(rng)
        ax = rng.randrange(3)
        d = max(v[ax] for v in V) - min(v[ax] for v in W) + rng.choice([0, .01, .5, 2])
        W = [[float("%.9g" % (x + (d if k == ax else 0))) for k, x in enumerate(v)] for v in W]
        meshes.append([V + W, F + [[k + len(V) for k in f] for f in G]])
    big = rng.random() < .12
    if big:
        V, F = meshgen.hull(rng, rng.randint(9, 14), rng.randint(4, 6))
        z = sorted(v[2] for v in V)
        f = z[0] + (z[-1] - z[0]) * rng.uniform(.2, .8)
        meshes = [[[[float("%.9g" % x) for x in (v[0], v[1], v[2] - f)] for v in V], F]]
    if not big and rng.random() < .12:          # vertices at the tolerance from the plane z = 0, to the last bit
        for V, F in meshes:
            for v in V:
                if rng.random() < .4:
                    v[2] = rng.choice([-1, 1]) * rng.choice([0., 1e-3, 1e-3, 1e-6, 1e-4, 1e-2])
    steps = [{"a": "new", "m": rng.randrange(len(meshes)), "p": None, "pl": None, "tol": 1e-3, "flags": [False, False]}]
    for _ in range(rng.randint(3, 24 if tier == "thorough" else 13)):
        r = rng.random()
        st = {"c": rng.randrange(6), "m": rng.randrange(4)}
        V = meshes[st["m"] % len(meshes)][0]
        fault = None
        if rng.random() < (.6 if big else .3):
            fault = {"kind": rng.choice(["intr", "intr", "memerr", "alloc"]) if not big else rng.choice(["alloc", "alloc", "intr"]), "x": rng.random(), "len": rng.choice([1, 1, 3])}
        if r < .12:
            st.update(a="new", p=gen_plane(rng, V) if rng.random() < .85 else None, pl=rng.randrange(4) if rng.random() < .3 else None,
                      tol=rng.choice([1e-3, 1e-3, 1e-6, 1e-2]), flags=[rng.random() < .1, rng.random() < .1], fault=fault)
        elif r < .42:
            st.update(a="plane", p=gen_plane(rng, V), fault=fault)
        elif r < .50:
            st.update(a="share", pl=rng.randrange(6), fault=fault)
        elif r < .62:
            st.update(a="replane", how=rng.choice(["c", "c", "normal", "flip", "rotate"]), p=gen_plane(rng, V), via=rng.choice(["plane", "plane", "tol"]), fault=fault)
        elif r < .72:
            st.update(a="tol", tol=rng.choice([1e-3, 1e-6, 1e-4, 1e-2, 1e-3]), fault=fault)
        elif r < .77:
            st.update(a="bad", what=rng.choice(["tol-text", "tol-none", "tol-list", "plane-none", "plane-text", "plane-array"]))
        elif r < .85:
            st.update(a="mesh", how=rng.choice(["translate", "scale", "flip", "vertices", "tq", "rotate", "merge"]), t=[rng.choice([0., round(rng.uniform(-.2, .2), 3), round(rng.uniform(-.2, .2), 3)]) for _ in range(3)],
                      s=rng.choice([.5, 2., 1.3]), via=rng.choice(["plane", "tol"]), fault=fault)
        elif r < .88:
            st.update(a="flag", f=rng.choice(["verbose_on", "verbose_off", "assert_closed_boundaries_on", "assert_closed_boundaries_off"]))
        elif r < .93:
            st.update(a="scribble", w=rng.choice(MESHES + ["closed_polygons", "open_lines"]), fault=None)
        else:
            st.update(a="drop")
        st["q"] = rng.sample(READS, rng.randint(1, 6))
        st["flip"] = rng.random() < .25
        st["qi"] = [rng.choice(READS), rng.randint(1, rng.choice([4, 20]))] if rng.random() < .2 else None     # an interrupted reading
        steps.append(st)
    return {"meshes": meshes, "steps": steps}


# ------------------------------------------------------------------ a clipper built in a process that did nothing else
class Pristine:
    def __init__(self, fn=None):
        fn = fn or build
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                while True:
                    n = os.read(r1, 4)
                    if len(n) < 4:
                        break
                    n = struct.unpack("I", n)[0]
                    b = b""
                    while len(b) < n:
                        b += os.read(r1, n - len(b))
                    q = os.fork()
                    if q == 0:
                        try:
                            out = pickle.dumps(fn(*pickle.loads(b)))
                        except BaseException as e:
                            out = pickle.dumps({"error": "%s: %s" % (type(e).__name__, e)})
                        out = struct.pack("I", len(out)) + out
                        while out:
                            out = out[os.write(w2, out):]
                        os._exit(0)
                    os.waitpid(q, 0)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2
        self.memo = {}

    def ask(self, *req):
        b = pickle.dumps(req)
        if b in self.memo:
            return self.memo[b]
        d = struct.pack("I", len(b)) + b
        while d:
            d = d[os.write(self.w, d):]
        n = struct.unpack("I", os.read(self.r, 4))[0]
        o = b""
        while len(o) < n:
            o += os.read(self.r, n - len(o))
        self.memo[b] = pickle.loads(o)
        return self.memo[b]

    def stop(self):
        os.close(self.w)
        os.close(self.r)
        os.waitpid(self.pid, 0)


def read(c, names):
    out = {}
    for q in names:
        v = getattr(c, q)
        if q in MESHES:
            v = [np.array(v.vertices, dtype=float), np.array(v.faces).astype(int)]
        elif isinstance(v, list):
            v = [np.array(x, dtype=float) if q.endswith("vertices") else [int(k) for k in x] for x in v]
        out[q] = v
    return out


def build(V, F, plane, c, tol):
    from meshmagick.mesh import Mesh, Plane
    from meshmagick.mesh_clipper import MeshClipper
    if isinstance(plane, np.ndarray):
        plane = Plane(plane, c)
    return read(MeshClipper(Mesh(V, F), plane, tol), READS)


class Conf(tuple):
    """(vertices, faces, normal, scalar, tolerance) with the plane itself, bit for bit."""
    plane = None

    def ask(self, P):
        return P.ask(self[0], self[1], self.plane, self[3], self[4])


def configuration(m, plane, tol):
    c = Conf((np.array(m.vertices, dtype=float), np.array(m.faces).astype(int), np.array(plane.normal, dtype=float), float(plane.c), float(tol)))
    c.plane = copy.deepcopy(plane)
    return c


def differs(q, a, b, s):
    if q in MESHES:
        if a[1].shape != b[1].shape or not np.array_equal(a[1].reshape(-1), b[1].reshape(-1)):
            return "%d faces instead of %d" % (len(a[1]), len(b[1])) if len(a[1]) != len(b[1]) else "other faces"
        if a[0].shape != b[0].shape:
            return "%d vertices instead of %d" % (len(a[0]), len(b[0]))
        if a[0].size and not np.allclose(a[0], b[0], rtol=0, atol=1e-9 * s):
            return "other vertices"
        return None
    if q.endswith("vertices"):
        return None if len(a) == len(b) and all(x.shape == y.shape and np.allclose(x, y, rtol=0, atol=1e-9 * s) for x, y in zip(a, b)) else "other coordinates"
    return None if a == b else "%s instead of %s" % (str(a)[:80], str(b)[:80])


# ------------------------------------------------------------------ our own geometry
def clip_polys(P, n, c, tol):
    """The part of the polygons under the plane, or None when vertices lie neither on the plane nor clear of it."""
    out = []
    for p in P:
        d = [R.dot(v, n) - c for v in p]
        if any(1e-9 < abs(x) < 4 * tol + 1e-4 for x in d):
            return None
        d = [0. if abs(x) <= 1e-9 else x for x in d]
        if max(d) == min(d) == 0:
            return None
        if max(d) <= 0:
            out.append(p)
            continue
        if min(d) >= 0:
            continue
        q = []
        for i in range(len(p)):
            a, b, da, db = p[i - 1], p[i], d[i - 1], d[i]
            if da * db < 0:
                t = da / (da - db)
                q.append(tuple(a[k] + t * (b[k] - a[k]) for k in range(3)))
            if db <= 0:
                q.append(b)
        out.append(q)
    return out


def crowded(P):
    """Points that the clipper may merge although they differ."""
    X = np.array([v for p in P for v in p])
    if not len(X):
        return False
    D = np.abs(X[:, None, :] - X[None, :, :]).max(axis=2)
    return bool(((D > 1e-12) & (D < 5e-5)).any())


def touching(P, n, c):
    """Curves that touch themselves or each other in a vertex (the clipper knows one successor per vertex)."""
    E = set()
    for p in P:
        on = [abs(R.dot(v, n) - c) < 1e-7 for v in p]
        k = [tuple(round(x, 6) + 0. for x in v) for v in p]
        for i in range(len(p)):
            if on[i - 1] and on[i]:
                E.add((k[i - 1], k[i]))
    return len({a for a, b in E}) < len(E) or len({b for a, b in E}) < len(E)


def planar_convex(P):
    for p in P:
        A = [R.cross(R.sub(p[i], p[i - 1]), R.sub(p[(i + 1) % len(p)], p[i])) for i in range(len(p))]
        m = max(R.norm(a) for a in A)
        if m < 1e-10:
            return False
        ref = max(A, key=R.norm)
        for a in A:
            if R.norm(a) < 1e-9 * m:
                continue
            if R.dot(a, ref) < (1 - 1e-9) * R.norm(a) * R.norm(ref):
                return False
    return True


def raw(m):
    return sorted(tuple(m[0][f].ravel()) for f in m[1])


def partition(conf):
    """The faces entirely under, entirely above and on both sides of the plane, by plain arithmetic."""
    V, F, n, c, tol = conf
    d = V @ n - c
    out = {"lower_mesh": [], "upper_mesh": [], "crown_mesh": []}
    for f in F:
        x = d[f]
        if (np.abs(np.abs(x) - tol) < 1e-12).any():
            return None
        out["lower_mesh" if (x < -tol).all() else "upper_mesh" if (x > tol).all() else "crown_mesh"].append(tuple(V[f].ravel()))
    return {k: sorted(v) for k, v in out.items()}


def geometry(ctx, what, conf, res):
    """Judge complete results against our own geometry; returns a text or None."""
    V, F, n, c, tol = conf
    n = [float(x) for x in n]
    src = formats.polys(V, F)
    parts = partition(conf)
    for k in parts or ():
        if raw(res[k]) != parts[k]:
            return "%s has %d faces, and they are not the %d it should have" % (k, len(res[k][1]), len(parts[k]))
    if sorted(raw(res["lower_mesh"]) + raw(res["upper_mesh"]) + raw(res["crown_mesh"])) != sorted(tuple(V[f].ravel()) for f in F):
        return "lower, crown and upper mesh together are not the faces of the source mesh"
    for nm, sgn in (("lower_mesh", -1), ("upper_mesh", 1)):
        v, f = res[nm]
        if len(f) and (sgn * (v[f.ravel()] @ np.array(n) - c)).min() < -1e-9:
            return "%s has vertices on the other side of the plane" % nm
    v, f = res["clipped_mesh"]
    s = max(1., float(np.abs(V).max()))
    if len(f) and (v[f.ravel()] @ np.array(n) - c).max() > tol + 3e-5 + 1e-9 * s:
        return "clipped_mesh reaches %.3g above the plane" % (v[f.ravel()] @ np.array(n) - c).max()
    for nm in ("closed_polygons_vertices", "open_lines_vertices"):
        for p in res[nm]:
            if len(p) and np.abs(p @ np.array(n) - c).max() > tol + 3e-5 + 1e-9 * s:
                return "%s: a curve is %.3g away from the plane" % (nm, np.abs(p @ np.array(n) - c).max())
    if res["nb_closed_polygons"] != len(res["closed_polygons"]) or res["nb_open_lines"] != len(res["open_lines"]):
        return "the number of curves is not the number of curves"
    for p in res["closed_polygons"]:
        if len(p) < 2 or p[0] != p[-1]:
            return "a closed polygon is not closed: %s" % p
    if min(math.dist(p[i], p[i - 1]) for p in src for i in range(len(p))) < 1e-3 or any(len(set(p)) < len(p) for p in src):
        return None
    d = V @ np.array(n) - c
    if (((np.abs(d) > 1e-9) & (np.abs(d) < 4 * tol + 1e-4))).any():
        return None
    got = [p for p in formats.polys(v, f) if len(p) >= 3]
    B = c08.moments(got)
    L = sum(math.dist(p[i], p[i - 1]) for p in got for i in range(len(p))) + 1e-9
    t = 2e-8 * L + 1e-7 * max(B[0], 1e-6)        # merged neighbours may move by 1e-5
    # intersections closer than the merge tolerance of the clipper lose a sliver
    want = clip_polys(src, n, c, tol)
    short = want is None or crowded(want)
    if not short and planar_convex(src):
        ctx.stats["probe:area-judged"] += 1
        A = c08.moments(want)
        if abs(A[0] - B[0]) > t:
            return "the clipped mesh has area %.9g instead of %.9g" % (B[0], A[0])
        for k in range(1, 4):
            if abs(A[k] - B[k]) > t:
                return "the area vector of the clipped mesh differs: %s instead of %s" % (B[1:4], A[1:4])
        for k in range(4, 7):
            if abs(A[k] - B[k]) > t * s * 3:
                return "the first moments of the clipped mesh differ"
    # Stokes: on a closed surface the curves bound the clipped part (no open curve, opposite area vector)
    m = R.merge(*c08.soup(src), 1e-9)
    if not short and not touching(want, n, c) and m is not None and R.closed(m[1]) and not R.same_orientation_conflicts(m[1]) and all(len(e) == 2 for e in R.edges(m[1]).values()):
        ctx.stats["probe:curves-judged"] += 1
        if res["nb_open_lines"]:
            return "%d open curves on a closed mesh" % res["nb_open_lines"]
        T = np.zeros(3)
        for p in res["closed_polygons_vertices"]:
            o = p[0]
            for i in range(1, len(p) - 1):
                T += np.cross(p[i] - o, p[i + 1] - o) / 2
        Av = np.array(B[1:4])
        if np.linalg.norm(T + Av) > 1e-6 * max(B[0], 1e-6) + t:
            return "the closed curves enclose the area vector %s, the clipped part has %s" % (T, Av)
    return None


def run(sc, ctx):
    from meshmagick.mesh import Mesh, Plane
    from meshmagick.mesh_clipper import MeshClipper
    P = Pristine()
    try:
        session(sc, ctx, P, Mesh, Plane, MeshClipper)
    finally:
        P.stop()


class Cl:
    def __init__(self, c, mesh, cands, held=None):
        self.c, self.mesh, self.cands = c, mesh, cands
        self.fresh = False


def session(sc, ctx, P, Mesh, Plane, MeshClipper):
    meshes = [Mesh(np.array(V, dtype=float), np.array(F, dtype=int), name="m%d" % k) for k, (V, F) in enumerate(sc["meshes"])]
    geo = [c15_freeze(m) for m in meshes]
    planes = []
    cls = []
    held = []
    L = shim.lib()

    def conf(c):
        return configuration(c.source_mesh, c.plane, c.vicinity_tol)

    def attempt(fn, fault, dry):
        """Run fn under a fault; returns (result, outcome)."""
        res, out = None, ""
        try:
            if fault is None:
                res = fn()
            elif fault["kind"] in ("intr", "memerr"):
                with S.Interrupter() as I:
                    try:
                        dry()
                    except Exception:
                        pass
                at = 1 + int(fault["x"] * max(1, I.n))
                with S.Interrupter(at, KeyboardInterrupt if fault["kind"] == "intr" else MemoryError):
                    res = fn()
            else:
                L.fs_alloc_plan(1, 1024, -1, 0)
                try:
                    dry()
                except Exception:
                    pass
                L.fs_alloc_off()
                n = L.fs_alloc_count()
                if n:
                    L.fs_alloc_plan(1, 1024, int(fault["x"] * n), fault["len"])
                try:
                    res = fn()
                finally:
                    L.fs_alloc_off()
        except KeyboardInterrupt:
            out = "interrupted"
            ctx.stats["fault:interrupt"] += 1
        except MemoryError:
            out = "memory"
            ctx.stats["fault:" + ("allocation-failure" if fault and fault["kind"] == "alloc" else "memory-error")] += 1
        except Exception as e:
            out = "raised " + type(e).__name__
            ctx.stats["probe:raised"] += 1
        return res, out

    for n, st in enumerate(sc["steps"]):
        a = st["a"]
        fault = st.get("fault")
        what = "step %d (%s)" % (n, a)
        cl = cls[st.get("c", 0) % len(cls)] if cls else None
        mesh_changed = None
        if a == "new":
            m = meshes[st["m"] % len(meshes)]
            args = {}
            if st["pl"] is not None and planes:
                args["plane"] = planes[st["pl"] % len(planes)]
            elif st["p"] is not None:
                args["plane"] = Plane(np.array(st["p"][0], dtype=float), st["p"][1])
            if st["tol"] != 1e-3:
                args["vicinity_tol"] = st["tol"]
            if st["flags"][0]:
                args["assert_closed_boundaries"] = True
            if st["flags"][1]:
                args["verbose"] = True
            mk = lambda: MeshClipper(m, **args)
            dry = lambda: MeshClipper(Mesh(m.vertices.copy(), m.faces.copy()), **{k: copy.deepcopy(v) for k, v in args.items()})
            c, out = attempt(mk, fault, dry)
            if "plane" in args and not any(args["plane"] is p for p in planes):
                planes.append(args["plane"])
            ctx.log(n, "new", out)
            if c is None:
                ctx.cover.add("new:" + out)
                if not fault:
                    pl = args.get("plane") or Plane()
                    verdict(ctx, P, what, configuration(m, pl, st["tol"]), out, st["flags"][0])
                continue
            if len(cls) >= 3:
                cls.pop(0)
            cl = Cl(c, m, [conf(c)])
            cl.flag = bool(st["flags"][0])
            cls.append(cl)
            if not any(c.plane is p for p in planes):
                planes.append(c.plane)
            if "plane" in args and c.plane is not args["plane"]:
                ctx.fail("setting-lost", "%s: the clipper has another plane than the one given" % what)
            if c.vicinity_tol != st["tol"] or c.source_mesh is not m:
                ctx.fail("setting-lost", "%s: the clipper has another mesh or tolerance than given" % what)
        elif cl is None:
            continue
        elif a == "drop":
            if len(cls) > 1:
                cls.remove(cl)
            continue
        elif a == "flag":
            getattr(cl.c, st["f"])()
        elif a == "bad":
            v = {"tol-text": "wide", "tol-none": None, "tol-list": [1], "plane-none": None, "plane-text": "Oxy", "plane-array": np.array([0., 0., 1.])}[st["what"]]
            old = cl.cands
            try:
                setattr(cl.c, "vicinity_tol" if st["what"].startswith("tol") else "plane", v)
                ctx.fail("bad-value-accepted", "%s: %s accepted" % (what, st["what"]))
            except Exception:
                ctx.stats["fault:unusable-value"] += 1
            try:
                cl.cands = old + [conf(cl.c)]
            except Exception:
                cl.cands = old if cl.c.plane is planes else []      # no usable plane any more: no result may be given
        elif a == "scribble":
            # the caller uses what it got; afterwards the plane is set again
            try:
                v = getattr(cl.c, st["w"])
                if st["w"] in MESHES:
                    v.translate([1., 2., 3.])
                else:
                    v.append([0, 1, 2, 0])
            except Exception:
                continue
            held = [h for h in held if h[3] is not cl]
            cl.cands = []
            a, st = "plane-again", dict(st)
        if a in ("plane", "share", "replane", "tol", "mesh", "plane-again"):
            old = cl.cands
            users = [cl]
            if a == "plane":
                val, attr = Plane(np.array(st["p"][0], dtype=float), st["p"][1]), "plane"
                planes.append(val)
            elif a == "share":
                val, attr = planes[st["pl"] % len(planes)], "plane"
            elif a == "plane-again":
                val, attr = cl.c.plane, "plane"
            elif a == "tol":
                val, attr = st["tol"], "vicinity_tol"
            elif a == "replane":
                pl = cl.c.plane
                if not isinstance(pl, Plane):
                    continue
                users = [x for x in cls if x.c.plane is pl]
                if st["how"] == "c":
                    pl.c = st["p"][1]
                elif st["how"] == "normal":
                    pl.normal = st["p"][0]
                elif st["how"] == "flip":
                    pl.flip_normal()
                    pl.c = -pl.c
                else:
                    pl.rotate_normal(*[x / 3 for x in st["p"][0][:2]])
                val, attr = (pl, "plane") if st["via"] == "plane" else (cl.c.vicinity_tol, "vicinity_tol")
            else:
                m = cl.mesh
                users = [x for x in cls if x.mesh is m]
                try:
                    {"translate": lambda: m.translate(st["t"]), "scale": lambda: m.scale(st["s"]), "flip": lambda: m.flip_normals(),
                     "vertices": lambda: setattr(m, "vertices", m.vertices + np.array(st["t"])), "tq": lambda: m.triangulate_quadrangles(),
                     "rotate": lambda: m.rotate(st["t"]), "merge": lambda: m.merge_duplicates()}[st["how"]]()
                except Exception:
                    pass
                geo[meshes_index(meshes, m)] = c15_freeze(m)
                val, attr = (cl.c.plane, "plane") if st["via"] == "plane" else (cl.c.vicinity_tol, "vicinity_tol")
            for x in users:
                xold = x.cands
                v = (x.c.plane if attr == "plane" else x.c.vicinity_tol) if len(users) > 1 and x is not cl else val

                def dry(x=x, v=v):
                    c2 = Mesh(x.c.source_mesh.vertices.copy(), x.c.source_mesh.faces.copy())
                    MeshClipper(c2, copy.deepcopy(v if attr == "plane" else x.c.plane), v if attr != "plane" else x.c.vicinity_tol, False)
                asserted = x.c.assert_closed_boundaries
                before = (x.c.plane, x.c.vicinity_tol)
                _, out = attempt(lambda: setattr(x.c, attr, v), fault if x is cl else None, dry)
                ctx.cover.add(a + ":" + (out or "done"))
                ctx.log(n, a, attr, out)
                try:
                    now = conf(x.c)
                except Exception:
                    now = None
                if not out:
                    if (attr == "plane" and x.c.plane is not v) or (attr != "plane" and x.c.vicinity_tol != v):
                        ctx.fail("setting-lost", "%s: the value set is not the one the clipper has" % what)
                    if (attr == "plane" and x.c.vicinity_tol != before[1]) or (attr != "plane" and x.c.plane is not before[0]):
                        ctx.fail("setting-lost", "%s changed another setting" % what)
                    x.cands = [now]
                    x.flag = asserted
                    x.fresh = True
                else:
                    x.cands = xold + ([now] if now else [])
                    if x.c.plane is not before[0] or x.c.vicinity_tol != before[1]:
                        x.cands = [now] if now else []
                    x.flag = None
                    if not (fault and x is cl) and now:
                        verdict(ctx, P, what, now, out, asserted)
        # nothing changes the source meshes
        for k, m in enumerate(meshes):
            if c15_freeze(m) != geo[k]:
                ctx.fail("source-changed", "%s changed the source mesh" % what)
        for label, v, was, owner in held:
            if plain(v) != was:
                ctx.fail("kept-result-changed", "%s changed %s handed out before" % (what, label))
        # readings
        if st.get("qi") and cl in cls:
            try:
                with S.Interrupter(st["qi"][1]):
                    getattr(cl.c, st["qi"][0])
            except KeyboardInterrupt:
                ctx.stats["fault:interrupted-reading"] += 1
            except Exception:
                pass
        for x in ([cl] if len(cls) < 2 or n % 2 else cls):
            check(ctx, P, what, x, st.get("q", READS), held, n, st.get("flip"))


def meshes_index(meshes, m):
    return next(k for k, x in enumerate(meshes) if x is m)


def c15_freeze(m):
    return (m.vertices.tobytes(), m.faces.tobytes(), m.vertices.shape, m.faces.shape, m.name)


def plain(v):
    if hasattr(v, "nb_faces"):
        return (np.array(v.vertices).tobytes(), np.array(v.faces).tobytes())
    if isinstance(v, np.ndarray):
        return v.tobytes()
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def verdict(ctx, P, what, conf, out, asserted):
    """A setting failed although nothing was injected: a new clipper must refuse it too."""
    ref = conf.ask(P)
    if "error" not in ref and not (asserted and ref["nb_open_lines"]):
        ctx.fail("refused", "%s was refused (%s) though a new clipper accepts the same mesh, plane and tolerance" % (what, out))
    if "error" in ref and not ref["error"].startswith(("RuntimeError: ", "MemoryError")):
        ctx.fail("failed", "%s and a new clipper with the same mesh, plane and tolerance both raise %s" % (what, ref["error"]))
    if "error" in ref and ref["error"].startswith("RuntimeError: "):
        V, F, n, c, tol = conf
        d = V @ n - c
        if len(d) and (d < -tol - 1e-9).any() and (d > -tol + 1e-9).any():
            ctx.fail("crossing-refused", "%s: the mesh goes from %.6g to %.6g of the plane, and a new clipper raises %s" % (what, d.min(), d.max(), ref["error"]))


def check(ctx, P, what, x, names, held, n, flip):
    got, errs = {}, []
    for q in names:
        try:
            v = getattr(x.c, q)
        except Exception as e:
            errs.append((q, e))
            continue
        got[q] = read(x.c, [q])[q]
        held.append(("%s of step %d" % (q, n), v, plain(v), x))
    del held[:-40]
    ctx.stats["probe:answers"] += len(got)
    ctx.stats["probe:refusals"] += len(errs)
    ctx.log(n, "read", sorted(got), len(errs))
    if not got:
        if x.fresh and len(x.cands) == 1 and errs:
            ref = x.cands[0].ask(P)
            if "error" not in ref and x.flag is not None:
                ctx.fail("no-answer", "after %s, %s raised %s" % (what, errs[0][0], errs[0][1]))
        return
    if x.fresh:
        ctx.nontrivial = True
    why = []
    for conf in x.cands:
        s = max(1., float(np.abs(conf[0]).max()))
        ref = conf.ask(P)
        if "error" in ref:
            # no clipping there; the three parts of the mesh may still be told, when they are the right ones
            parts = partition(conf)
            if not set(got) - set(MESHES[:3]) and (parts is None or all(raw(got[q]) == parts[q] for q in got)):
                return
            why.append("a new clipper raises " + ref["error"])
            continue
        w = [(q, differs(q, got[q], ref[q], s)) for q in got]
        w = [a for a in w if a[1]]
        if not w:
            if len(x.cands) == 1 and errs and x.flag is not None:
                ctx.fail("no-answer", "after %s, %s raised %s while other results are given" % (what, errs[0][0], errs[0][1]))
            if "clipped_mesh" in got or "lower_mesh" in got:
                full = dict(ref, **got)
                g = geometry(ctx, what, conf, full)
                if g:
                    ctx.fail("wrong-result", "after %s: %s (plane %s %s, tolerance %s)" % (what, g, list(conf[2]), conf[3], conf[4]))
            if x.flag and ref["nb_open_lines"]:
                ctx.fail("open-curves-accepted", "after %s: open curves though closed boundaries were asserted" % what)
            if flip:
                halves(ctx, P, what, conf, ref, s)
            return
        why.append("%s: %s" % w[0])
    ctx.fail("stale-result", "after %s the clipper reports results of another setting (%s)" % (what, "; ".join(why) or "there is no usable setting"))


def halves(ctx, P, what, conf, ref, s):
    """The clipped part and the part clipped by the flipped plane together have the area of the source."""
    V, F, n, c, tol = conf
    src = formats.polys(V, F)
    if not planar_convex(src):
        return
    w = clip_polys(src, [float(x) for x in n], c, tol)
    if w is None or crowded(w):
        return
    w2 = clip_polys(src, [-float(x) for x in n], -c, tol)
    if w2 is None or crowded(w2):
        return
    other = P.ask(V, F, -n, -c, tol)
    if "error" in other:
        return
    A = [c08.moments([p for p in formats.polys(*m) if len(p) >= 3])[0] for m in ((V, F), ref["clipped_mesh"], other["clipped_mesh"])]
    ctx.stats["probe:halves-judged"] += 1
    if abs(A[0] - A[1] - A[2]) > 1e-6 * A[0] + 1e-9:
        ctx.fail("area-lost", "after %s: the parts under and above the plane have areas %.9g and %.9g, the source mesh %.9g (plane %s %s)" % (what, A[1], A[2], A[0], list(n), c))


shrink = S.shrink
