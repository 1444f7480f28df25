"""C14: any number of threads may query one mesh at the same time."""
import copy
import sys

import numpy as np

from .. import meshgen, meshsim as S, shim, threads
from .c13 import freeze

LEVEL = "exploration"
QUICK, THOROUGH = 5000, 250000
RULE = ("a scenario is one mesh shared by two to four threads, each with a list of up to five read-only uses (queries, printing, extraction, "
        "copies, concatenation, clipping, inertias, hydrostatics, writing); a seeded schedule decides at which switch points of the interpreter inside "
        "meshmagick code another thread goes on; non-trivial when a thread was preempted inside meshmagick code")
REAL = ["meshmagick.mesh.Mesh", "meshmagick.mesh_clipper.MeshClipper", "meshmagick.hydrostatics", "meshmagick.mmio writers", "real Python threads"]
STUB = ["the interpreter's thread switching: a baton is passed at function entries, backward jumps and returns from calls inside meshmagick code"]
ASSUMPTIONS = ["threads switch only where CPython with the global interpreter lock can switch them inside meshmagick code; a C function is one step",
               "no thread changes the mesh meanwhile"]
USES = S.QUERIES + ["copy", "extract", "add", "clip", "hydro", "write", "rebuild", "quality", "edges"]
HEAVY = ("hydro", "clip", "write", "quality")
LAZY = ["faces_areas", "faces_normals", "faces_centers", "triangles_ids", "quadrangles_ids", "nb_triangles", "nb_quadrangles", "vv", "vf",
        "ff", "boundaries", "nb_boundaries", "is_mesh_closed", "is_mesh_conformal", "surface_integrals", "volume", "plain_inertia", "shell_inertia"]
SIBLINGS = [{"faces_areas", "faces_normals", "faces_centers"}, {"triangles_ids", "quadrangles_ids", "nb_triangles", "nb_quadrangles"},
            {"vv", "vf", "ff", "boundaries", "nb_boundaries", "is_mesh_closed"}, {"surface_integrals", "volume", "plain_inertia"}]


def warm():
    S.warm()
    import meshmagick.mmio, meshmagick.mesh_clipper, meshmagick.hydrostatics, vtk  # noqa: F401,E401
    import os, tempfile
    m = _mesh(meshgen.box(None))
    d = tempfile.mkdtemp(prefix="vwarm-")
    sys.stdout.flush()
    so = os.dup(1)
    fd = os.open("/dev/null", os.O_WRONLY)
    os.dup2(fd, 1)
    for u in USES:
        try:
            use(m, u, 1, d + "/w")
        except Exception:       # the scenarios report it
            pass
    sys.stdout.flush()
    os.dup2(so, 1)
    os.close(so), os.close(fd)
    import shutil
    shutil.rmtree(d)
    assert threads.instrument() > 200


def _mesh(VF):
    from meshmagick.mesh import Mesh
    return Mesh(VF[0], VF[1])


def gen(rng, i, tier):
    mesh = S.gen_mesh(rng, .7)
    nt = rng.choice([2, 2, 2, 3, 4])
    pool = rng.choice([LAZY, LAZY, USES, rng.sample(LAZY, 2), rng.sample(USES, 3)])
    ts = []
    for t in range(nt):
        ts.append([rng.choice(pool) for _ in range(rng.choice([1, 1, 1, 2, 3, 5]))])
    if rng.random() < .35:               # all the same
        ts = [list(ts[0]) for _ in ts]
    pre = rng.sample(S.QUERIES, rng.choice([0, 0, 0, 1, 2]))
    if rng.random() < .25:               # everything was asked before: what remains is handing out
        pre = sorted({u for t in ts for u in t if u in S.QUERIES})
    if rng.random() < .15:               # one thing, handed out to all
        u = rng.choice(LAZY)
        ts, pre = [[u] * rng.choice([1, 1, 2]) for _ in range(nt)], [u]
        if rng.random() < .6:            # found together with another one that was asked before
            g = [x for x in SIBLINGS if u in x]
            pre = [rng.choice(sorted(g[0] - {u}))] if g else [rng.choice(LAZY)]
    return {"mesh": mesh, "threads": ts, "pre": pre, "k": rng.randrange(50),
            "op": S.gen_op(rng, ["translate", "rotate", "scale", "flip_normals", "heal_triangles"]) if rng.random() < .3 else None,
            "sched": threads.gen_segments(rng, nt)}


def use(m, u, k, path):
    """One read-only use; returns something comparable."""
    if u in S.QUERIES:
        return S.query(m, u, k)
    if u == "copy":
        c = m.copy()
        return [c.vertices, c.faces, c.faces_areas]
    if u == "extract":
        e, ids = m.extract_faces(np.array(sorted({k % m.nb_faces, 0, m.nb_faces - 1})), return_index=True)
        return [e.vertices, e.faces, ids]
    if u == "add":
        c = m + m
        return [c.vertices, c.faces]
    if u == "rebuild":
        c = type(m)(m.vertices, m.faces)
        return [c.vertices, c.faces, c.faces_normals]
    if u == "clip":
        from meshmagick.mesh_clipper import MeshClipper
        from meshmagick.mesh import Plane
        z = m.vertices[:, 2]
        c = MeshClipper(m, plane=Plane([0, 0, 1.], float(z.min() + (z.max() - z.min()) * .4217)))
        return [c.clipped_mesh.vertices, c.clipped_mesh.faces, c.lower_mesh.faces, c.upper_mesh.faces, c.nb_closed_polygons]
    if u == "hydro":
        from meshmagick import hydrostatics
        z = m.vertices[:, 2]
        h = hydrostatics.compute_hydrostatics(m, np.array([0., 0., .1]), 1025., 9.81, z_corr=-float(z.min() + (z.max() - z.min()) * .4217))
        return [np.asarray(h[x], dtype=float) for x in sorted(h) if x not in ("mesh", "trust_lpp")]
    if u == "write":
        from meshmagick import mmio
        out = []
        for f in ("stl", "gdf", "nat", "obj"):
            p = "%s.%s" % (path, f)
            mmio.write_mesh(p, m.vertices, m.faces, f)
            out.append(open(p, "rb").read())
        return out
    if u == "quality":
        m.print_quality()
        return None
    if u == "edges":
        return [m.min_edge_length, m.mean_edge_length, m.squared_axis_aligned_bbox, m.name]
    raise KeyError(u)


def outcome(fn):
    try:
        return "ok", fn()
    except Exception as e:
        return "raised", type(e).__name__ + ": " + str(e)[:150]


def equal(a, b, S0):
    """Plain comparison of use results."""
    if isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y, S0) for x, y in zip(a, b))
    if isinstance(b, np.ndarray) or isinstance(b, (float, np.floating)):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if b.dtype.kind in "iub":
            return bool(np.array_equal(a, b))
        return bool(np.all((np.abs(a - b) <= 1e-9 * np.abs(b) + 1e-9 * S0) | (~np.isfinite(a) & ~np.isfinite(b))))
    return a == b


def run(sc, ctx):
    m = _mesh(sc["mesh"])
    k = sc["k"]
    for q in sc["pre"]:
        S.evaluate(m, q, k)
    if sc.get("op"):
        try:
            S.do(m, sc["op"])
        except Exception:
            pass
        if not m.nb_faces:
            return
    V, F = np.array(m.vertices), np.array(m.faces)
    areas = np.array([S.R.area(V.tolist(), f) for f in F.tolist()], dtype=float)
    S0 = max(1e-6, float(np.abs(V).max()))
    alone, work = {}, {}
    shim.begin(ctx.dir, {"clock": [1700000000 * 10 ** 9, 0], "clock_mode": 2})
    for u in sorted({u for t in sc["threads"] for u in t}):
        # the answer of a single-threaded program (a mesh that has been asked nothing else)
        alone[u] = outcome(lambda: use(S.fresh(m), u, k, ctx.dir + "alone"))
        twin = copy.deepcopy(m)          # what the threads will have to do
        with threads.Count() as I:
            outcome(lambda: use(twin, u, k, ctx.dir + "alone"))
        work[u] = I.n

    # held answers must stay what they were
    def thunk(t):
        def go():
            out = []
            for j, u in enumerate(sc["threads"][t]):
                r = outcome(lambda: use(m, u, k, "%st%d-%d" % (ctx.dir, t, j)))
                out.append((u, r, freeze(r[1]) if r[0] == "ok" and u != "polydata" else None))
            return out
        return go
    import threading as T
    seen_by_hook = []
    T.excepthook = lambda a: seen_by_hook.append(a)
    B = threads.Baton([thunk(t) for t in range(len(sc["threads"]))], threads.resolve(sc["sched"], [sum(work[u] for u in t) for t in sc["threads"]]))
    try:
        res = B.run()
    except threads.Stuck as e:
        ctx.fail("deadlock", str(e))
    for x in B.trace:
        ctx.log(x)
    ctx.stats["fault:preemption"] += B.mid
    ctx.stats["probe:switch-points"] += sum(B.points)
    ctx.nontrivial = B.mid > 0
    for s in B.sites:
        ctx.cover.add(s.split(":")[0])
    ctx.log(B.points, B.switches)
    for t, (st, val) in enumerate(res):
        if st != "ok":
            raise val
        for j, (u, r, held) in enumerate(val):
            ref = alone[u]
            if r[0] != ref[0]:
                ctx.fail("concurrent-exception" if r[0] == "raised" else "missing-exception",
                         "thread %d, %s: %s, alone: %s" % (t, u, str(r)[:300], str(ref)[:300]))
            if r[0] == "raised":
                if r[1].split(":")[0] != ref[1].split(":")[0]:
                    ctx.fail("concurrent-exception", "thread %d, %s raised %s, alone %s" % (t, u, r[1], ref[1]))
                continue
            if u in S.QUERIES:
                w = S.same_value(u, r[1], ref[1], V, F, areas)
                if not w:
                    o = S.oracle(u, V.tolist(), F.tolist())
                    w = S.same_value(u, r[1], o, V, F, areas) if o is not None else None
            elif u == "edges":
                w = None if equal(r[1][:3], ref[1][:3], S0) else "another value"
            elif u == "hydro":
                w = None if equal(r[1], ref[1], S0) else "another result"
            else:
                w = None if equal(r[1], ref[1], S0) else "another result"
            if w:
                ctx.fail("wrong-answer", "thread %d, %s: %s" % (t, u, w))
            if held is not None and freeze(r[1]) != held:
                ctx.fail("answer-changed-later", "thread %d: the answer of %s changed after it was returned" % (t, u))
    if seen_by_hook:
        ctx.fail("concurrent-exception", "a thread died: %r" % (seen_by_hook[0].exc_value,))
    if not (np.array_equal(V, m.vertices) and np.array_equal(F, m.faces)):
        ctx.fail("geometry-changed", "read-only use changed the mesh")
    w = S.check_queries(m, S.QUERIES, k)
    if w:
        ctx.fail("wrong-answer-afterwards", "%s is %s" % w)


def shrink(sc):
    for seg in threads.shrink_segments(sc["sched"]):
        yield dict(sc, sched=seg)
    T = sc["threads"]
    for i in range(len(T)):
        if len(T) > 2:
            yield dict(sc, threads=T[:i] + T[i + 1:])
        for j in range(len(T[i])):
            if len(T[i]) > 1:
                yield dict(sc, threads=T[:i] + [T[i][:j] + T[i][j + 1:]] + T[i + 1:])
    if sc["pre"]:
        yield dict(sc, pre=[])
    if sc.get("op"):
        yield dict(sc, op=None)
    from .. import iolib
    for m in iolib.shrink_mesh(sc["mesh"]):
        yield dict(sc, mesh=m)
