"""C15: sessions on their own objects do not influence each other, interleaved in one thread or running in several."""
import gc
import math
import os
import pickle
import random
import signal
import sys
import warnings

import numpy as np

from .. import core, formats, meshgen, meshsim as S, shim, threads

LEVEL = "exploration"
QUICK, THOROUGH = 1200, 150000
RULE = ("a scenario is two or three sessions that each build, load, transform, clip, analyse and write their own meshes, planes, clippers, inertias and "
        "hydrostatics (with default arguments wherever there are any) and overwrite in place the results they were given; each session is first run alone "
        "in a new process, then all of them together, as threads preempted at seeded switch points or interleaved step by step, one of them possibly hit by "
        "an interrupt; what each records must be what it records alone; non-trivial when the sessions really alternated")
REAL = ["meshmagick.mesh, mesh_clipper, hydrostatics, inertia, densities, rotations, mmio loaders and writers", "real Python threads", "VTK readers and writers"]
STUB = ["the interpreter's thread switching: a baton is passed at function entries, backward jumps and returns from calls inside meshmagick code",
        "the clock behind the dates in file headers is simulated"]
ASSUMPTIONS = ["threads switch only where CPython with the global interpreter lock can switch them inside meshmagick code; a C function is one step",
               "automatic mesh names and identifiers (a process-wide counter) are not compared", "a session hit by an interrupt is itself not compared"]
FMTS = ["nat", "gdf", "stl", "mar", "pnl", "hst", "vtp", "obj", "vtk", "vtu", "inp", "nem", "tec", "phy", "msh"]
FMTS = [f for f in FMTS if f in formats.RW]
SOLIDS = [("right_circular_cylinder", 2), ("hollow_right_circular_cylinder", 3), ("right_circular_cone", 2), ("sphere", 1), ("ellipsoid", 3), ("torus", 2),
          ("circular_cone_shell", 2), ("spherical_shell", 1), ("hemispherical_shell", 1), ("lateral_cylindrical_shell", 2)]


# ------------------------------------------------------------------ generator
def hull(rng):
    """A closed mesh that crosses z = 0."""
    V, F = meshgen.closed(rng, True)
    if rng.random() < .3:
        V = meshgen.rotate(V, rng)
    z = [v[2] for v in V]
    f = min(z) + (max(z) - min(z)) * rng.uniform(.35, .62)
    return [[[float("%.9g" % x) for x in (v[0], v[1], v[2] - f)] for v in V], F]


def gen_step(rng):
    r = rng.random()
    if r < .22:
        return {"a": "op", "op": S.gen_op(rng, S.INPLACE)}
    if r < .34:
        return {"a": "query", "q": rng.sample([q for q in S.QUERIES if q not in ("str", "polydata")], rng.randint(1, 4)), "k": rng.randrange(40)}
    if r < .44:
        return {"a": "clip", "p": rng.choice([None, None, S.gen_plane(rng)]), "closed": rng.random() < .3,
                "tol": rng.choice([None, None, 1e-5, .03, .1])}
    if r < .56:
        w = rng.choice(["c", "normal", "flip", "rotate", "angles", "params", "scribble-normal"])
        return {"a": "plane", "how": w, "x": [S._g(rng, .4) for _ in range(3)], "on": rng.choice(["clipper", "clipper", "own", "new"]), "set": rng.random() < .7}
    if r < .60:
        return {"a": "tol", "x": rng.choice([1e-3, 1e-4, 5e-3, .05, .1])}
    if r < .72:
        return {"a": "hydro", "kw": rng.sample(["at_cog", "lpp", "orig", "z", "rot"], rng.choice([0, 0, 0, 1, 2])), "x": S._g(rng, .05)}
    if r < .77:
        return {"a": rng.choice(["dispeq", "dispeq", "fulleq"]), "f": rng.uniform(.35, .6), "cog": rng.random() < .5}
    if r < .83:
        return {"a": "write", "fmt": rng.choice(FMTS), "load": rng.random() < .6}
    if r < .90:
        n, k = rng.choice(SOLIDS)
        return {"a": "solid", "n": n, "x": sorted(round(rng.uniform(.5, 3), 3) for _ in range(k)), "point": [S._g(rng, 2) for _ in range(3)] if rng.random() < .5 else None}
    if r < .93:
        return {"a": "misc", "x": [S._g(rng, 1) for _ in range(3)], "how": rng.choice(["density", "rotations", "mirror0", "symmetrize0", "make"])}
    return {"a": "scribble", "i": rng.random()}


def gen(rng, i, tier):
    n = rng.choice([2, 2, 2, 3])
    sessions = []
    for _ in range(n):
        m = hull(rng) if rng.random() < .7 else S.gen_mesh(rng, .8)
        st = [gen_step(rng) for _ in range(rng.randint(1, 5 if tier == "quick" else 9))]
        if rng.random() < .5:
            st.insert(rng.randrange(len(st) + 1), {"a": "scribble", "i": 0.})
        sessions.append({"mesh": m, "steps": st})
    if rng.random() < .3:                      # the same work on different data
        for s in sessions[1:]:
            s["steps"] = [dict(x) for x in sessions[0]["steps"]]
    mode = rng.choice(["threads", "threads", "steps"])
    sc = {"sessions": sessions, "mode": mode, "victim": None}
    if mode == "threads":
        sc["sched"] = threads.gen_segments(rng, n)
    else:
        sc["sched"] = [[rng.randrange(n), 1] for _ in range(rng.randint(2, 20))]
        if rng.random() < .3:
            sc["sched"] = [[0, 99]]            # one after the other
    if rng.random() < .3:
        sc["victim"] = [rng.randrange(n), round(rng.random(), 4), rng.choice(["MemoryError", "KeyboardInterrupt", "RuntimeError"])]
    return sc


# ------------------------------------------------------------------ one session
class Session:
    """Generator of steps; self.rec collects what was observed (plain values)."""

    def __init__(self, sc, name):
        self.sc, self.name, self.rec = sc, name, []

    def note(self, *v):
        self.rec.append(plain(list(v)))

    def go(self):
        from meshmagick.mesh import Mesh
        err = np.geterr()                # per thread
        self.m = Mesh(*self.sc["mesh"])
        self.clipper = self.plane = None
        self.given = []
        for j, st in enumerate(self.sc["steps"]):
            try:
                self.step(j, st)
            except threads.Stuck:
                raise
            except (Exception, KeyboardInterrupt) as e:
                e.__traceback__ = None
                self.note(j, "raised", type(e).__name__)
            yield j
        self.note("end", self.m.vertices, self.m.faces, self.m.faces_areas)
        self.note("errors", np.geterr() == err)

    def run(self):
        for _ in self.go():
            pass
        return self.rec

    def step(self, j, st):
        from meshmagick import densities, hydrostatics, inertia, mmio, rotations
        from meshmagick.mesh import Mesh, Plane
        from meshmagick.mesh_clipper import MeshClipper
        a, m = st["a"], self.m
        if m.nb_faces > 300 or m.nb_faces == 0:
            self.m = m = Mesh(*self.sc["mesh"])
        keep = self.given.append
        if a == "op":
            r = S.do(m, st["op"])
            self.note(j, m.vertices, m.faces)
        elif a == "query":
            for q in st["q"]:
                v = S.query(m, q, st["k"])
                self.note(j, q, S.canon(q, v))
        elif a == "clip":
            p = st["p"]
            kw = {} if not st.get("tol") else {"vicinity_tol": st["tol"]}
            c = MeshClipper(m, assert_closed_boundaries=st["closed"], **kw) if p is None else MeshClipper(m, plane=Plane(p[0], p[1]), **kw)
            self.clipper = c
            self.note_clipper(j)
        elif a == "plane":
            x = st["x"]
            if st["on"] == "clipper" and self.clipper is not None:
                pl = self.clipper.plane
            elif st["on"] == "own":
                pl = self.plane = self.plane or Plane()
            else:
                pl = Plane()
            h = st["how"]
            if h == "c":
                pl.c = x[0]
            elif h == "normal":
                pl.normal = [x[0], x[1], 1.]
            elif h == "flip":
                pl.flip_normal()
            elif h == "rotate":
                pl.rotate_normal(x[0], x[1])
            elif h == "angles":
                pl.set_normal_from_angles(x[0], x[1])
            elif h == "params":
                pl.set_plane_parameters(x[2], x[0], x[1])
            else:
                pl.normal[:] = [0., 1., 0.]
            self.note(j, pl.normal, pl.c, pl.coord_in_plane(np.array([[1., 2., 3.]])), pl.get_normal_orientation_wrt_z())
            if self.clipper is not None and st["set"]:
                self.clipper.plane = pl
                self.note_clipper(j)
        elif a == "tol":
            if self.clipper is not None:
                self.clipper.vicinity_tol = st["x"]
                self.note_clipper(j)
        elif a == "hydro":
            kw = {}
            for k in st["kw"]:
                kw.update({"at_cog": {"at_cog": True}, "lpp": {"lpp": 3.}, "orig": {"orig_at_ap": True}, "z": {"z_corr": st["x"]},
                           "rot": {"rotmat_corr": rotations.cardan_to_rotmat(st["x"], .02, 0.)}}[k])
            h = hydrostatics.compute_hydrostatics(m, np.array([.01, .02, .03]), 1025., 9.81, **kw)
            self.note(j, [[k, h[k]] for k in sorted(h) if k != "mesh"], h["mesh"].vertices, h["mesh"].faces)
            if h["disp_mass"] > 0 and min(h["Ixx"], h["Iyy"], h["Izz"]) > 0:
                self.note(j, hydrostatics.get_hydrostatic_report(h))
            for k in sorted(h):
                if isinstance(h[k], np.ndarray):
                    keep(h[k])
            keep(h["mesh"].vertices)
        elif a in ("dispeq", "fulleq"):
            disp = abs(float(m.volume)) * 1.025 * st["f"]
            kw = {"cog": np.array([0., 0., .05])} if st["cog"] else {}
            if a == "dispeq":
                self.note(j, a, hydrostatics.displacement_equilibrium(m, disp, 1025., 9.81, reltol=1e-4, **kw))
            else:
                z, rot = hydrostatics.full_equilibrium(m, np.array([0., 0., -.1]), disp, 1025., 9.81, reltol=1e-3)
                self.note(j, a, z, rot)
                keep(rot)
        elif a == "write":
            fmt = st["fmt"]
            p = self.name + "/w%d.%s" % (j, fmt)
            mmio.write_mesh(p, m.vertices, m.faces, fmt)
            self.note(j, fmt, open(p, "rb").read())
            if st["load"]:
                V, F = mmio.load_mesh(p, fmt)
                self.note(j, "load", V, F)
                keep(V), keep(F)
        elif a == "solid":
            f = getattr(inertia, st["n"])
            i = f(*st["x"])
            self.note(j, i.mass, i.gravity_center, i.inertia_matrix, i.reduction_point)
            if st["point"]:
                i.reduction_point = np.array(st["point"])
                self.note(j, i.inertia_matrix, str(i))
            keep(i.gravity_center), keep(i.inertia_matrix), keep(i.reduction_point)
        elif a == "misc":
            x = st["x"]
            if st["how"] == "density":
                l = densities.list_medium()
                self.note(j, l, densities.get_density("steel"))
                l.append("X"), l.reverse()
            elif st["how"] == "rotations":
                R = rotations.cardan_to_rotmat(*x)
                self.note(j, R, rotations.rotmat_to_cardan(R), rotations.rotmat_to_quat(R))
                keep(R)
            elif st["how"] == "make":
                c = m.copy()
                c.rotate([x[0], x[1], x[2]])
                e = m.extract_faces([0, m.nb_faces - 1]) + c
                self.note(j, e.vertices, e.faces, e.faces_normals)
                keep(e.faces_normals)
            else:
                c = m.copy()
                getattr(c, st["how"][:-1])(Plane())
                self.note(j, c.vertices, c.faces)
        elif a == "scribble":
            # overwrite what this session was given
            g, self.given = self.given, []
            for x in (g if st["i"] < .5 else g[-1:]):
                if x.flags.writeable and x.size:
                    x[...] = 7
        else:
            raise KeyError(a)

    def note_clipper(self, j):
        c = self.clipper
        self.note(j, c.clipped_mesh.vertices, c.clipped_mesh.faces, c.lower_mesh.faces, c.upper_mesh.vertices, c.closed_polygons, c.open_lines,
                  c.plane.normal, c.plane.c)


def plain(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return [[plain(a), plain(b)] for a, b in sorted(v.items())]
    if isinstance(v, np.generic):
        return v.item()
    return v


def same(a, b, S0):
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(same(x, y, S0) for x, y in zip(a, b))
    if isinstance(b, (np.ndarray, float)):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if b.dtype.kind in "iub":
            return bool(np.array_equal(a, b))
        t = 1e-9 * (float(np.abs(b[np.isfinite(b)]).max()) if np.isfinite(b).any() else 0.) + 1e-9 * S0
        return bool(np.all((np.abs(a - b) <= t) | (~np.isfinite(a) & ~np.isfinite(b))))
    return a == b


def first_difference(a, b, S0):
    for n, (x, y) in enumerate(zip(a, b)):
        if not same(x, y, S0):
            if isinstance(x, list) and isinstance(y, list) and len(x) == len(y):
                k = next(k for k in range(len(x)) if not same(x[k], y[k], S0))
                if isinstance(x[k], list) and isinstance(y[k], list) and len(x[k]) == len(y[k]):
                    l = next(l for l in range(len(x[k])) if not same(x[k][l], y[k][l], S0))
                    x, y = [x[k][l]], [y[k][l]]
                else:
                    x, y = [x[k]], [y[k]]
            return "record %d: %s instead of %s" % (n, str(x)[:300], str(y)[:300])
    return "%d records instead of %d" % (len(a), len(b))


def world():
    """Process-wide settings a session could leave behind."""
    um = os.umask(0)
    os.umask(um)
    w = {"geterr": np.geterr(), "printoptions": repr(sorted(np.get_printoptions().items(), key=str)), "cwd": os.getcwd(), "environ": dict(os.environ), "umask": um,
         "recursionlimit": sys.getrecursionlimit(), "random": random.getstate()[1][:4], "nprandom": str(np.random.get_state()[1][:4]),
         "warnings": [str(f) for f in warnings.filters], "stdout": id(sys.stdout), "stderr": id(sys.stderr), "gc": gc.isenabled(), "errcall": np.geterrcall(),
         "bufsize": np.getbufsize(), "switchinterval": sys.getswitchinterval(), "excepthook": id(sys.excepthook)}
    for s in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGALRM):
        w["signal%d" % s] = signal.getsignal(s)
    import locale
    w["locale"] = locale.setlocale(locale.LC_ALL)
    import vtk
    w["vtk"] = vtk.vtkObject.GetGlobalWarningDisplay()
    return w


def warm():
    S.warm()
    import locale, meshmagick.mmio, meshmagick.inertia, meshmagick.rotations, meshmagick.densities, vtk  # noqa: F401,E401
    from .. import iolib
    iolib.warm()
    warnings.simplefilter("ignore")
    assert threads.instrument() > 200


def prepare(base, sc):
    os.makedirs(base)
    for i in range(len(sc["sessions"])):
        os.mkdir("%s/s%d" % (base, i))
    os.chdir(base)


def alone(sc, i, ctx):
    """What session i records when it is the only one of a new process, and how many switch points it passes."""
    def body(w):
        prepare(ctx.dir + "alone%d" % i, sc)
        with threads.Count() as C:
            rec = Session(sc["sessions"][i], "s%d" % i).run()
        with os.fdopen(w, "wb", closefd=False) as f:
            pickle.dump((rec, C.n), f)
        return 0
    st, out = core.fork_call(body)
    if st:
        return None, st
    return pickle.loads(out)


def run(sc, ctx):
    n = len(sc["sessions"])
    shim.begin(ctx.dir, {"clock": [1700000000 * 10 ** 9, 0], "clock_mode": 2})
    ref = [alone(sc, i, ctx) for i in range(n)]
    for i, r in enumerate(ref):
        if r[0] is None:
            ctx.fail("process-died", "session %d alone ended with status %s" % (i, r[1]))
    prepare(ctx.dir + "both", sc)
    before = world()
    S_ = [Session(sc["sessions"][i], "s%d" % i) for i in range(n)]
    vic = sc["victim"]
    exc = {"MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt, "RuntimeError": RuntimeError}
    if sc["mode"] == "threads":
        inject = {vic[0]: (1 + int(vic[1] * ref[vic[0]][1]), exc[vic[2]])} if vic else {}
        B = threads.Baton([s.run for s in S_], threads.resolve(sc["sched"], [r[1] for r in ref]), inject)
        try:
            res = B.run()
        except threads.Stuck as e:
            ctx.fail("deadlock", str(e))
        for x in B.trace:
            ctx.log(x)
        ctx.log(B.points, B.switches)
        ctx.stats["fault:preemption"] += B.mid
        ctx.stats["probe:switch-points"] += sum(B.points)
        ctx.nontrivial = B.mid > 0
        if B.injected:
            ctx.stats["fault:" + vic[2]] += 1
        for i, (st, v) in enumerate(res):
            if st != "ok" and not (vic and i == vic[0]):
                ctx.fail("interference", "session %d died of %r" % (i, v))
    else:
        inj = vic and 1 + int(vic[1] * ref[vic[0]][1])
        count = [0]

        def hook(code, off):
            count[0] += 1
            if count[0] == inj:
                raise exc[vic[2]]()
        gens = [s.go() for s in S_]
        order = [t for t, q in sc["sched"] for _ in range(q)] + [i for i in range(n) for _ in range(99)]
        last = None
        for t in order:
            if gens[t] is None:
                continue
            if last is not None and t != last:
                ctx.nontrivial = True
                ctx.stats["probe:alternations"] += 1
            last = t
            try:
                if vic and t == vic[0]:
                    threads.watch(hook)
                next(gens[t])
            except StopIteration:
                gens[t] = None
            except (Exception, KeyboardInterrupt) as e:
                if not (vic and t == vic[0]):
                    ctx.fail("interference", "session %d died of %r" % (t, e))
                gens[t] = None
            finally:
                threads.watch(None)
        if vic and inj and count[0] >= inj:
            ctx.stats["fault:" + vic[2]] += 1
        ctx.log(order[:60], count)
    for i in range(n):
        if vic and i == vic[0]:
            continue
        V = np.array(sc["sessions"][i]["mesh"][0])
        if not same(S_[i].rec, ref[i][0], max(1e-3, float(np.abs(V).max()))):
            ctx.fail("interference", "session %d (%s) records something else than alone: %s" % (
                i, [s["a"] for s in sc["sessions"][i]["steps"]], first_difference(S_[i].rec, ref[i][0], 1e-3)))
        for r in S_[i].rec:
            ctx.log(len(r), str(r[:2])[:40])
        for st in sc["sessions"][i]["steps"]:
            ctx.cover.add(sc["mode"] + "/" + st["a"])
            ctx.stats["probe:step-" + st["a"]] += 1
    after = world()
    for k in before:
        if before[k] != after[k]:
            ctx.fail("global-state", "%s changed from %s to %s" % (k, str(before[k])[:200], str(after[k])[:200]))
    left = sorted(x for x in os.listdir(".") if x not in {"s%d" % i for i in range(n)})
    if left:
        ctx.fail("stray-file", "files in the common directory: %s" % left)


def shrink(sc):
    SS = sc["sessions"]
    for i in range(len(SS)):
        if len(SS) > 1 and not sc["victim"]:
            yield dict(sc, sessions=SS[:i] + SS[i + 1:], sched=[[t - (t > i), q] for t, q in sc["sched"] if t != i])
    if sc["victim"]:
        yield dict(sc, victim=None)
    for seg in threads.shrink_segments(sc["sched"]):
        yield dict(sc, sched=seg)
    if sc["mode"] == "threads":
        yield dict(sc, mode="steps", sched=[[0, 99]])
    for i, s in enumerate(SS):
        st = s["steps"]
        for j in range(len(st)):
            yield dict(sc, sessions=SS[:i] + [dict(s, steps=st[:j] + st[j + 1:])] + SS[i + 1:])
        from .. import iolib
        for m in iolib.shrink_mesh(s["mesh"]):
            yield dict(sc, sessions=SS[:i] + [dict(s, mesh=m)] + SS[i + 1:])
