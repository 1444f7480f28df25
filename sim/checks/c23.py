"""C23: what a plane answers always describes its current normal and position (sessions with faults)."""
import copy
import math
import pickle

import numpy as np

from .. import meshsim as S

LEVEL = "exploration"
QUICK, THOROUGH = 6000, 400000
RULE = ("a scenario is one session over a pool of planes: normals and scalar parameters set from lists, arrays, views and the arrays of other planes, rotations, angles, "
        "combined updates, flips, copies, clippings and symmetries made with them, overwritten arguments and answers, unusable values, each possibly interrupted or refused "
        "memory at a chosen signal-delivery point; after every step every plane is compared with the pair (normal, position) it must have, and its answers (distances, "
        "projections, intersections, in-plane coordinates, angles, origin, text) with own arithmetic on that pair; non-trivial when a plane changed at least twice")
REAL = ["meshmagick.mesh.Plane and what it is given to: meshmagick.mesh.Mesh.symmetrize, meshmagick.mesh_clipper.MeshClipper"]
STUB = ["interrupts and MemoryErrors are raised by an opcode trace function, only where the interpreter polls for signals"]
ASSUMPTIONS = ["normals are not zero and stay within six decades, coordinates within eight", "the array returned by Plane.normal is not written to by the session"]
ASKS = ["dist", "dist1", "project", "edge", "coord", "origin", "angles", "str", "normal", "c", "deepcopy", "pickle", "copy"]
CUBE = ([[x, y, z] for x in (-1., 1.) for y in (-1., 1.) for z in (-1., 1.)],
        [[0, 1, 3, 2], [4, 6, 7, 5], [0, 4, 5, 1], [2, 3, 7, 6], [0, 2, 6, 4], [1, 5, 7, 3]])


def warm():
    S.warm()
    import meshmagick.mesh_clipper  # noqa: F401


def normal(rng):
    k = rng.random()
    if k < .3:
        v = [0, 0, 0]
        v[rng.randrange(3)] = rng.choice([1, -1, 2, -5])
        return v
    if k < .45:
        v = [rng.randint(-3, 3) for _ in range(3)]
        return v if any(v) else [0, 0, 1]
    m = rng.choice([1., 1., 1., 1e3, 1e-3])
    v = [float("%.7g" % (m * rng.uniform(-1, 1))) for _ in range(3)]
    if k < .6:
        v[rng.randrange(2)] = 0.
    if k < .5:
        v[0], v[1] = [x * 1e-7 for x in v[:2]]
    return v if max(abs(x) for x in v) > 1e-2 * m else [0., m, 0.]


def pair(rng):
    """Two angles, together hardly any turn now and then."""
    if rng.random() < .15:
        m = 10 ** -rng.uniform(2, 9)
        return [m * rng.uniform(-1, 1), m * rng.uniform(-1, 1)]
    return [angle(rng), angle(rng)]


def angle(rng):
    return rng.choice([0., 0., 0., math.pi / 2, math.pi, -math.pi / 2, 1e-9, -1e-4]) if rng.random() < .35 else round(rng.uniform(-3.2, 3.2), 5)


def scalar(rng):
    return rng.choice([0., 0, 1, -2, float("%.5g" % (rng.uniform(-1, 1) * rng.choice([1., 5., 1e3, 1e-4])))])


def points(rng):
    m = rng.choice([1., 3., 1e4])
    k = rng.random()
    n = rng.randint(1, 5)
    if k < .3:
        return [[rng.randint(-4, 4) for _ in range(3)] for _ in range(n)]
    return [[float("%.7g" % (m * rng.uniform(-1, 1))) for _ in range(3)] for _ in range(n)]


def gen(rng, i, tier):
    forms = ["list", "tuple", "array", "array", "row", "f4", "returned", "own"]
    new = lambda: {"a": "new", "n": normal(rng) if rng.random() < .8 else None, "as": rng.choice(forms[:-2]), "c": scalar(rng), "named": rng.random() < .2}
    steps = [new()]
    for _ in range(rng.randint(3, 30 if tier == "thorough" else 16)):
        r = rng.random()
        st = {"o": rng.randrange(6)}
        if r < .08:
            st.update(new())
        elif r < .18:
            st.update(a="setn", n=normal(rng), **{"as": rng.choice(forms)})
        elif r < .25:
            st.update(a="setc", c=scalar(rng), np=rng.random() < .3)
        elif r < .35:
            st.update(a="rotate", t=pair(rng))
        elif r < .44:
            st.update(a="angles", t=pair(rng))
        elif r < .51:
            st.update(a="params", t=pair(rng), c=scalar(rng))
        elif r < .59:
            st.update(a="flip")
        elif r < .63:
            st.update(a="same")                                  # set the angles it gives
        elif r < .69:
            st.update(a="scribble", i=rng.random(), v=rng.choice([0., 7., -1e3]))
        elif r < .74:
            st.update(a="bad", what=rng.choice(["short", "long", "none", "text", "words", "number", "dict", "rows"]), on=rng.choice(["setn", "setn", "setc", "rotate", "angles", "params", "new"]))
        elif r < .79:
            st.update(a="use", how=rng.choice(["clip", "symmetrize"]))
        else:
            st.update(a="ask", q=rng.sample(ASKS, rng.randint(1, 5)), p=points(rng), u=[round(rng.uniform(-.6, 1.6), 4) for _ in range(2)],
                      dt=rng.choice(["float", "float", "list", "int", "F"]), keep=rng.random() < .6)
        if rng.random() < .22:
            st["fault"] = [rng.random(), rng.choice(["KeyboardInterrupt", "MemoryError"])]
        steps.append(st)
    return {"steps": steps}


# ------------------------------------------------------------------ own arithmetic
def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def unit(v):
    m = math.sqrt(dot(v, v))
    return [x / m for x in v]


def turned(v, tx, ty):
    t = math.hypot(tx, ty)
    if t == 0.:
        return list(v)
    k = [tx / t, ty / t, 0.]
    c, s = math.cos(t), math.sin(t)
    kv, w = dot(k, v), cross(k, v)
    return [v[j] * c + w[j] * s + k[j] * kv * (1 - c) for j in range(3)]


class Model:
    def __init__(self, n, c):
        self.n, self.c, self.e, self.big = unit([float(x) for x in n]), float(c), 1, abs(float(c))

    def copy(self):
        return copy.deepcopy(self)

    def to(self, n=None, c=None):
        m = self.copy()
        m.e += 1
        if n is not None:
            m.n = n
        if c is not None:
            m.c = float(c)
            m.big = max(m.big, abs(m.c))
        return m

    @property
    def tol(self):
        return 1e-15 * (8 + 4 * self.e)


PROBE = np.array([[0., 0., 0.], [1., 0., 0.], [0., 1., 0.], [0., 0., 1.], [3., -4., 5.]])


def wrong(pl, m):
    """What plane pl answers that does not describe model m, or None."""
    n, c = np.array(pl.normal), pl.c
    if n.shape != (3,) or n.dtype != float or not np.abs(n - m.n).max() <= m.tol:
        return "normal %s instead of %s" % (n.tolist(), m.n)
    if not abs(c - m.c) <= m.tol * (1 + m.big):          # it may be left from larger ones that cancelled
        return "scalar %r instead of %r" % (c, m.c)
    t = 4 * m.tol * (10 + m.big)
    e = [dot(p, m.n) - m.c for p in PROBE.tolist()]
    d = np.asarray(pl.get_point_dist_wrt_plane(PROBE))
    if d.shape != (5,) or not np.abs(d - e).max() <= t:
        return "distances %s instead of %s" % (d.tolist(), e)
    return wrong_coord(m, PROBE, pl.coord_in_plane(PROBE), t) or wrong_angles(m, pl.get_normal_orientation_wrt_z())


def wrong_coord(m, P, q, t):
    """In-plane coordinates: a right-handed frame whose third axis is the normal and whose origin is that of the plane."""
    q = np.asarray(q)
    if q.shape != P.shape:
        return "%d in-plane coordinates of shape %s" % (len(P), q.shape)
    d = P.astype(float) @ np.array(m.n) - m.c
    if not np.abs(q[:, 2] - d).max() <= t:
        return "third in-plane coordinates %s of points at distances %s" % (q[:, 2].tolist(), d.tolist())
    O = np.array(m.n) * m.c
    r, s = np.linalg.norm(P - O, axis=1), np.linalg.norm(q, axis=1)
    if not np.abs(r - s).max() <= t:
        return "in-plane coordinates %s of points %s are at %s of the origin of the plane instead of %s" % (q.tolist(), P.tolist(), s.tolist(), r.tolist())
    for a in range(len(P)):
        for b in range(a):
            x, y = np.linalg.norm(P[a] - P[b]), np.linalg.norm(q[a] - q[b])
            if not abs(x - y) <= t:
                return "points %s and %s, %r apart, have in-plane coordinates %r apart" % (P[a].tolist(), P[b].tolist(), x, y)
    if len(P) >= 4:
        x, y = (np.linalg.det(z[1:4] - z[0]) for z in (P.astype(float), q))
        if abs(x) > 1e-2 and not abs(x - y) <= 1e-9 * abs(x) + t:
            return "in-plane coordinates form a left-handed frame"
    return None


def wrong_angles(m, a):
    tx, ty = a
    t = math.hypot(tx, ty)
    z = turned([0., 0., 1.], tx, ty)
    if not (t <= math.pi * (1 + 1e-12) and max(abs(z[k] - m.n[k]) for k in range(3)) <= 1e-7 * (t > 3.1415) + 4 * m.tol + 1e-15):
        return "angles %s, which give the normal %s instead of %s" % ((tx, ty), z, m.n)
    return None


def bits(pl):
    return np.array(pl.normal).tobytes() + np.array([pl.c]).tobytes() + np.ascontiguousarray(pl.coord_in_plane(PROBE)).tobytes() + pl.name.encode()


# ------------------------------------------------------------------ session
class Session:
    def __init__(self, ctx):
        self.ctx, self.pool, self.given, self.kept, self.changes = ctx, [], [], [], 0

    def vector(self, st, pl):
        n, how = st["n"], st["as"]
        if how == "returned":
            v = self.pool[(st["o"] + 1) % len(self.pool)][0].normal
            self.kept.append((v, np.array(v)))
            return v, np.array(v).tolist()
        if how == "own":
            v = pl.normal
            self.kept.append((v, np.array(v)))
            return v, np.array(v).tolist()
        if how == "tuple":
            return tuple(n), n
        v = {"list": lambda: list(n), "array": lambda: np.array(n), "row": lambda: np.array([n, n, n], dtype=float).T[:, 1],
             "f4": lambda: np.array(n, dtype=np.float32)}[how]()
        self.given.append(v)
        return v, [float(x) for x in v]

    def add(self, pl, m):
        if len(self.pool) >= 6:
            self.pool.pop(0)
        self.pool.append([pl, m])

    def check(self, j, st, changed=None):
        for k, x in enumerate(self.pool):
            now = bits(x[0])
            w = wrong(x[0], x[1])
            if w:
                self.ctx.fail("wrong-plane", "after step %d (%s): plane %d: %s" % (j, st["a"], k, w))
            if len(x) > 2 and x[0] is not changed and now != x[2]:
                self.ctx.fail("changed-by-others", "step %d (%s) changed plane %d" % (j, st["a"], k))
            x[2:] = [now]
        for v, was in self.kept:
            if v.tobytes() != was.tobytes():
                self.ctx.fail("changed-answer", "step %d (%s) changed an array handed out before from %s to %s" % (j, st["a"], was.tolist(), v.tolist()))

    def guarded(self, st, do):
        f = st.get("fault")
        if not f:
            return do(), None
        back = [(x[0], dict(x[0].__dict__)) for x in self.pool]
        copies = [(o, copy.deepcopy(d)) for o, d in back]
        kept = list(self.kept)
        with S.Interrupter() as I:
            do()
        # what the counting run did is undone on the same objects, whose arrays get their values back
        for (o, d), (_, c) in zip(back, copies):
            for k in d:
                if isinstance(d[k], np.ndarray):
                    d[k][...] = c[k]
            o.__dict__.clear()
            o.__dict__.update(d)
        self.kept = kept
        exc = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[f[1]]
        with S.Interrupter(1 + int(f[0] * I.n), exc) as I:
            try:
                return do(), None
            except exc as e:
                e.__traceback__ = None
                self.ctx.stats["fault:" + f[1]] += 1
                self.ctx.log("hit", I.where)
                return None, I.where

    def step(self, j, st):
        from meshmagick.mesh import Plane
        ctx, a = self.ctx, st["a"]
        ctx.stats["probe:step-" + a] += 1
        if a == "new":
            kw = {"name": "p"} if st["named"] else {}
            if st["n"] is None:
                n, do = [0., 0., 1.], lambda: Plane(scalar=st["c"], **kw)
            else:
                v, n = self.vector(st, None)
                do = lambda: Plane(v, st["c"], **kw)
            pl, hit = self.guarded(st, do)
            if not hit:
                self.add(pl, Model(n, st["c"]))
            return self.check(j, st)
        x = self.pool[st["o"] % len(self.pool)]
        pl, m = x[:2]
        if a == "scribble":
            for v in (self.given if st["i"] < .5 else self.given[int(st["i"] * len(self.given)):][:1]):
                v[:] = [st["v"]] * len(v) if isinstance(v, list) else st["v"]
            self.given = []
            return self.check(j, st)
        if a == "bad":
            self.bad(j, st, pl)
            return self.check(j, st)
        if a == "use":
            self.use(j, st, pl)
            return self.check(j, st)
        if a == "ask":
            for q in st["q"]:
                self.ask(j, st, q, pl, m)
            return self.check(j, st)
        # a change
        if a == "setn":
            v, n = self.vector(st, pl)
            new = m.to(unit(n))

            def do():
                pl.normal = v
        elif a == "setc":
            new = m.to(c=st["c"])

            def do():
                pl.c = np.float64(st["c"]) if st["np"] else st["c"]
        elif a == "flip":
            new, do = m.to([-y for y in m.n]), pl.flip_normal
        elif a == "same":
            new, do = m.to(), lambda: pl.set_normal_from_angles(*pl.get_normal_orientation_wrt_z())
            new.e += 4
        else:
            tx, ty = st["t"]
            if a == "rotate":
                new, do = m.to(turned(m.n, tx, ty)), lambda: pl.rotate_normal(tx, ty)
            elif a == "angles":
                new, do = m.to(turned([0., 0., 1.], tx, ty)), lambda: pl.set_normal_from_angles(tx, ty)
            else:
                new, do = m.to(turned(m.n, tx, ty), m.c * math.cos(math.hypot(tx, ty)) + st["c"]), lambda: pl.set_plane_parameters(st["c"], tx, ty)
        had = pl.normal
        self.kept = self.kept[-12:] + [(had, np.array(had))]
        _, hit = self.guarded(st, do)
        if hit:
            w = [wrong(pl, m), wrong(pl, new)]
            if all(w):
                ctx.fail("half-changed", "step %d (%s) interrupted in %s leaves neither the plane before (%s) nor after (%s)" % (j, a, hit, w[0], w[1]))
            x[1] = new if w[0] else m
        else:
            x[1] = new
        self.changes += 1
        ctx.cover.add(a + "/" + str(st.get("as")))
        self.check(j, st, pl)

    def bad(self, j, st, pl):
        from meshmagick.mesh import Plane
        v = {"short": [1., 2.], "long": [1., 2., 3., 4.], "none": None, "text": "abc", "words": ["a", "b", "c"], "number": 3., "dict": {0: 1.},
             "rows": [[1., 0., 0.], [0., 1., 0.]]}[st["what"]]
        if st["on"] not in ("setn", "new") and st["what"] == "number" or st["on"] == "new" and v is None:
            return
        try:
            with np.errstate(all="ignore"):
                if st["on"] == "setn":
                    pl.normal = v
                elif st["on"] == "setc":
                    pl.c = v
                elif st["on"] == "rotate":
                    pl.rotate_normal(.1, v)
                elif st["on"] == "angles":
                    pl.set_normal_from_angles(v, .1)
                elif st["on"] == "params":
                    pl.set_plane_parameters(v, .1, .2)
                else:
                    Plane(v, 0.)
        except Exception as e:
            self.ctx.log(type(e).__name__)
            self.ctx.stats["fault:unusable-value"] += 1
            return
        self.ctx.fail("accepted", "step %d: %s accepted %r" % (j, st["on"], v))

    def use(self, j, st, pl):
        from meshmagick.mesh import Mesh
        from meshmagick.mesh_clipper import MeshClipper
        V, F = CUBE
        mesh = Mesh(np.array(V), np.array(F))

        def do():
            try:
                if st["how"] == "clip":
                    return MeshClipper(mesh, plane=pl).clipped_mesh
                return mesh.symmetrize(pl)
            except RuntimeError as e:
                self.ctx.log(str(e)[:60])
        self.guarded(st, do)

    def ask(self, j, st, q, pl, m):
        fail = lambda w: self.ctx.fail("wrong-answer", "step %d: %s of plane (%s, %r): %s" % (j, q, m.n, m.c, w))
        dt = st["dt"]
        P = np.round(np.array(st["p"])).astype(int) if dt == "int" else np.array(st["p"], dtype=float)
        arg = P.tolist() if dt == "list" and q not in ("coord",) else np.asfortranarray(P) if dt == "F" else P.copy()
        scale = 1. + float(np.abs(P).max()) * 2 + m.big
        t = 8 * m.tol * scale
        d = P.astype(float) @ np.array(m.n) - m.c
        if q == "dist":
            get = lambda: pl.get_point_dist_wrt_plane(arg)
        elif q == "dist1":
            get = lambda: pl.get_point_dist_wrt_plane(arg[0])
        elif q == "project":
            get = lambda: pl.orthogonal_projection_on_plane(arg)
        elif q == "edge":
            A, B = self.edge(st, m, dt)
            get = lambda: self.meet(pl, A, B)
        elif q == "coord":
            get = lambda: pl.coord_in_plane(arg)
        elif q == "origin":
            get = pl.get_origin
        elif q == "angles":
            get = pl.get_normal_orientation_wrt_z
        elif q == "str":
            get = lambda: str(pl)
        elif q in ("deepcopy", "copy"):
            get = lambda: getattr(copy, q)(pl)
        elif q == "pickle":
            get = lambda: pickle.loads(pickle.dumps(pl))
        else:
            get = lambda: getattr(pl, q)
        v, hit = self.guarded(st, get)
        if not np.array_equal(np.asarray(arg), P):
            fail("changed the points it was given")
        if hit:
            return
        self.ctx.stats["probe:answers"] += 1
        if q == "dist":
            if np.shape(v) != d.shape or not np.abs(v - d).max() <= t:
                fail("%s instead of %s for %s" % (v, d.tolist(), P.tolist()))
        elif q == "dist1":
            if np.ndim(v) or not abs(v - d[0]) <= t:
                fail("%r instead of %r for %s" % (v, d[0], P[0].tolist()))
        elif q == "project":
            e = P - d[:, None] * np.array(m.n)
            if np.shape(v) != e.shape or not np.abs(v - e).max() <= t:
                fail("%s instead of %s for %s" % (np.asarray(v).tolist(), e.tolist(), P.tolist()))
        elif q == "edge":
            self.judge_edge(fail, m, A, B, v)
        elif q == "coord":
            w = wrong_coord(m, P, v, t)
            if w:
                fail(w)
        elif q == "origin":
            e = np.array(m.n) * m.c
            if np.shape(v) != (3,) or not np.abs(v - e).max() <= t:
                fail("%s instead of %s" % (v, e.tolist()))
        elif q == "angles":
            w = wrong_angles(m, v)
            if w:
                fail(w)
        elif q == "str":
            for y in list(pl.normal) + [pl.c]:
                if "%f" % y not in v:
                    fail("does not show the values: %r" % v)
        elif q in ("deepcopy", "copy", "pickle"):
            if bits(v) != bits(pl):
                fail("is not the same plane")
            if st["keep"]:
                self.add(v, m.copy())
        elif q == "normal":
            self.kept = self.kept[-12:] + [(v, np.array(v))]
        if st["keep"] and q in ("dist", "project", "coord", "origin") and isinstance(v, np.ndarray):
            self.given.append(v)          # may be overwritten later, which is none of the plane's business

    def edge(self, st, m, dt):
        """An edge that crosses the plane at a known fraction u, or does not reach it."""
        u = st["u"][0]
        n, q = np.array(m.n), np.array(st["p"][0], dtype=float)
        foot = q - (dot(q.tolist(), m.n) - m.c) * n
        h = (1. + float(np.abs(q).max())) * (1 if st["u"][1] > .5 else -1)
        side = np.array(unit(cross(m.n, [.3, .5, .7]))) * h * st["u"][1]
        A = foot - u * h * n - u * side
        B = foot + (1 - u) * h * n + (1 - u) * side
        if dt == "int":
            A, B = np.round(A).astype(int), np.round(B).astype(int)
        return A, B

    def meet(self, pl, A, B):
        try:
            return pl.get_edge_intersection(A, B)
        except RuntimeError:
            return None

    def judge_edge(self, fail, m, A, B, v):
        A, B = np.array(A, dtype=float), np.array(B, dtype=float)
        a, b = (dot(x.tolist(), m.n) - m.c for x in (A, B))
        scale = 1. + np.abs([A, B]).max() + m.big
        t = 16 * m.tol * scale
        if min(abs(a), abs(b)) <= t or abs(a - b) <= 1e-3 * scale:
            return
        if a * b > 0:
            if v is not None:
                fail("%s met edge %s %s that does not reach the plane" % (v, A.tolist(), B.tolist()))
            return
        if v is None:
            fail("edge %s %s crosses the plane but no intersection is found" % (A.tolist(), B.tolist()))
        s = a / (a - b)
        e = (1 - s) * A + s * B
        if np.shape(v) != (3,) or not np.abs(v - e).max() <= t * scale / abs(a - b):
            fail("%s instead of %s for edge %s %s" % (v, e.tolist(), A.tolist(), B.tolist()))


def run(sc, ctx):
    s = Session(ctx)
    for j, st in enumerate(sc["steps"]):
        if s.pool or st["a"] == "new" and st["as"] not in ("returned", "own"):
            s.step(j, st)
            ctx.log(j, st["a"], len(s.pool), ["%.12g" % y for pl in s.pool for y in list(pl[0].normal) + [pl[0].c]])
    ctx.nontrivial = s.changes > 1


def shrink(sc):
    T = sc["steps"]
    for i in range(len(T) - 1, -1, -1):
        yield {"steps": T[:i] + T[i + 1:]}
    for i, st in enumerate(T):
        if "fault" in st:
            yield {"steps": T[:i] + [{k: v for k, v in st.items() if k != "fault"}] + T[i + 1:]}
        if st["a"] == "ask" and len(st["q"]) > 1:
            for q in st["q"]:
                yield {"steps": T[:i] + [dict(st, q=[q])] + T[i + 1:]}
        if st["a"] == "ask" and len(st["p"]) > 1:
            yield {"steps": T[:i] + [dict(st, p=st["p"][:1])] + T[i + 1:]}
