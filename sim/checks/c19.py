"""C19: expressing an inertia at other points is reversible and path independent (sessions with faults)."""
import copy
import pickle

import numpy as np

from .. import formats, meshsim as S, refmesh as R
from . import c15, c17

LEVEL = "exploration"
QUICK, THOROUGH = 6000, 400000
RULE = ("a scenario is one session over a pool of inertias (given values, solids, plain and shell inertias of meshes, copies, at_cog results): reduction points "
        "moved along paths through given, returned and later overwritten arrays, inertias shifted to their centre of gravity, centres of gravity renamed, "
        "unusable values, reads and copies, each possibly interrupted or refused memory at a chosen signal-delivery point; after every step every inertia is "
        "compared with the rigid body it was made from (kept as plain numbers); non-trivial when a reduction point moved at least twice")
REAL = ["meshmagick.inertia.RigidBodyInertia and its solids", "meshmagick.mesh.Mesh.eval_plain_mesh_inertias and eval_shell_mesh_inertias"]
STUB = ["interrupts and MemoryErrors are raised by an opcode trace function, only where the interpreter polls for signals"]
ASSUMPTIONS = ["coordinates and masses stay within twelve decades", "plain inertias of meshes are judged on closed meshes with planar convex faces"]
SHAPES = dict(c15.SOLIDS + [("cube", 1), ("rectangular_prism", 3), ("right_rectangular_pyramid", 3), ("elliptical_cylinder", 3), ("right_angle_wedge", 3),
                            ("isoceles_wedge", 3), ("hemisphere", 1), ("total_cylindrical_shell", 2), ("hollow_sphere", 2)])
NREADS = ["mass", "gravity_center", "inertia_matrix", "reduction_point", "xx", "yy", "zz", "yz", "xz", "xy", "str", "at_cog", "is_at_cog", "deepcopy", "pickle", "copy"]


def warm():
    S.warm()
    import meshmagick.inertia  # noqa: F401


def point(rng):
    k = rng.random()
    if k < .1:
        return [0, 0, 0]
    m = rng.choice([1., 1., 10., 1e3, 1e-3])
    p = [float("%.6g" % (m * rng.uniform(-1, 1))) for _ in range(3)]
    if k < .25:
        p = [int(round(3 * x / m)) for x in p]
    elif k < .4:
        p = [x if rng.random() < .4 else 0. for x in p]
    return p


def gen_body(rng):
    k = rng.random()
    if k < .45:
        m = float("%.6g" % 10 ** rng.uniform(-2, 7))
        s = m * rng.choice([1e-2, 1., 1., 1e4])
        return {"a": "new", "m": m, "cog": point(rng), "I": [float("%.8g" % (s * rng.uniform(.1, 1))) for _ in range(3)] + [float("%.8g" % (s * rng.uniform(-.2, .2))) for _ in range(3)],
                "point": point(rng) if rng.random() < .6 else None, "as": rng.choice(["list", "tuple", "array", "array", "int", "row"])}
    if k < .65:
        n = rng.choice(sorted(SHAPES))
        return {"a": "solid", "n": n, "x": sorted(round(rng.uniform(.5, 3), 3) for _ in range(SHAPES[n]))}
    return {"a": "mesh", "w": rng.choice(["plain", "shell"]), "mesh": c15.hull(rng), "rho": rng.choice([None, 1., 1025., 7850]), "t": rng.choice([None, .01])}


def gen(rng, i, tier):
    steps = [gen_body(rng)]
    for _ in range(rng.randint(2, 26 if tier == "thorough" else 14)):
        r = rng.random()
        st = {"o": rng.randrange(8)}
        if r < .09:
            st.update(gen_body(rng))
        elif r < .50:
            st.update(a="move", p=point(rng), **{"as": rng.choice(["list", "tuple", "array", "array", "returned-cog", "returned-point", "own-cog", "row", "back", "near", "near"])}, d=10 ** -rng.uniform(3, 13))
        elif r < .60:
            st.update(a="shift")
        elif r < .68:
            st.update(a="setcog", p=point(rng), **{"as": rng.choice(["list", "tuple", "array", "array", "returned-point", "returned-cog", "near"])}, d=10 ** -rng.uniform(3, 13))
        elif r < .76:
            st.update(a="scribble", i=rng.random(), v=rng.choice([0., 7., -1e3]))
        elif r < .82:
            st.update(a="bad", what=rng.choice(["short", "long", "none", "text", "words", "number", "column", "dict"]), on=rng.choice(["move", "move", "setcog", "new"]))
        else:
            st.update(a="read", q=rng.sample(NREADS, rng.randint(1, 5)), keep=rng.random() < .6)
        if rng.random() < .2:
            st["fault"] = [rng.random(), rng.choice(["KeyboardInterrupt", "MemoryError"])]
        steps.append(st)
    return {"steps": steps}


# ------------------------------------------------------------------ the body
def huygens(m, a, b):
    """Matrix to add to the inertia at the mass centre a to have it at b."""
    d = [a[k] - b[k] for k in range(3)]
    q = sum(x * x for x in d)
    return [[m * (q * (i == j) - d[i] * d[j]) for j in range(3)] for i in range(3)]


class Body:
    def __init__(self, m, G, I, P):
        """Mass, mass centre, inertia matrix I expressed at P."""
        self.m, self.G, self.P, self.C = m, [float(x) for x in G], [float(x) for x in P], [float(x) for x in G]
        H = huygens(m, self.G, self.P)
        self.I = [[float(I[i][j]) - H[i][j] for j in range(3)] for i in range(3)]
        self.scale = 0.
        self.steps = 1
        self.grow(self.P)

    def grow(self, p):
        self.scale = max(self.scale, abs(self.m) * (sum(x * x for x in self.G) + sum(x * x for x in p)) * 2 + max(abs(x) for r in self.I for x in r), 1e-300)

    def copy(self):
        return copy.deepcopy(self)

    def at(self, P):
        H = huygens(self.m, self.G, P)
        return [[self.I[i][j] + H[i][j] for j in range(3)] for i in range(3)]

    def wrong(self, m, cog, P, mat):
        """What differs, or None."""
        if m != self.m:
            return "mass %r instead of %r" % (m, self.m)
        if list(cog) != self.C:
            return "gravity centre %s instead of %s" % (list(cog), self.C)
        if list(P) != self.P:
            return "reduction point %s instead of %s" % (list(P), self.P)
        e = self.at(self.P)
        t = 3e-15 * (self.steps + 20) * self.scale
        if np.shape(mat) != (3, 3) or not (np.abs(np.array(mat) - np.array(e)) <= t).all():
            return "inertia matrix at %s is %s instead of %s (mass centre %s, mass %r)" % (self.P, np.array(mat).tolist(), e, self.G, self.m)
        return None


# ------------------------------------------------------------------ session
def fields(o):
    return float(o.mass), np.array(o.gravity_center), np.array(o.reduction_point), np.array(o.inertia_matrix)


def bits(o):
    return tuple(np.asarray(x, dtype=float).tobytes() for x in fields(o))


class Session:
    def __init__(self, ctx):
        self.ctx, self.pool, self.given, self.moves = ctx, [], [], 0

    def value(self, st, o):
        """The argument of a step, and the point it means."""
        p, how = st["p"], st["as"]
        if how == "back":
            b = self.pool[st["o"] % len(self.pool)][1]
            p = b.first
            return list(p), p
        if how == "near":
            b = self.pool[st["o"] % len(self.pool)][1]        # hardly anywhere else than now
            q = b.P if st["a"] == "move" else b.C
            v = [x + st["d"] * y for x, y in zip(q, p)]
        elif how == "returned-cog":
            v = self.pool[(st["o"] + 1) % len(self.pool)][0].gravity_center
        elif how == "own-cog":
            v = o.gravity_center
        elif how == "returned-point":
            v = self.pool[(st["o"] + 1) % len(self.pool)][0].reduction_point
        elif how == "array":
            v = np.array(p, dtype=float)
        elif how == "row":
            v = np.array([p, p], dtype=float)[1]          # a view of a bigger array
        elif how == "tuple":
            v = tuple(p)
        else:
            v = list(p)
        if isinstance(v, (np.ndarray, list)):
            self.given.append(v)
        return v, [float(x) for x in v]

    def add(self, o, b):
        b.first = list(b.P)
        if len(self.pool) >= 8:
            self.pool.pop(0)
        self.pool.append([o, b])

    def check(self, j, st, changed=None):
        """Every inertia still describes its body; those not concerned are the same to the last bit."""
        for k, x in enumerate(self.pool):
            o, b = x[0], x[1]
            w = b.wrong(*fields(o))
            if w:
                self.ctx.fail("wrong-inertia", "after step %d (%s): inertia %d: %s" % (j, st["a"], k, w))
            now = bits(o)
            if len(x) > 2 and o is not changed and now != x[2]:
                self.ctx.fail("changed-by-others", "step %d (%s) changed inertia %d by rounding: %s" % (j, st["a"], k, fields(o)))
            x[2:] = [now]

    def make(self, st):
        from meshmagick import inertia
        from meshmagick.mesh import Mesh
        if st["a"] == "new":
            xx, yy, zz, yz, xz, xy = st["I"]
            c, p = st["cog"], st["point"]
            if st["as"] == "tuple":
                c, p = tuple(c), p and tuple(p)
            elif st["as"] in ("array", "row"):
                c, p = np.array(c, dtype=float), p and np.array(p, dtype=float)
            elif st["as"] == "int":
                c, p = np.array(np.round(c), dtype=int), p and np.array(np.round(p), dtype=int)
            C, P = [float(x) for x in c], [float(x) for x in (c if p is None else p)]

            def do():
                self.given += [x for x in (c, p) if isinstance(x, (list, np.ndarray))]
                return inertia.RigidBodyInertia(st["m"], c, xx, yy, zz, yz, xz, xy, **({} if p is None else {"point": p}))
            return do, lambda o: Body(st["m"], C, [[xx, -xy, -xz], [-xy, yy, -yz], [-xz, -yz, zz]], P)
        if st["a"] == "solid":
            return (lambda: getattr(inertia, st["n"])(*st["x"])), lambda o: Body(float(o.mass), [0., 0., 0.], np.array(o.inertia_matrix).tolist(), [0., 0., 0.])
        V, F = st["mesh"]
        m = Mesh(V, F)
        kw = {} if st["rho"] is None else {"rho_medium": st["rho"]}
        if st["w"] == "shell" and st["t"] is not None:
            kw["thickness"] = st["t"]

        def body(o):
            X = np.array(V)
            planar = c17.planar_convex(formats.polys(X, np.array(F)))
            r, c, M = (R.solid_of if st["w"] == "plain" else R.shell_of)(V, F)
            d = 1023. if st["rho"] is None else float(st["rho"])
            if st["w"] == "shell":
                d = (7850. if st["rho"] is None else float(st["rho"])) * (.02 if st["t"] is None else st["t"])
            s = float(np.abs(X).max())
            f = fields(o)
            if planar and r > 1e-3 * s ** 3:
                self.ctx.stats["probe:mesh-" + st["w"]] += 1
                if abs(f[0] - d * r) > 1e-7 * d * s ** 3:
                    self.ctx.fail("mesh-inertia", "%s mass %r instead of %r" % (st["w"], f[0], d * r))
                if np.abs(f[1] - c).max() > 1e-7 * s ** 4 / r:
                    self.ctx.fail("mesh-inertia", "%s centre %s instead of %s" % (st["w"], f[1], c))
                if list(f[2]) != [0., 0., 0.] or np.abs(f[3] - d * np.array(M)).max() > 1e-7 * d * s ** 5 * max(1., s ** 3 / r):
                    self.ctx.fail("mesh-inertia", "%s inertia matrix at %s is %s instead of %s at the origin" % (st["w"], f[2], f[3].tolist(), (d * np.array(M)).tolist()))
                g = fields(o.at_cog)
                e = Body(f[0], c, (d * np.array(M)).tolist(), [0., 0., 0.]).I
                if np.abs(g[3] - e).max() > 1e-7 * d * s ** 5 * max(1., s ** 3 / r):
                    self.ctx.fail("mesh-inertia", "%s inertia matrix at the centre of gravity is %s instead of %s" % (st["w"], g[3].tolist(), e))
            return Body(f[0], f[1].tolist(), f[3].tolist(), f[2].tolist())
        return (lambda: getattr(m, "eval_%s_mesh_inertias" % st["w"])(**kw)), body

    def act(self, st, o, b):
        """The call of the step and what it makes of the body."""
        a = st["a"]
        if a == "move":
            v, p = self.value(st, o)

            def do():
                o.reduction_point = v
            return do, {"P": p}
        if a == "shift":
            return o.shift_at_cog, {"P": list(b.C)}
        v, p = self.value(st, o)
        return (lambda: o.set_cog(v)), {"C": p}

    def guarded(self, st, do):
        """Run do(), faulted if the step says so; returns (result, exception)."""
        f = st.get("fault")
        if not f:
            return do(), None
        # count the delivery points on copies, then hit one of them
        keep = copy.deepcopy([x[0] for x in self.pool]), list(self.given)
        live = [x[0] for x in self.pool]
        with S.Interrupter() as I:
            do()
        n = I.n
        for o, k in zip(live, keep[0]):
            o.__dict__.clear()
            o.__dict__.update(k.__dict__)
        self.given = keep[1]
        exc = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[f[1]]
        with S.Interrupter(1 + int(f[0] * n), exc) as I:
            try:
                r = do()
            except exc as e:
                e.__traceback__ = None
                self.ctx.stats["fault:" + f[1]] += 1
                self.ctx.log("hit", I.where)
                return None, I.where
        return r, None

    def step(self, j, st):
        ctx, a = self.ctx, st["a"]
        ctx.stats["probe:step-" + a] += 1
        changed = None
        if a in ("new", "solid", "mesh"):
            do, body = self.make(st)
            o, hit = self.guarded(st, do)
            if not hit:
                self.add(o, body(o))
            return self.check(j, st)
        x = self.pool[st["o"] % len(self.pool)]
        o, b = x[0], x[1]
        if a in ("move", "shift", "setcog"):
            do, new = self.act(st, o, b)
            _, hit = self.guarded(st, do)
            after = b.copy()
            after.__dict__.update(copy.deepcopy(new))
            after.grow(after.P)
            after.steps += 1
            if hit:
                f = fields(o)
                w = [b.wrong(*f), after.wrong(*f)]
                if all(w):
                    ctx.fail("half-moved", "step %d (%s) interrupted in %s leaves neither the state before (%s) nor after (%s)" % (j, a, hit, w[0], w[1]))
                x[1] = after if not w[1] else b
                x[1].grow(after.P)
                changed = o
            else:
                x[1] = after
                changed = o
                if a != "setcog":
                    self.moves += 1
            ctx.cover.add(a + "/" + str(st.get("as")))
        elif a == "scribble":
            g = [v for v in self.given if isinstance(v, list) or v.flags.writeable]
            if g:
                for v in (g if st["i"] < .5 else [g[int(st["i"] * len(g)) % len(g)]]):
                    if isinstance(v, list):
                        v[:] = [st["v"]] * len(v)
                    else:
                        v[...] = st["v"]
                self.given = []
        elif a == "bad":
            self.bad(j, st, o)
        elif a == "read":
            for q in st["q"]:
                self.read(j, st, q, x)
        else:
            raise KeyError(a)
        self.check(j, st, changed)

    def bad(self, j, st, o):
        v = {"short": [1., 2.], "long": [1., 2., 3., 4.], "none": None, "text": "abc", "words": ["a", "b", "c"], "number": 3., "column": [[1.], [2.], [3.]],
             "dict": {0: 1., 1: 2., 2: 3.}}[st["what"]]
        if st["on"] != "move" and st["what"] == "column":
            return
        try:
            if st["on"] == "move":
                o.reduction_point = v
            elif st["on"] == "setcog":
                o.set_cog(v)
            else:
                from meshmagick.inertia import RigidBodyInertia
                if v is None:
                    return
                RigidBodyInertia(1., v, 1., 1., 1., 0., 0., 0.)
        except Exception as e:
            self.ctx.log(type(e).__name__)
            self.ctx.stats["fault:unusable-value"] += 1
            return
        self.ctx.fail("accepted", "step %d: %s accepted %r" % (j, st["on"], v))

    def read(self, j, st, q, x):
        o, b = x[0], x[1]
        fail = lambda w: self.ctx.fail("wrong-reading", "step %d: %s of inertia %s: %s" % (j, q, self.pool.index(x), w))
        if q == "str":
            get = lambda: str(o)
        elif q in ("deepcopy", "copy"):
            get = lambda: getattr(copy, q)(o)
        elif q == "pickle":
            get = lambda: pickle.loads(pickle.dumps(o))
        elif q == "is_at_cog":
            get = o.is_at_cog
        else:
            get = lambda: getattr(o, q)
        v, hit = self.guarded(st, get)
        if hit:
            return
        m, C, P, M = fields(o)
        e = {"xx": M[0, 0], "yy": M[1, 1], "zz": M[2, 2], "yz": -M[1, 2], "xz": -M[0, 2], "xy": -M[0, 1], "mass": m}
        if q in e:
            if v != e[q]:
                fail("%r instead of %r" % (v, e[q]))
        elif q == "is_at_cog":
            if bool(v) != (list(C) == list(P)):
                fail("%r with centre %s and reduction point %s" % (v, C, P))
        elif q in ("gravity_center", "inertia_matrix", "reduction_point"):
            if st["keep"]:
                self.given.append(v)
        elif q in ("deepcopy", "copy", "pickle"):
            if bits(v) != bits(o):
                fail("is not the same inertia")
            if st["keep"]:
                self.add(v, b.copy())
                self.pool[-1][1].first = b.first
        elif q == "at_cog":
            c = b.copy()
            c.P = list(b.C)
            c.grow(c.P)
            c.steps += 1
            w = c.wrong(*fields(v))
            if w:
                fail(w)
            if v is o:
                fail("is the inertia itself")
            if st["keep"]:
                self.add(v, c)
        elif q == "str":
            if "%.6E" % m not in v or any("%.6E" % y not in v for y in list(C) + list(P) + M.ravel().tolist()):
                fail("does not show the values: %r" % v)


def run(sc, ctx):
    s = Session(ctx)
    for j, st in enumerate(sc["steps"]):
        s.step(j, st) if s.pool or st["a"] in ("new", "solid", "mesh") else None
        ctx.log(j, st["a"], len(s.pool), [["%.12g" % float(y) for y in np.ravel(z)] for z in fields(s.pool[-1][0])] if s.pool else "")
    ctx.nontrivial = s.moves > 1


def shrink(sc):
    T = sc["steps"]
    n = len(T)
    k = max(1, n // 2)
    while True:
        for i in range(0, n, k):
            yield dict(sc, steps=T[:i] + T[i + k:])
        if k == 1:
            break
        k //= 2
    for i, x in enumerate(T):
        if x.get("fault"):
            yield dict(sc, steps=T[:i] + [{a: b for a, b in x.items() if a != "fault"}] + T[i + 1:])
        if len(x.get("q") or []) > 1:
            for q in x["q"]:
                yield dict(sc, steps=T[:i] + [dict(x, q=[q])] + T[i + 1:])
