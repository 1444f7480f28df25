"""C13: changing one mesh changes no other mesh, no result handed out before, and no array of the caller."""
import copy
import os

import numpy as np

from .. import meshsim as S, shim

LEVEL = "exploration"
QUICK, THOROUGH = 4000, 300000
RULE = ("a scenario is one session over a pool of up to six meshes built from arrays, loaded from files, copied, extracted, added, rebuilt from the "
        "arrays of another mesh or clipped; every array given or obtained is kept with its bytes; seeded operations (some interrupted or failing), "
        "in-place writes to the arrays of one mesh and in-place writes to arrays the caller passed in follow; after every step all other meshes "
        "and everything kept must be unchanged; non-trivial when an operation or write happened while another mesh or a kept value existed")
REAL = ["meshmagick.mesh.Mesh", "meshmagick.mesh_clipper.MeshClipper", "meshmagick.mmio loaders and writers", "meshmagick.inertia"]
STUB = ["interrupts are raised by an opcode trace function, only where the interpreter polls for signals"]
ASSUMPTIONS = ["writing into mesh.vertices or mesh.faces in place is a change of that mesh (its own cached data are then dropped by re-assigning the "
               "array); the arrays returned as vertices, faces or get_face of that same mesh follow it"]
FMTS = ["nat", "gdf", "stl", "mar", "pnl", "hst", "vtp", "obj"]
HELD = [q for q in S.QUERIES if q not in ("polydata",)] + ["vertices", "faces"]
DIRECT = ("vertices", "faces", "get_face")      # views of the geometry of the mesh itself


def warm():
    S.warm()
    import meshmagick.mmio, vtk  # noqa: F401,E401


def gen(rng, i, tier):
    meshes = [S.gen_mesh(rng, .7) for _ in range(rng.choice([1, 1, 2]))]
    names = S.INPLACE
    if rng.random() < .5:
        names = rng.sample(S.INPLACE, 4)
    steps = []
    for _ in range(rng.randint(2, 22 if tier == "thorough" else 12)):
        r = rng.random()
        st = {"m": rng.randrange(6), "k": rng.randrange(50)}
        if r < .38:
            st.update(a="op", op=S.gen_op(rng, names), intr=int(10 ** rng.uniform(0, 3)) if rng.random() < .1 else 0)
        elif r < .52:
            st.update(a="make", op=S.gen_op(rng, S.MAKERS), o=rng.randrange(6))
        elif r < .58:
            st.update(a="alias", how=rng.choice(["both", "vertices", "set_vertices", "set_faces"]), o=rng.randrange(6))
        elif r < .63:
            st.update(a="load", fmt=rng.choice(FMTS))
        elif r < .70:
            st.update(a="clip", p=S.gen_plane(rng), tol=rng.choice([1e-3, 1e-3, 1e-6]), which=rng.sample(["clipped_mesh", "lower_mesh", "upper_mesh", "crown_mesh", "clipped_crown_mesh"], 2))
        elif r < .74:
            st.update(a="replane", p=S.gen_plane(rng))
        elif r < .86:
            st.update(a="hold", q=rng.sample(HELD, rng.randint(1, 5)))
        elif r < .91:
            st.update(a="poke-src", s=rng.random(), i=rng.random())
        elif r < .95:
            st.update(a="poke-result", s=rng.random(), i=rng.random())
        else:
            st.update(a="poke-mesh", what=rng.choice(["vertices", "faces"]), i=rng.random())
        st["q"] = rng.sample(S.QUERIES, 3)
        steps.append(st)
    return {"meshes": meshes, "steps": steps}


def freeze(v):
    if isinstance(v, np.ndarray):
        return (v.dtype.str, v.shape, v.tobytes())
    if isinstance(v, dict):
        return tuple((freeze(a), freeze(b)) for a, b in sorted(v.items()))
    if isinstance(v, (set, frozenset)):
        return tuple(sorted(int(x) for x in v))
    if isinstance(v, (list, tuple)):
        return tuple(freeze(x) for x in v)
    if isinstance(v, np.generic):
        return (v.dtype.str, v.tobytes())
    return repr(v)


def arrays_in(v):
    if isinstance(v, np.ndarray):
        return [v]
    if isinstance(v, (list, tuple)):
        return [a for x in v for a in arrays_in(x)]
    return []


def scribbled(v, x, dry=False):
    """Write into an array, list or dictionary; whether there is anything to write to."""
    if isinstance(v, np.ndarray) and v.size and v.flags.writeable:
        if not dry:
            v.flat[int(x * v.size) % v.size] += 1
        return True
    if isinstance(v, dict) and v and isinstance(next(iter(v.values())), set):
        if not dry:
            k = sorted(v)[int(x * len(v)) % len(v)]
            v[k] ^= {0, 1}
        return True
    if isinstance(v, list) and v and isinstance(v[0], list):
        if not dry:
            v[int(x * len(v)) % len(v)].append(0)
        return True
    return False


class Pool:
    def __init__(self, ctx):
        self.ctx = ctx
        self.meshes = []          # live meshes
        self.geo = []             # their frozen geometry
        self.held = []            # [label, value, frozen, owner mesh or None, direct]
        self.src = []             # arrays of the caller: [label, array]
        self.clippers = []

    def add(self, m):
        if len(self.meshes) >= 6:
            del self.meshes[1], self.geo[1]
        self.meshes.append(m)
        self.geo.append(freeze([m.vertices, m.faces]))

    def hold(self, label, v, owner=None, direct=False):
        self.held.append([label, v, freeze(v), owner, direct])
        if len(self.held) > 60:
            del self.held[0]

    def source(self, label, a):
        self.src.append([label, a])
        self.hold(label, a)

    def moved(self, m):
        """m was changed on purpose."""
        for j, x in enumerate(self.meshes):
            if x is m:
                self.geo[j] = freeze([m.vertices, m.faces])

    def verify(self, what, target=None):
        for j, m in enumerate(self.meshes):
            if m is target:
                continue
            if freeze([m.vertices, m.faces]) != self.geo[j]:
                self.ctx.fail("other-mesh-changed", "%s changed the geometry of another mesh (%s)" % (what, m.name))
        for label, v, was, owner, direct in self.held:
            if freeze(v) != was:
                self.ctx.fail("kept-value-changed", "%s changed %s" % (what, label))


def run(sc, ctx):
    from meshmagick.mesh import Mesh, Plane
    from meshmagick.mesh_clipper import MeshClipper
    from meshmagick import mmio
    P = Pool(ctx)
    for n, (V, F) in enumerate(sc["meshes"]):
        v, f = np.array(V, dtype=float), np.array(F, dtype=int)
        P.source("the vertices given to mesh %d" % n, v)
        P.source("the faces given to mesh %d" % n, f)
        P.add(Mesh(v, f, name="mesh%d" % n))
    for n, st in enumerate(sc["steps"]):
        if not P.meshes:
            break
        m = P.meshes[st["m"] % len(P.meshes)]
        a = st["a"]
        if m.nb_faces == 0 or m.nb_faces > 300:
            continue
        target, what = None, "step %d (%s)" % (n, a)
        before = {id(x): copy.deepcopy(x) for x in P.meshes}
        if len(P.meshes) > 1 or P.held:
            ctx.nontrivial = True
        if a in ("op", "make"):
            op = st["op"]
            what = "step %d (%s%s)" % (n, op["op"], " of mesh %s" % m.name)
            other = P.meshes[st.get("o", 0) % len(P.meshes)]
            args = []
            target = m if a == "op" else None
            r, out = None, ""
            own = [("vertices", m.vertices), ("faces", m.faces)]
            own = [(k, x, freeze(x)) for k, x in own]
            try:
                with S.maybe(st.get("intr")):
                    r = S.do(m, op, other, args)
            except KeyboardInterrupt:
                out = "interrupted"
                ctx.stats["fault:interrupted-operation"] += 1
            except Exception as e:
                out = "raised " + type(e).__name__
                ctx.stats["probe:op-raised"] += 1
            for k, x, was in own:
                if freeze(x) != was:
                    ctx.fail("kept-value-changed", "%s changed the %s array obtained from the mesh before it" % (what, k))
            ctx.stats["probe:op-" + op["op"]] += 1
            ctx.log(n, op["op"], out, m.nb_vertices, m.nb_faces)
            if out and S.sound(m):
                break                                      # C11 judges this; nothing more can be asked of it
            for A in args:
                for arr, was in A:
                    if not np.array_equal(arr, was) and not out:
                        ctx.fail("argument-changed", "%s changed the array given to it" % what)
                    P.source("an array given to %s" % what, arr)
            if a == "op":
                P.moved(m)
            res = r if isinstance(r, (list, tuple)) else [r]
            for x in res:
                if isinstance(x, Mesh):
                    if any(x is y for y in P.meshes):
                        if a == "make":
                            ctx.fail("other-mesh-changed", "%s gave back an existing mesh: changing one is changing the other" % what)
                        continue
                    P.add(x)
                elif isinstance(x, np.ndarray):
                    P.hold("the array returned by %s" % what, x, m, True)
            ctx.cover.add(op["op"] + (":" + out if out else ""))
        elif a == "alias":
            o = P.meshes[st["o"] % len(P.meshes)]
            if st["how"] == "both":
                P.add(Mesh(o.vertices, o.faces))
            elif st["how"] == "vertices":
                P.add(Mesh(o.vertices, np.array(o.faces)))
            elif st["how"] == "set_vertices":
                if o.nb_vertices >= m.nb_vertices:
                    m.vertices = o.vertices
                    target = m
            elif m.faces.max() < o.nb_vertices:
                o.faces = m.faces
                target = o
            if target is not None:
                P.moved(target)
            ctx.cover.add("alias-" + st["how"])
        elif a == "load":
            p = os.path.join(ctx.dir, "m%d.%s" % (n, st["fmt"]))
            ctx.quiet = True
            try:
                mmio.write_mesh(p, m.vertices, m.faces, st["fmt"])
                v, f = mmio.load_mesh(p, st["fmt"])
                v2, f2 = mmio.load_mesh(p, st["fmt"])
            except Exception as e:                          # not the subject here (C01-C04)
                ctx.log(n, "load raised", type(e).__name__)
                continue
            P.source("the vertices loaded from a .%s file" % st["fmt"], v)
            P.source("the faces loaded from a .%s file" % st["fmt"], f)
            P.hold("the vertices of another load of that .%s file" % st["fmt"], v2)
            P.hold("the faces of another load of that .%s file" % st["fmt"], f2)
            P.add(Mesh(v, f, name="loaded%d" % n))
            ctx.cover.add("load-" + st["fmt"])
        elif a == "clip":
            nrm = np.array(st["p"][0], dtype=float)
            pl = Plane(nrm, st["p"][1])
            P.source("the normal given to a plane", nrm)
            P.hold("the normal of a plane", pl.normal)
            try:
                c = MeshClipper(m, pl, st["tol"])
            except Exception as e:
                ctx.log(n, "clip raised", type(e).__name__)
                c = None
                P.verify(what)
            if c is not None:
                for w in st["which"]:
                    x = getattr(c, w)
                    if any(x is y for y in P.meshes):
                        ctx.fail("other-mesh-changed", "%s of a clipper is another existing mesh: changing one is changing the other" % w)
                    if x.nb_faces:
                        P.add(x)
                        ctx.cover.add("clip-" + w)
                P.hold("the polygons of a clipper", c.closed_polygons)
                P.hold("the lines of a clipper", c.open_lines)
                P.hold("the polygon coordinates of a clipper", c.closed_polygons_vertices)
                P.clippers.append(c)
                ctx.stats["probe:clipped"] += 1
        elif a == "replane":
            if not P.clippers:
                continue
            try:
                P.clippers[st["k"] % len(P.clippers)].plane = Plane(st["p"][0], st["p"][1])
            except Exception as e:
                ctx.log(n, "replane raised", type(e).__name__)
        elif a == "hold":
            for q in st["q"]:
                try:
                    v = getattr(m, q) if q in ("vertices", "faces") else S.query(m, q, st["k"])
                except Exception:
                    continue
                P.hold("%s of mesh %s asked at step %d" % (q, m.name, n), v, m, q in DIRECT)
        elif a == "poke-src":
            if not P.src:
                continue
            label, arr = P.src[int(st["s"] * len(P.src)) % len(P.src)]
            if arr.size and arr.flags.writeable:
                i = int(st["i"] * arr.size) % arr.size
                arr.flat[i] = 0 if arr.dtype.kind in "iu" else arr.flat[i] + 0.5
                what = "writing into %s" % label
                for h in P.held:
                    if h[1] is arr:
                        h[2] = freeze(arr)
                ctx.stats["fault:write-to-given-array"] += 1
        elif a == "poke-result":               # in what a mesh answered
            for q in st["q"]:
                try:
                    P.hold("%s of mesh %s" % (q, m.name), S.query(m, q, st["k"]), m, q in DIRECT)
                except Exception:
                    pass
            c = [h for h in P.held if h[3] is not None and not h[4] and scribbled(h[1], st["i"], True)]
            if not c:
                continue
            label, v, _, target, _ = c[int(st["s"] * len(c)) % len(c)]
            P.held = [h for h in P.held if h[3] is not target]
            scribbled(v, st["i"])
            what = "writing into %s" % label
            P.verify(what, target)
            try:
                target.vertices = target.vertices              # it forgets what it had computed
            except Exception as e:
                ctx.log(n, type(e).__name__)
            P.moved(target)
            ctx.stats["fault:write-to-result"] += 1
        elif a == "poke-mesh":
            arr = getattr(m, st["what"])
            if not arr.flags.writeable:
                continue
            i = int(st["i"] * arr.size) % arr.size
            if st["what"] == "vertices":
                arr.flat[i] += 0.25
            else:
                arr[i // 4] = np.roll(arr[i // 4][::-1], 0)
            what = "writing into the %s of mesh %s" % (st["what"], m.name)
            # re-assigning drops the cached data; what was handed out as this very array follows it
            drop = [h for h in P.held if h[3] is m and h[4] and any(np.shares_memory(x, arr) for x in arrays_in(h[1]))]
            P.held = [h for h in P.held if not any(h is d for d in drop)]
            P.moved(m)
            P.verify(what, m)
            setattr(m, st["what"], arr)
            P.moved(m)
            target = m
            ctx.stats["fault:write-to-mesh-array"] += 1
        P.verify(what, target)
        for x in P.meshes:
            if x is not target and x.nb_faces and x.nb_faces <= 300:
                w = S.check_queries(x, st["q"], st["k"], False)
                b = before.get(id(x))
                # a mesh that already answered wrongly before this step is not the subject here (C10)
                if w and b is not None and not S.check_queries(b, [w[0]], st["k"], False):
                    ctx.fail("other-mesh-answers", "after %s mesh %s answers %s: %s" % (what, x.name, w[0], w[1]))
    for j, m in enumerate(P.meshes):
        ctx.log("end", j, m.nb_vertices, m.nb_faces, repr(float(m.vertices.sum())))


shrink = S.shrink
