"""C12: a session of mesh operations refines the elementary definitions on plain lists."""
import numpy as np

from .. import meshsim as S, refmesh as R

LEVEL = "exploration"
QUICK, THOROUGH = 5000, 300000
RULE = ("a scenario is one session of up to 16 operations on up to four meshes with seeded, sometimes interrupted queries in between; after each operation the mesh is "
        "compared with the elementary definition applied to plain lists; non-trivial when at least one operation was compared after a query")
REAL = ["meshmagick.mesh.Mesh operations", "meshmagick.tools.merge_duplicate_rows", "meshmagick.rotations.cardan_to_rotmat", "meshmagick.mesh.Plane"]
STUB = ["interrupts are raised by an opcode trace function, only where the interpreter polls for signals"]
ASSUMPTIONS = ["the reference is re-synchronised with the real mesh after each agreed step, so that rounding does not accumulate",
               "steps where a coordinate gap or a face area lies within a factor of the tolerance used by the operation are not compared"]
warm = S.warm


def gen(rng, i, tier):
    meshes = [S.gen_mesh(rng, 0.45) for _ in range(rng.choice([1, 2]))]
    if rng.random() < .1:                 # in other units
        s = 10 ** rng.uniform(-5, -2)
        meshes = [[[[float("%.9g" % (x * s)) for x in v] for v in V], F] for V, F in meshes]
    if rng.random() < .12:                # rows of vertices at distances around the tolerance
        for m in meshes:
            V, F = [list(v) for v in m[0]], [list(f) for f in m[1]]
            e = rng.choice([1e-8, 1e-5, 1e-3])
            for f in F:
                for o in set(f):
                    if rng.random() < .4:
                        V.append([x + rng.choice([0., 0., .4, .7, 1.3, -.6]) * e for x in V[o]])
                        f[:] = [len(V) - 1 if x == o else x for x in f]
            m[:] = [V, F]
    names = S.INPLACE + S.MAKERS
    if rng.random() < 0.4:
        names = rng.sample(names, 5)
    steps = []
    for n in range(rng.randint(2, 16 if tier == "thorough" else 10)):
        op = S.gen_op(rng, names)
        op["q"] = rng.sample(S.QUERIES, rng.choice([0, 0, 1, 2, 4]))
        op["k"] = rng.randrange(50)
        if n == 0 and rng.random() < .15:
            op.update(S.gen_op(rng, ["merge_duplicates"]))
        op["qi"] = int(10 ** rng.uniform(0, 2.5)) if rng.random() < .1 else 0       # interrupt the queries there
        if op["op"] in ("symmetrize", "mirror") and rng.random() < 0.3:
            op["p"][1] = 0.
        steps.append(op)
    return {"meshes": meshes, "steps": steps}


def run(sc, ctx):
    from meshmagick.mesh import Mesh
    slots = [Mesh(V, F) for V, F in sc["meshes"]]
    for n, op in enumerate(sc["steps"]):
        m = slots[op["m"] % len(slots)]
        o = slots[op.get("o", 0) % len(slots)]
        if not 0 < m.nb_faces <= 250 or (op["op"] == "add" and m.nb_faces + o.nb_faces > 250):
            continue
        try:
            with S.maybe(op["qi"]):
                for q in op["q"]:
                    S.evaluate(m, q, op["k"])
        except KeyboardInterrupt:
            ctx.stats["fault:interrupted-query"] += 1
        V, F = m.vertices.tolist(), m.faces.tolist()
        if max(abs(x) for v in V for x in v) > 1e5 or R.total_area(V, F) < 1e-11:
            continue
        ref = S.reference(op, V, F, (o.vertices.tolist(), o.faces.tolist()))
        err = None
        try:
            res = S.do(m, op, o)
        except Exception as e:
            err, res = e, None
        r = res[0] if isinstance(res, tuple) else res
        ctx.log(n, op["op"], type(err).__name__ if err else "ok", m.nb_vertices, m.nb_faces)
        ctx.stats["probe:op-" + op["op"]] += 1
        if err is not None:
            if op["op"] in ("heal_normals", "heal_mesh"):
                ctx.stats["probe:not-a-manifold"] += 1       # documented limitation, reported to the caller
                if op["op"] == "heal_normals" and all(len(set(f)) == (3 if f[0] == f[3] else 4) for f in F) and clean(F):
                    ctx.fail("operation-failed", "step %d %s on a sound surface raised %s: %s" % (n, op["op"], type(err).__name__, err))
                continue
            ctx.fail("operation-failed", "step %d %s raised %s: %s" % (n, op["op"], type(err).__name__, err))
        target = r if op["op"] in S.MAKERS else m
        if not isinstance(target, Mesh):
            ctx.fail("wrong-geometry", "step %d %s returned %r" % (n, op["op"], res))
        if op["op"] in S.MAKERS:
            if target is m or m.vertices.tolist() != V or m.faces.tolist() != F:
                ctx.fail("operand-changed", "step %d %s changed its operand" % (n, op["op"]))
        if ref is None:
            ctx.stats["probe:ambiguous-step"] += 1
            w = S.sound(target) or merged(op, V, F, target, res)
        else:
            if op["q"]:
                ctx.nontrivial = True
            w = S.compare_ref(op, ref, target, res) or indices(op, V, F, target, res)
            ctx.cover.add(op["op"] + "/" + ref[0] + ("/q" if op["q"] else ""))
        if w:
            ctx.fail("wrong-geometry", "step %d %s: %s" % (n, op["op"], w))
        if op["q"]:             # a mesh that never answered a query goes the same way
            t = Mesh(np.array(V), np.array(F))
            x = S.do(t, op, t if o is m else Mesh(o.vertices.copy(), o.faces.copy()))
            x = (x[0] if isinstance(x, tuple) else x) if op["op"] in S.MAKERS else t
            if not np.array_equal(x.faces, target.faces) or not S.close(x.vertices, target.vertices, 1e-12 * (1e-6 + np.abs(x.vertices).max(initial=0.))):
                ctx.fail("depends-on-queries", "step %d %s: another geometry on a mesh that was never asked for %s" % (n, op["op"], op["q"]))
        if r is not m and isinstance(r, Mesh):
            if len(slots) < 4:
                slots.append(r)
            else:
                slots[(op["m"] + 1) % 4] = r
    for m in slots:
        ctx.log(m.nb_vertices, m.nb_faces, repr(float(m.vertices.sum())))


def clean(F):
    """Every edge used at most twice and no two faces share more than one edge or two vertices."""
    if any(len(u) > 2 or len({i for i, _ in u}) < len(u) for u in R.edges(F).values()):
        return False
    for i, f in enumerate(F):
        for g in F[i + 1:]:
            if len(set(f) & set(g)) > 2:
                return False
            if len(set(f) & set(g)) == 2:
                a, b = sorted(set(f) & set(g))
                ef = R.edges([f]); eg = R.edges([g])
                if (a, b) not in ef or (a, b) not in eg:
                    return False
    return True


def merged(op, V, F, m, res):
    """What a merge does to vertices at any distance from each other: none goes farther than the tolerance."""
    if op["op"] != "merge_duplicates":
        return None
    if m.nb_faces != len(F):
        return "%d faces instead of %d" % (m.nb_faces, len(F))
    d = np.abs(m.vertices[m.faces] - np.array(V)[np.array(F)]).max(initial=0.)
    if d > 1.0001 * (op["atol"] or 1e-8):
        return "a vertex has moved by %g while merging vertices closer than %g" % (d, op["atol"] or 1e-8)
    return indices(op, V, F, m, res)


def indices(op, V, F, m, res):
    """Index tables returned next to the geometry."""
    if op["op"] == "merge_duplicates" and op["ri"]:
        ids = np.asarray(res)
        W = m.vertices
        if ids.shape != (len(V),):
            return "index table has shape %s" % (ids.shape,)
        if ids.min() < 0 or ids.max() >= len(W) or np.abs(W[ids] - np.array(V)).max() > 1.01 * (op["atol"] or 1e-8):
            return "the index table does not map vertices to their representative"
        if not np.array_equal(ids[np.array(F)], m.faces):
            return "faces were not renumbered with the returned table"
    if op["op"] == "extract_index":
        idv = np.asarray(res[1])
        if idv.shape != (m.nb_vertices,) or not np.array_equal(np.array(V)[idv], m.vertices):
            return "returned vertex indices do not give the extracted vertices"
        want = np.array(F)[S.face_ids(op, len(F))]
        if not np.array_equal(idv[m.faces], want):
            return "extracted faces are not the requested ones in order"
    if op["op"] in ("rotate", "rotate_x", "rotate_y", "rotate_z"):
        a = op["a"] if op["op"] == "rotate" else [op["a"] if op["op"][-1] == c else 0. for c in "xyz"]
        if not S.close(res, R.rotmat(*a), 1e-12):
            return "returned rotation matrix is %s" % np.asarray(res).tolist()
    return None


shrink = S.shrink
