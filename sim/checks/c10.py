"""C10: derived data describe the current mesh after any session of operations and queries."""
from .. import meshsim as S

LEVEL = "exploration"
QUICK, THOROUGH = 3400, 300000
RULE = ("a scenario is one session of up to 14 operations on up to four meshes, with seeded queries between the operations, some of them ended by a keyboard interrupt; after every step seeded "
        "queries, and at the end all queries, are compared with a newly built mesh and with elementary definitions; non-trivial when at least one "
        "operation was applied to a mesh that had answered queries before")
REAL = ["meshmagick.mesh.Mesh (all operations and queries)", "meshmagick.inertia", "meshmagick.tools", "meshmagick.rotations"]
STUB = ["interrupts are raised by an opcode trace function, only where the interpreter polls for signals"]
ASSUMPTIONS = ["values of the newly built mesh are compared to rounding; normals and centres of faces smaller than 1e-5 of the squared mesh size are not compared",
               "an interrupted operation may leave the previous or the new geometry (C11 decides which); here only the derived data are judged"]
warm = S.warm


def gen(rng, i, tier):
    meshes = [S.gen_mesh(rng) for _ in range(rng.choice([1, 1, 2]))]
    names = S.INPLACE + S.MAKERS
    if rng.random() < 0.5:                # concentrate on a few operations
        names = rng.sample(S.INPLACE, 3) + rng.sample(S.MAKERS, 1)
    steps = []
    for _ in range(rng.randint(1, 14 if tier == "thorough" else 8)):
        op = S.gen_op(rng, names)
        op["q"] = rng.sample(S.QUERIES, rng.choice([0, 1, 1, 2, 3, len(S.QUERIES)]))
        op["q2"] = rng.sample(S.QUERIES, rng.choice([0, 0, 1, 2, 3]))
        op["k"] = rng.randrange(50)
        op["intr"] = int(10 ** rng.uniform(0, 3)) if rng.random() < .12 else 0      # interrupt the operation there
        op["qi"] = int(10 ** rng.uniform(0, 2.5)) if rng.random() < .12 else 0      # interrupt the queries there
        steps.append(op)
    return {"meshes": meshes, "steps": steps}


def build(sc):
    from meshmagick.mesh import Mesh
    return [Mesh(V, F) for V, F in sc["meshes"]]


def run(sc, ctx):
    from meshmagick.mesh import Mesh
    slots = build(sc)
    asked = set()
    for n, op in enumerate(sc["steps"]):
        m = slots[op["m"] % len(slots)]
        if m.nb_faces == 0 or m.nb_faces > 400:
            continue
        try:
            with S.maybe(op["qi"]):
                for q in op["q"]:
                    asked.add(id(m))
                    S.evaluate(m, q, op["k"])
        except KeyboardInterrupt:
            ctx.stats["fault:interrupted-query"] += 1
        if id(m) in asked:
            ctx.nontrivial = True
        try:
            with S.maybe(op["intr"]):
                r = S.do(m, op, slots[op.get("o", 0) % len(slots)])
            ctx.log(n, op["op"], m.nb_vertices, m.nb_faces)
            ctx.stats["probe:op-" + op["op"]] += 1
        except KeyboardInterrupt:
            r = None
            ctx.log(n, op["op"], "interrupted")
            ctx.stats["fault:interrupted-operation"] += 1
        except Exception as e:
            r = None
            ctx.log(n, op["op"], "raised", type(e).__name__)
            ctx.stats["probe:op-raised"] += 1
        r = r[0] if isinstance(r, tuple) else r
        if isinstance(r, Mesh):
            if len(slots) < 4:
                slots.append(r)
            else:
                slots[(op["m"] + 1) % 4] = r
        for x in slots:
            w = S.sound(x)
            if w:
                ctx.fail("incoherent-mesh", "after %s: %s" % (op["op"], w))
        for x in {id(y): y for y in (m, r if isinstance(r, Mesh) else m)}.values():
            if x.nb_faces:
                w = S.check_queries(x, op["q2"], op["k"])
                if w:
                    ctx.fail("stale-" + w[0], "step %d (%s): %s is %s" % (n, op["op"], w[0], w[1]))
                for q in op["q2"]:
                    ctx.cover.add(op["op"] + ">" + q)
                    asked.add(id(x))
    for j, m in enumerate(slots):
        if m.nb_faces and m.nb_faces <= 400:
            w = S.check_queries(m, S.QUERIES, 7)
            if w:
                ctx.fail("stale-" + w[0], "at the end, mesh %d: %s is %s" % (j, w[0], w[1]))
            ctx.log("end", j, m.nb_vertices, m.nb_faces, repr(float(m.vertices.sum())))


shrink = S.shrink
