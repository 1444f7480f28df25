"""C11: interrupted or failed mesh operations leave the mesh coherent and usable."""
import copy

import numpy as np

from .. import meshgen, meshsim as S, shim

LEVEL = "exploration"
QUICK, THOROUGH = 2000, 250000
RULE = ("a scenario is one session of up to 6 operations or queries on a mesh, most of them hit by an interrupt at a seeded point where CPython delivers "
        "signals, by a failing numpy allocation, or by an invalid argument; non-trivial when at least one fault made the operation fail")
REAL = ["meshmagick.mesh.Mesh operations and queries", "meshmagick.tools", "meshmagick.rotations", "numpy's own MemoryError path"]
STUB = ["interrupts are raised by an opcode trace function, only where the interpreter polls for signals", "malloc called by numpy fails through LD_PRELOAD (array data of 1 kB and more)"]
ASSUMPTIONS = ["an operation that raises for an invalid argument leaves the previous geometry", "requests below 1 kB are not failed (numpy serves them from a cache)"]

BAD = {"translate": [[1., 2.], ["a", "b", "c"], None], "rotate": [[1., 2.], None, ["a", 0, 0]], "rotate_matrix": [[[1., 0.], [0., 1.]], "abc"],
       "translate_x": ["a", None], "translate_y": ["a", None], "translate_z": [None, [1., 2.]],
       "scale": [-1., 0., "a", None], "scalex": [-2., None], "scaley": [0., "b"], "scalez": [-.5, "c"],
       "remove_degenerated_faces": [0., -1., "x"], "merge_duplicates": ["x", [1., 2.]], "symmetrize": [None, "Oxy"], "mirror": [None, "Oxz"],
       "set_vertices": ["abc", [[1., 2.], [3.]]], "set_faces": ["abc", None, [[0, 1, "x", 0]]], "add": ["x", None], "extract_faces": [[10 ** 6], "a"]}


def warm():
    S.warm()
    assert shim.alloc_setup() == 0


def big(rng):
    k = rng.randrange(3)
    if k == 0:
        V, F = meshgen.prism(rng, rng.randint(10, 14), 1., 2., 4)
    elif k == 1:
        V, F = meshgen.sphere(rng, 10, rng.randint(6, 7))
    else:
        V, F = meshgen.grid(rng, 7, rng.randint(6, 7))
    if rng.random() < .5:
        V = meshgen.rotate(V, rng)
    V = [[float("%.9g" % x) for x in v] for v in V]
    return [V, F] if rng.random() < .5 else S.dirty(rng, V, F)


def gen(rng, i, tier):
    alloc = rng.random() < 0.4
    meshes = [big(rng) if alloc else S.gen_mesh(rng)]
    if rng.random() < .3:
        meshes.append(S.gen_mesh(rng))
    steps = []
    names = S.INPLACE + S.MAKERS
    if rng.random() < .4:
        names = rng.sample(S.INPLACE, 3)
    for _ in range(rng.randint(1, 6 if tier == "thorough" else 4)):
        op = S.gen_op(rng, names)
        if rng.random() < .2:
            op = {"op": "query", "m": op["m"], "which": rng.choice(S.QUERIES)}
        op["q"] = rng.sample(S.QUERIES, rng.choice([0, 1, 2, 5, len(S.QUERIES)]))
        op["k"] = rng.randrange(50)
        u = rng.random()
        if u < .8:
            if alloc and rng.random() < .7:
                op["fault"] = {"kind": "alloc", "x": rng.choice([rng.random(), rng.random(), 1 - 1e-9, 1 - rng.random() ** 3]), "len": rng.choice([1, 1, 2, 10 ** 6])}
            elif rng.random() < .75 or op["op"] not in BAD:
                op["fault"] = {"kind": "interrupt", "x": rng.choice([rng.random(), rng.random(), 1 - rng.random() ** 3]), "exc": rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"]),
                               "more": [round(1 - rng.random() ** rng.choice([1, 1, 3]), 6) for _ in range(rng.choice([4, 8, 16]))]}
            else:
                op["fault"] = {"kind": "bad", "v": rng.choice(BAD[op["op"]])}
        steps.append(op)
    return {"meshes": meshes, "steps": steps}


def execute(m, op, other):
    if op["op"] == "query":
        return S.query(m, op["which"], op["k"])
    return S.do(m, op, other)


def bad_call(m, op, v):
    n = op["op"]
    if n == "set_vertices":
        m.vertices = v
    elif n == "set_faces":
        m.faces = v
    elif n == "add":
        return m + v
    elif n == "merge_duplicates":
        m.merge_duplicates(atol=v)
    else:
        getattr(m, n)(v)


def state(m):
    return np.array(m.vertices), np.array(m.faces)


def same_state(m, s):
    V, F = m.vertices, m.faces
    return (np.shape(V) == s[0].shape and np.shape(F) == s[1].shape and np.array_equal(F, s[1])
            and (np.array_equal(V, s[0]) or bool(np.all(np.abs(V - s[0]) <= 1e-12 * (1 + np.abs(s[0]))))))


def outcome(fn):
    try:
        return None, fn()
    except Exception as e:
        return e, None


def run(sc, ctx):
    from meshmagick.mesh import Mesh
    L = shim.lib()
    slots = [Mesh(V, F) for V, F in sc["meshes"]]
    for n, op in enumerate(sc["steps"]):
        m = slots[op["m"] % len(slots)]
        o = slots[op.get("o", 0) % len(slots)]
        if not 0 < m.nb_faces <= 250 or (op["op"] == "add" and m.nb_faces + o.nb_faces > 250):
            continue
        for q in op["q"]:
            S.evaluate(m, q, op["k"])
        fl = op.get("fault")
        label = op["which"] if op["op"] == "query" else op["op"]
        before = state(m)
        obefore = state(o)
        # what the undisturbed operation does, on a clone with the same derived data
        clone = copy.deepcopy(m)
        other = clone if o is m else copy.deepcopy(o)
        kind = fl["kind"] if fl else "none"
        count = 0
        if kind == "interrupt":
            with S.Interrupter() as I:
                e0, r0 = outcome(lambda: execute(clone, op, other))
            count = I.n
        elif kind == "alloc":
            L.fs_alloc_plan(1, 1024, -1, 0)
            e0, r0 = outcome(lambda: execute(clone, op, other))
            L.fs_alloc_off()
            count = L.fs_alloc_count()
        else:
            e0, r0 = outcome(lambda: execute(clone, op, other))
        after = state(clone)
        for x in fl.get("more", []) if fl else []:           # the same operation hit elsewhere, on copies
            c = copy.deepcopy(m)
            oc = c if o is m else copy.deepcopy(o)
            ce = None
            with S.Interrupter(1 + int(x * count), {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[fl["exc"]]) as I:
                try:
                    execute(c, op, oc)
                except (Exception, KeyboardInterrupt) as e:
                    ce = e
            if ce is None:
                continue
            ce.__traceback__ = None
            ctx.stats["fault:" + fl["exc"]] += 1
            if not same_state(c, before) and not same_state(c, after):
                ctx.fail("mixed-geometry", "step %d, %s interrupted: the mesh holds neither the previous nor the new geometry (%s vertices, %s faces; before %s, %s; after %s, %s)" % (
                    n, label, np.shape(c.vertices), np.shape(c.faces), before[0].shape, before[1].shape, after[0].shape, after[1].shape))
            if oc is not c and not same_state(oc, obefore):
                ctx.fail("operand-changed", "step %d, %s interrupted: the other operand changed" % (n, label))
            w = S.sound(c)
            if w:
                ctx.fail("mixed-geometry", "step %d, %s interrupted: %s" % (n, label, w))
            w = S.check_queries(c, S.CORE, op["k"])
            if w:
                ctx.fail("stale-" + w[0], "step %d, %s interrupted: afterwards %s is %s" % ((n, label) + w))
        # the real operation, with its fault
        err = None
        try:
            if kind == "interrupt":
                at = 1 + int(fl["x"] * count)
                exc = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[fl["exc"]]
                with S.Interrupter(at, exc) as I:
                    res = execute(m, op, o)
            elif kind == "alloc":
                L.fs_alloc_plan(1, 1024, int(fl["x"] * count), fl["len"])
                try:
                    res = execute(m, op, o)
                finally:
                    L.fs_alloc_off()
            elif kind == "bad":
                res = bad_call(m, op, fl["v"])
            else:
                res = execute(m, op, o)
        except (Exception, KeyboardInterrupt) as e:
            e.__traceback__ = None
            err = e
        ctx.log(n, label, kind, type(err).__name__ if err is not None else "ok", count)
        if err is not None and kind != "none":
            ctx.nontrivial = True
            ctx.stats["fault:" + (kind if kind != "interrupt" else fl["exc"])] += 1
            ctx.cover.add("%s/%s" % (label, kind))
        where = "step %d, %s %s (%s)" % (n, label, "interrupted" if kind == "interrupt" else "with " + kind + " fault",
                                         type(err).__name__ if err is not None else "completed")
        if kind == "bad":
            if err is None:
                ctx.fail("invalid-argument-accepted", "%s accepted %r" % (label, fl["v"])) if op["op"] in ("scale", "scalex", "scaley", "scalez") else None
                if S.sound(m):
                    return
            elif not same_state(m, before):
                ctx.fail("mixed-geometry", "%s: the geometry changed although the argument was refused" % where)
        elif not same_state(m, before) and not same_state(m, after):
            ctx.fail("mixed-geometry", "%s: the mesh holds neither the previous nor the new geometry (%s vertices, %s faces; before %s, %s; after %s, %s)" % (
                where, np.shape(m.vertices), np.shape(m.faces), before[0].shape, before[1].shape, after[0].shape, after[1].shape))
        elif err is None and e0 is None and not same_state(m, after):
            ctx.fail("lost-operation", "%s: reported success without the new geometry" % where)
        if o is not m and not same_state(o, obefore):
            ctx.fail("operand-changed", "%s: the other operand changed" % where)
        w = S.sound(m)
        if w:
            ctx.fail("mixed-geometry", "%s: %s" % (where, w))
        # asking fills what is missing: half of the time a copy answers, and the mesh goes on as the fault left it
        w = S.check_queries(copy.deepcopy(m) if op["k"] % 2 else m, S.QUERIES, op["k"])
        if w:
            ctx.fail("stale-" + w[0], "%s: afterwards %s is %s" % (where, w[0], w[1]))
        if err is not None and kind != "none":
            # the same operation must now work normally
            ref = S.fresh(m)
            e1, r1 = outcome(lambda: execute(ref, op, ref if o is m else S.fresh(o)))
            e2, r2 = outcome(lambda: execute(m, op, o))
            if (e1 is None) != (e2 is None):
                ctx.fail("unusable-afterwards", "%s: repeating it %s" % (where, "raised %s: %s" % (type(e2).__name__, e2) if e2 is not None else "succeeded although a new mesh refuses"))
            if not same_state(m, state(ref)):
                ctx.fail("unusable-afterwards", "%s: repeating it gave another geometry than on a newly built mesh" % where)
            r2 = r2[0] if isinstance(r2, tuple) else r2
            r1 = r1[0] if isinstance(r1, tuple) else r1
            if isinstance(r1, Mesh) and isinstance(r2, Mesh):
                if not same_state(r2, state(r1)):
                    ctx.fail("unusable-afterwards", "%s: repeating it produced another mesh" % where)
                if r2.nb_faces <= 250 and len(slots) < 3:
                    slots.append(r2)
            w = m.nb_faces and S.check_queries(copy.deepcopy(m), S.QUERIES if op["k"] % 4 == 1 else S.CORE, op["k"])
            if w:
                ctx.fail("stale-" + w[0], "%s, then repeated: %s is %s" % (where, w[0], w[1]))


shrink = S.shrink
