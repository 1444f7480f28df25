"""C06: loading and writing leave arrays, mesh objects, other files and descriptors as they were, also when they fail."""
import contextlib
import os

import numpy as np

from .. import clilib, core, formats, iolib, meshsim, shim
from . import c04

LEVEL = "fault_enumeration"
QUICK, THOROUGH = 6000, 300000
RULE = ("a scenario is one library load or write of a random mesh in a random format in a directory holding other files, with torn "
        "input, read, write, open, close failures, keyboard interrupts or a full disk placed at a chosen call (or none); arrays are given in several memory layouts or "
        "through a Mesh object; non-trivial when a fault fired, bytes were lost or the call succeeded with non-default layout")
REAL = ["meshmagick.mmio readers and writers", "meshmagick.mesh.Mesh", "CPython file objects", "VTK", "h5py/HDF5"]
STUB = ["system-call failures and descriptor accounting come from the LD_PRELOAD disk simulator"]
ASSUMPTIONS = ["descriptors are inspected after the exception has been dropped, as an ordinary caller would find them"]
warm = clilib.warm
CHANGING = ("openw", "write", "rename", "link", "symlink", "unlink", "rmdir", "truncate", "ftruncate")


def gen(rng, i, tier):
    op = rng.choice(["load", "load", "write"])
    fmt = (c04.ALL if op == "load" else formats.RW)[i % (len(c04.ALL) if op == "load" else len(formats.RW))]
    sc = {"op": op, "fmt": fmt, "mesh": iolib.gen_io_mesh(rng, fmt), "part": rng.choice([0, 0, 1]) if fmt == "inp" else 0,
          "cut": None, "fault": None, "layout": rng.choice(["C", "C", "F", "int32", "int32F", "readonly", "mesh", "mesh", "strided"]),
          "write_cap": rng.choice([None, None, 64]), "read_cap": rng.choice([None, None, 16, 1000])}
    if op == "load":
        if rng.random() < 0.45:
            sc["cut"] = {"mode": rng.choice(["frac", "tail", "line", "token"]), "x": rng.random(), "n": rng.randint(0, 40)}
        if rng.random() < 0.4:
            sc["fault"] = {"kind": rng.choice(["openr", "read", "read-sticky"]), "frac": rng.random(), "errno": rng.choice(iolib.ERR_READ)}
        if not sc["cut"] and not sc["fault"] and rng.random() < .4:
            sc["fault"] = {"kind": "interrupt", "frac": rng.random()}
    elif rng.random() < 0.8:
        k = rng.choice(["openw", "write", "write-sticky", "budget", "closew", "interrupt"])
        sc["fault"] = {"kind": k, "frac": rng.random(), "errno": rng.choice(iolib.ERR_WRITE)}
    sc["existing"] = rng.random() < 0.3
    sc["zero"] = rng.randrange(1000) if rng.random() < .4 else None
    return sc


def layout(V, F, how):
    if how == "F":
        return np.asfortranarray(V), np.asfortranarray(F)
    if how == "int32":
        return V, F.astype(np.int32)
    if how == "int32F":
        return np.asfortranarray(V), np.asfortranarray(F.astype(np.int32))
    if how == "strided":
        W = np.zeros((2 * len(V), 3)); W[::2] = V
        G = np.zeros((2 * len(F), 4), dtype=int); G[::2] = F
        return W[::2], G[::2]
    if how == "readonly":
        V.flags.writeable = False
        F.flags.writeable = False
    return V, F


def desc(a):
    return (a.dtype.str, a.shape, a.strides, a.flags.writeable, a.tobytes())


def run(sc, ctx):
    from meshmagick import mmio
    from meshmagick.mesh import Mesh
    fmt, op, flt = sc["fmt"], sc["op"], sc["fault"]
    kf = formats.keyfmt(fmt)
    plan = {"rules": [], "write_cap": sc["write_cap"], "read_cap": sc["read_cap"], "max_ops": 400000}
    held = []
    if op == "load":
        d, main, paths = c04.prepare(ctx, sc)
        if sc["cut"]:
            victim = paths[min(sc["part"], len(paths) - 1)]
            data = open(victim, "rb").read()
            c = c04.cut_at(data, sc["cut"])
            with open(victim, "wb") as h:
                h.write(data[:c])
            ctx.stats["fault:torn-file"] += 1
            ctx.nontrivial = True
        out = None

        def call():
            return mmio.load_mesh(main, kf)
    else:
        d = ctx.dir + "disk/"
        os.mkdir(d)
        ext = fmt.replace("diodore-", "")
        out = "out." + (ext.upper() if fmt == "diodore-dat" else ext)
        V, F = iolib.arrays(sc["mesh"])
        if sc.get("zero") is not None:                 # a negative zero is a value like another
            V.ravel()[sc["zero"] % V.size] = -0.
        if sc["layout"] == "mesh":
            m = Mesh(V, F, name="m")
            # query something so that caches exist too
            m.faces_centers
            V, F = m.vertices, m.faces
            held = [("mesh vertices", m._vertices, desc(m._vertices)), ("mesh faces", m._faces, desc(m._faces))]
            for k, v in sorted(m.__internals__.items()):
                if isinstance(v, np.ndarray):
                    held.append(("mesh " + k, v, desc(v)))
        else:
            V, F = layout(V, F, sc["layout"])
            ctx.nontrivial |= sc["layout"] != "C"
        held += [("vertices", V, desc(V)), ("faces", F, desc(F))]
        if sc["existing"]:
            with open(d + out, "wb") as h:
                h.write(b"old\n" * 100)

        def call():
            return mmio.write_mesh(d + out, V, F, fmt)
    for n in ("neighbour.dat", "out.bak", "in.bak", "other.tmp"):
        with open(d + n, "w") as h:
            h.write("do not touch %s\n" % n)
    point = None
    if flt:
        k = flt["kind"]
        # count the calls of the fault-free run in a process of its own, then place the fault

        def count(w):
            shim.begin(d, {"write_cap": sc["write_cap"], "read_cap": sc["read_cap"]})
            intr = meshsim.Interrupter() if k == "interrupt" else contextlib.nullcontext()
            try:
                with intr:
                    call()
            except Exception:
                pass
            r = shim.report()["kinds"]
            r["interrupt"] = getattr(intr, "n", 0)
            shim.end()
            os.write(w, core.json.dumps([r, os.path.getsize(d + out) if out and os.path.exists(d + out) else 0]).encode())
        before = iolib.snapshot(d)
        st, o = core.fork_call(count)
        n, size = core.json.loads(o) if o else ({}, 0)
        for f in os.listdir(d):
            if f not in before:
                os.unlink(d + f)
        for f, b in before.items():
            with open(d + f, "wb") as h:
                h.write(b)
        if k == "interrupt":
            point = 1 + int(flt["frac"] * n.get(k, 1))
        elif k == "budget":
            plan["budget"] = int(flt["frac"] * size)
        else:
            kk = k.replace("-sticky", "")
            plan["rules"].append({"kinds": [kk], "nth": int(flt["frac"] * n.get(kk, 1)), "action": "sticky" if k.endswith("sticky") else "errno", "param": flt["errno"]})
    before = iolib.snapshot(d)
    where = []

    def body(w=None):
        err = ""
        shim.begin(d, plan)
        intr = meshsim.maybe(point)
        try:
            with intr:
                res = call()
            del res
        except (Exception, KeyboardInterrupt) as e:
            err = type(e).__name__
        if getattr(intr, "where", None):
            where.append(intr.where)
        rep = shim.report()
        rep["log"] = [l for l in shim.log().split("\n") if l.split(" ")[0] in CHANGING]
        fds = shim.open_fds()
        shim.end()
        if w is not None:
            os.write(w, core.json.dumps([err, rep, fds]).encode())
        return err, rep, fds
    if fmt == "wrl":            # may end the process, see KNOWN_FINDINGS (C04)
        st, o = core.fork_call(lambda w: body(w) and None)
        err, rep, fds = core.json.loads(o) if o else ("exit", {"fired": [1], "budget_hits": 0, "hash": "", "log": []}, [])
    else:
        err, rep, fds = body()
    fired = sum(rep["fired"]) + rep["budget_hits"] + len(where)
    if flt and fired:
        ctx.stats["fault:" + flt["kind"]] += 1
        ctx.nontrivial = True
    what = "%s %s (%s%s)" % (op, fmt, "raised " + err if err else "succeeded", ", fault %s" % " at ".join([flt["kind"]] + where) if flt and fired else "")
    ctx.log(what, rep["hash"], len(fds))
    ctx.cover.add("%s/%s/%s/%s" % (op, fmt, flt["kind"] if flt and fired else ("cut" if sc["cut"] else "-"), "raise" if err else "ok"))
    if fds:
        ctx.fail("descriptor-left-open", "%s left open: %s" % (what, fds),
                 key="vtk-importer-open:wrl" if fmt == "wrl" and fired and flt["kind"] == "openr" else None)
    for name, a, was in held:
        now = desc(a)
        if now != was:
            ctx.fail("argument-changed", "%s with layout %s changed the %s passed in: %s" % (
                what, sc["layout"], name, "values" if now[:4] == was[:4] else "%s -> %s" % (was[:4], now[:4])))
    for l in rep["log"]:
        f = l.split(" ")[1]
        if f in before and f != out:
            ctx.fail("other-file-touched", "%s: %s was opened for writing (%s)" % (what, f, l))
    if op == "write" and err and not fired:
        ctx.fail("write-raises", "%s with layout %s without any fault" % (what, sc["layout"]))
    after = iolib.snapshot(d)
    for f in sorted(set(before) | set(after)):
        if before.get(f, 0) != after.get(f, 0) and f != out:
            ctx.fail("other-file-touched", "%s: %s was %s" % (what, f, "created" if f not in before else "removed" if f not in after else "modified"))
    extra = [f for f in os.listdir(ctx.dir) if f != "disk"]
    if extra:
        ctx.fail("other-file-touched", "%s: working directory now holds %s" % (what, extra))


def shrink(sc):
    if sc["read_cap"] or sc["write_cap"]:
        yield dict(sc, read_cap=None, write_cap=None)
    if sc["cut"]:
        yield dict(sc, cut=None)
    if sc["fault"]:
        yield dict(sc, fault=None)
    if sc["layout"] not in ("C", "mesh"):
        yield dict(sc, layout="C")
    if sc["existing"]:
        yield dict(sc, existing=False)
    for m in iolib.shrink_mesh(sc["mesh"]):
        yield dict(sc, mesh=m)
