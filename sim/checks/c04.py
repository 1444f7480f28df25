"""C04: torn files and failing reads never silently yield a partial or altered mesh."""
import json
import os

import numpy as np

from .. import clilib, core, formats, iolib, shim

LEVEL = "fault_enumeration"
QUICK, THOROUGH = 6000, 300000
RULE = ("a scenario is a file of a random mesh in any readable format, damaged by a cut at a chosen byte (fractions biased to the end and to "
        "line ends) and/or a read-side system-call failure (open, n-th read, transient or persistent) under a read-size cap, loaded through "
        "the library or the command line; non-trivial when bytes were removed or a fault fired")
REAL = ["meshmagick.mmio readers", "meshmagick.cli.main", "CPython file objects", "VTK readers", "h5py/HDF5", "gmshparser"]
STUB = ["read failures come from the LD_PRELOAD disk simulator", "files of read-only formats are produced by our own writers"]
ASSUMPTIONS = ["damage is a prefix truncation (what an interrupted writer or copy leaves) or a failing call, not arbitrary corruption"]
warm = clilib.warm
ALL = formats.RW + formats.RO


def gen(rng, i, tier):
    fmt = ALL[i % len(ALL)]
    sc = {"fmt": fmt, "mesh": iolib.gen_io_mesh(rng, fmt), "via": "lib" if rng.random() < 0.85 else "cli", "part": 0}
    k = rng.random()
    sc["cut"] = None
    sc["fault"] = None
    if k < 0.72:
        sc["cut"] = {"mode": rng.choice(["frac", "frac", "tail", "line", "token", "record"]), "x": rng.random(), "n": rng.randint(0, 40)}
        if fmt == "inp" and rng.random() < .7:
            sc["part"] = 1
    if sc["cut"] is None or rng.random() < 0.05:
        sc["fault"] = {"kind": rng.choice(["openr", "read", "read-sticky", "read-sticky", "read-from", "read-from"]), "frac": rng.random(), "errno": rng.choice(iolib.ERR_READ)}
        if sc["fault"]["kind"] == "read-from" and fmt == "inp":
            sc["part"] = 1
        # the disk fails once a chosen part of the file was delivered, often at the end of a line
        sc["fault"]["at"] = {"mode": rng.choice(["frac", "line", "line", "record", "record", "token"]), "x": rng.random(), "n": rng.randint(0, 40)}
    sc["read_cap"] = rng.choice([None, None, None, 16, 100, 1000])
    if fmt not in ("wrl", "vtu", "vtp") and rng.random() < .2:      # (the readers of VTK crash on some of these: C05)
        sc.update(cut=None, fault=None, alter=[rng.choice(["digit", "digit", "count"]), "", rng.random(), rng.randint(0, 60)])
        if fmt == "inp":
            sc["part"] = rng.randrange(2)
    return sc


RECORDS = (b"facet", b"<Piec", b"<Poin", b"<Cell", b"<Poly", b"<Data", b"CELLS", b"CELL_", b"POINT", b"POLYG", b"ZONE ", b"*ELEM", b"$Elem")


def cut_at(data, cut):
    n = len(data)
    m = cut["mode"]
    if m == "frac":
        return int(cut["x"] * n)
    if m == "tail":
        return max(0, n - 1 - cut["n"])
    if m == "line":
        pos = [i + 1 for i, b in enumerate(data) if b == 10]
        return pos[int(cut["x"] * len(pos))] if pos else n // 2
    if m == "record":        # before a line that opens a record (a facet, an element of a markup, a section)
        pos = [i + 1 for i in range(n - 1) if data[i] == 10 and data[i + 1:i + 40].lstrip()[:5] in RECORDS]
        if pos:
            return pos[int(cut["x"] * len(pos))]
        return cut_at(data, dict(cut, mode="line"))
    pos = [i for i in range(1, n) if data[i] in b" \t\n" and data[i - 1] not in b" \t\n"]
    return pos[int(cut["x"] * len(pos))] if pos else n // 2


def prepare(ctx, sc):
    """Create the sound file; returns (main path, all paths)."""
    from meshmagick import mmio
    fmt = sc["fmt"]
    d = ctx.dir + "disk/"
    os.mkdir(d)
    if fmt in formats.RW:
        V, F = iolib.arrays(sc["mesh"])
        ext = fmt.replace("diodore-", "")
        p = d + "in." + (ext.upper() if fmt == "diodore-dat" else ext)
        shim.begin(d, {"clock": [10**18, 0], "clock_mode": 2})   # some writers put the date into the file, others the name
        try:
            mmio.write_mesh(os.path.relpath(p), V, F, fmt)
        finally:
            shim.end()
        return d, p, [p]
    main, paths = iolib.ro_files(fmt, sc["mesh"][0], sc["mesh"][1], d)
    return d, main, paths


def polys_of(fmt, V, F, ctx):
    return formats.polys(V, F)


def run(sc, ctx):
    from meshmagick import mmio
    fmt = sc["fmt"]
    sca = iolib.scale_of(sc["mesh"])
    d, main, paths = prepare(ctx, sc)
    kf = formats.keyfmt(fmt)
    V, F = iolib.arrays(sc["mesh"])
    want = formats.polys(V, F)
    victim = paths[min(sc["part"], len(paths) - 1)]
    plan = {"read_cap": sc["read_cap"], "rules": [], "max_ops": 400000}
    # the sound file must load, otherwise the scenario means nothing
    shim.begin(d, {"read_cap": sc["read_cap"]})
    try:
        v, f = mmio.load_mesh(main, kf)
    except Exception as e:
        shim.end()
        ctx.fail("sound-file-fails", "%s: a sound file is refused: %s: %s" % (fmt, type(e).__name__, e))
    n = shim.report()["kinds"]
    shim.end()
    e = iolib.compare(fmt, want, v, f, sca)
    if e:
        ctx.fail("sound-file-differs", "%s: a sound file is misread: %s" % (fmt, e))
    strict = None
    cutinfo = ""
    if sc["cut"]:
        data = open(victim, "rb").read()
        c = cut_at(data, sc["cut"])
        with open(victim, "wb") as h:
            h.write(data[:c])
        cutinfo = "cut at %d of %d bytes, ends with %r" % (c, len(data), data[max(0, c - 50):c])
        if len(paths) == 1:
            strict = formats.strict_parse(fmt, data[:c])
        elif victim != main:
            strict = inp_strict(data[:c])
        if c < len(data):
            ctx.nontrivial = True
            ctx.stats["fault:torn-file"] += 1
    altered = False
    if sc.get("alter"):
        from . import c05
        data = open(victim, "rb").read()
        new = c05.damage(data, sc["alter"])
        altered = new != data
        if altered:
            with open(victim, "wb") as h:
                h.write(new)
            ctx.nontrivial = True
            ctx.stats["fault:altered-number"] += 1
            j = next(k for k in range(len(new)) if data[k:k + 1] != new[k:k + 1])
            cutinfo = "altered at byte %d: %r instead of %r" % (j, new[max(0, j - 20):j + 20], data[max(0, j - 20):j + 20])
    f = sc["fault"]
    if f:
        k = "openr" if f["kind"] == "openr" else "read"
        nth = int(f["frac"] * n.get(k, 1))
        sub = ""
        if f["kind"] == "read-from":
            now = open(victim, "rb").read()
            plan["read_cap"] = max(1, cut_at(now, f["at"])) if now else 1
            nth, sub = 1, os.path.basename(victim)
        plan["rules"].append({"kinds": [k], "nth": nth, "action": "sticky" if f["kind"] != "read" and k == "read" else "errno", "param": f["errno"], "sub": sub})
    died = False
    if sc["via"] == "lib":
        def load():
            shim.begin(d, plan)
            try:
                v, g = mmio.load_mesh(main, kf)
                res = (v, g)
                err = None
            except Exception as e:
                res, err = None, type(e).__name__
            rep = shim.report()
            shim.end()
            return res, err, rep
        if fmt == "wrl" and f:
            # the VRML scanner inside VTK may end the process: give it one of its own
            def body(w):
                res, err, rep = load()
                os.write(w, json.dumps([res and [res[0].tolist(), res[1].tolist()], err, rep]).encode())
            st, out = core.fork_call(body)
            if out:
                res, err, rep = json.loads(out)
            else:
                res, err, rep, died = None, "process exit %d" % st, {"fired": [1]}, True
        else:
            res, err, rep = load()
        code = None
    else:
        out = ctx.dir + "out.msh_like.nat"
        r = clilib.run(ctx, [main, "-ifmt", kf, "-o", out, "-q"], ctx.dir, prefix=d, plan=plan)
        rep = r["report"] or {"fired": [1 if f else 0], "kinds": {}}
        code = r["code"]
        err = r["err"] if code else None
        res = None
        if code == 0:
            if not os.path.exists(out):
                ctx.fail("silent-damage", "%s: exit status 0 without output on %s" % (fmt, cutinfo))
            P = formats.strict_parse("nat", open(out, "rb").read())
            if P is None:
                ctx.fail("silent-damage", "%s: %s: exit status 0 but the output is not a mesh" % (fmt, cutinfo))
            res = P
    fired = sum(rep["fired"])
    if fired:
        ctx.nontrivial = True
        ctx.stats["fault:" + f["kind"]] += 1
    ctx.cover.add("%s/%s/%s/%s" % (fmt, sc["via"], (sc["cut"] or {}).get("mode"), "raise" if err else "return"))
    ctx.log(fmt, bool(err), fired, cutinfo)
    if died:
        ctx.fail("process-exit", "%s: a read error ends the calling process (%s) instead of raising" % (fmt, err), key="process-exit:" + fmt)
    if err:
        ctx.stats["outcome:raised"] += 1
        if not fired and not altered and not (sc["cut"] and c < len(data)):
            ctx.fail("sound-file-fails", "%s: refused although nothing was wrong: %s" % (fmt, err))
        return
    if altered:
        if sc["via"] == "lib":
            v, g = res
            if not len(g):
                ctx.fail("silent-damage", "%s: %s: loaded as a mesh without faces" % (fmt, cutinfo))
            if (g.min() < 0 or g.max() >= len(v)):
                ctx.fail("silent-damage", "%s: %s: the faces refer to vertices %d to %d of %d" % (fmt, cutinfo, g.min(), g.max(), len(v)))
            if not np.isfinite(v).all():
                ctx.fail("silent-damage", "%s: %s: loaded with coordinates that are not numbers" % (fmt, cutinfo))
        ctx.stats["outcome:altered"] += 1
        return
    if sc["via"] == "lib":
        def same(w):
            return iolib.compare(fmt, w, res[0], res[1], sca)
    else:
        cmpf = formats.same_triangulated if fmt == "stl" else formats.same_polys

        def same(w):
            return cmpf(formats.dedupe(w), formats.dedupe(res), formats.tol(fmt, sca) + 1e-6 * sca)
    e1 = same(want)
    if e1 is None:
        ctx.stats["outcome:intact"] += 1
        return
    if strict is not None:
        if fmt == "stl":
            e2 = same(strict)
        else:
            e2 = same(strict)
        if e2 is None:
            ctx.stats["outcome:complete-prefix"] += 1
            return
        ctx.fail("silent-damage", "%s (%s): %s; returned mesh is neither the original (%s) nor what the remaining text says (%s)" % (fmt, sc["via"], cutinfo, e1, e2))
    ctx.fail("silent-damage", "%s (%s): %s%s: loaded without error but the mesh is not the original: %s" % (
        fmt, sc["via"], cutinfo, " read fault %s fired" % f["kind"] if fired else "", e1))


def inp_strict(data):
    """Nodes and elements on complete lines of a raw DAT file (no counts, no end marks in that format)."""
    t = data.decode()
    if "*RETURN" not in t:
        return None
    a, b = t.split("*RETURN", 1)
    try:
        V = [tuple(float(x) for x in l.split()[1:]) for l in a.strip("\n").split("\n")]
        P = [formats._poly(V, [int(x) - 1 for x in l.split()[1:]]) for l in b[:b.rfind("\n") + 1].split("\n") if l[:1] == " "]
    except (ValueError, formats.Bad):
        return None
    return P or None


def shrink(sc):
    if sc["read_cap"]:
        yield dict(sc, read_cap=None)
    if sc["via"] == "cli":
        yield dict(sc, via="lib")
    if sc["cut"] and sc["fault"]:
        yield dict(sc, fault=None)
        yield dict(sc, cut=None)
    if sc.get("alter") and (sc["cut"] or sc["fault"]):
        yield dict(sc, cut=None, fault=None)
    for m in iolib.shrink_mesh(sc["mesh"]):
        yield dict(sc, mesh=m)
