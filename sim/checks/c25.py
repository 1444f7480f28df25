"""C25: files laid out by other programs, read under a benign but unhelpful I/O schedule, give the mesh they describe."""
import os
import random

import numpy as np

from .. import clilib, core, foreign, formats, iolib, shim

LEVEL = "exploration"
QUICK, THOROUGH = 8000, 160000
RULE = ("a scenario is a random mesh laid out in a readable format the way another program may do it (node numbers sorted or not, consecutive or "
        "not, number formats, white space, line ends, optional sections, several bodies, points and lines beside the faces, text, binary, "
        "appended or compressed data) or a file with cells the arrays cannot hold, read under a schedule of short and interrupted reads by the "
        "library or the command line; non-trivial when the schedule altered a transfer or the layout is not the one meshmagick writes")
REAL = ["meshmagick.mmio readers", "meshmagick.cli.main", "CPython file objects", "VTK readers", "h5py/HDF5", "gmshparser"]
STUB = ["short/interrupted reads come from the LD_PRELOAD disk simulator", "the other programs are independent writers (and VTK's writers)"]
ASSUMPTIONS = ["ASCII files; the half a MAR, NAT or GDF file lists is what is expected when it declares a symmetry; RAD files have at least three elements (the reader refuses shorter ones); coordinates up to 1e3 with six decimals"]
warm = clilib.warm
UNSUPPORTED = {"vtp": ["strip", "pentagon"], "vtk": ["strip", "pentagon"], "vtu": ["tetra", "pixel", "pentagon"], "obj": ["pentagon"], "pnl": ["symmetry"],
               "msh2": ["version"], "tec": ["triangles"]}


def base(fmt):
    return {"stlb": "stl", "vtkb": "vtk"}.get(fmt, fmt)


def gen(rng, i, tier):
    fmt = foreign.ALL[i % len(foreign.ALL)]
    V, F = iolib.gen_io_mesh(rng, base(fmt))
    W = [[round(x, 6) for x in v] for v in V]
    if len({tuple(w) for w in W}) == len({tuple(v) for v in V}):
        V = W
    else:                           # a tiny mesh
        V = [[round(x * 1e4, 6) for x in v] for v in V]
    sc = {"fmt": fmt, "mesh": [V, F], "st": foreign.style(rng, fmt), "plan": iolib.benign_plan(rng) if rng.random() < .7 else {},
          "via": "cli" if rng.random() < .1 else "lib", "not": None, "alias": rng.choice(formats.ALIASES.get(base(fmt), [formats.keyfmt(base(fmt))]))}
    if fmt == "wrl":                # an interrupted read makes VTK's VRML scanner end the process (KNOWN_FINDINGS, C04)
        sc["plan"].get("rules", [])[:] = [r for r in sc["plan"].get("rules", []) if r["action"] != "eintr"]
    if fmt in UNSUPPORTED and rng.random() < .15:
        sc["not"] = rng.choice(UNSUPPORTED[fmt])
    return sc


def foreign_cells(fmt, kind):
    """A file whose cells are neither triangles nor quadrangles (or whose layout is none meshmagick knows)."""
    if fmt == "obj":
        return b"v 0. 0. 0.\nv 1. 0. 0.\nv 1.5 1. 0.\nv .5 2. 0.\nv -.5 1. 0.\nf 1 2 3 4 5\nf 1 2 3\n"
    V, F = [[0., 0., 0.], [1., 0., 0.], [1., 1., 0.], [0., 1., 0.]], [[0, 1, 2, 3]]
    st = {"num": "fix", "eol": "\n", "tail": 0, "sep": " ", "lead": "", "ids": "seq", "extra": 0, "seed": 0}
    if fmt == "pnl":
        return foreign.emit(fmt, V, F, st, random.Random(0)).replace(b"1 4 0 0", b"1 4 1 0")
    if fmt == "msh2":
        return foreign.emit(fmt, V, F, st, random.Random(0)).replace(b"2.2 0 8", b"1.0 0 8")
    if fmt == "tec":
        return foreign.emit(fmt, V, F, st, random.Random(0)).replace(b"ET=QUADRILATERAL", b"ET=TRIANGLE")
    import vtk
    pts = vtk.vtkPoints()
    n = {"strip": 4, "pentagon": 5, "tetra": 4, "pixel": 4}[kind]
    for p in [[0., 0., 0.], [1., 0., 0.], [0., 1., 0.], [1., 1., 0.5], [-.5, .5, 0.]][:n]:
        pts.InsertNextPoint(p)
    c = vtk.vtkCellArray()
    c.InsertNextCell(n)
    for k in ([0, 1, 3, 2, 4] if kind == "pentagon" else range(n)):
        c.InsertCellPoint(k)
    if fmt == "vtu":
        g = vtk.vtkUnstructuredGrid()
        g.SetPoints(pts)
        g.SetCells([{"tetra": 10, "pixel": 8, "pentagon": 7}[kind]], c)
        w = vtk.vtkXMLUnstructuredGridWriter()
    else:
        g = vtk.vtkPolyData()
        g.SetPoints(pts)
        (g.SetStrips if kind == "strip" else g.SetPolys)(c)
        w = vtk.vtkXMLPolyDataWriter() if fmt == "vtp" else vtk.vtkPolyDataWriter()
    w.SetInputData(g)
    return foreign.output(w)


def run(sc, ctx):
    from meshmagick import mmio
    fmt, b = sc["fmt"], base(sc["fmt"])
    V, F = sc["mesh"]
    d = ctx.dir + "disk/"
    os.mkdir(d)
    data = foreign_cells(fmt, sc["not"]) if sc["not"] else foreign.emit(fmt, V, F, sc["st"], random.Random(sc["st"]["seed"]))
    main = d + "in." + b
    for k, c in (data if isinstance(data, dict) else {"main": data}).items():
        with open(main if k == "main" else d + k, "wb") as h:
            h.write(c)
    want = formats.polys(*iolib.arrays(sc["mesh"]))
    sca = iolib.scale_of(sc["mesh"])
    if fmt == "inp" and not sc["not"]:
        want = [[tuple(x + y for x, y in zip(p, t)) for p in P] for t in foreign.frames(sc["st"]) for P in want]
        sca += 15.
    text = (data["Body.DAT"] if isinstance(data, dict) else data)[:400]
    head = "%s (%s)" % (fmt, sc["not"] or ", ".join("%s %r" % (k, sc["st"][k]) for k in ("ids", "num", "eol", "extra", "lead", "sep")))
    err = res = None
    if sc["via"] == "cli":
        out = ctx.dir + "out.nat"
        r = clilib.run(ctx, [main, "-ifmt", sc["alias"], "-o", out, "-q"], ctx.dir, prefix=d, plan=sc["plan"])
        rep = r["report"] or {"fired": [], "kinds": {}, "short_reads": 0, "hash": 0}
        if r["code"]:
            err = "exit status %s %s" % (r["code"], r["err"])
        else:
            got = formats.strict_parse("nat", open(out, "rb").read()) if os.path.exists(out) else None
            if got is None:
                ctx.fail("no-result", "%s: exit status 0 without a mesh" % head)
            eps = formats.tol(b, sca) + formats.tol("nat", sca)
            res = formats.same_triangulated(want, got, eps) if b == "stl" else formats.same_polys(want, got, eps)
    else:
        shim.begin(d, sc["plan"])
        try:
            v, f = mmio.load_mesh(main, sc["alias"])
        except Exception as e:
            err = "%s: %s" % (type(e).__name__, e)
        rep = shim.report()
        shim.end()
        if not err:
            res = iolib.compare(b, want, v, f, sca)
    n = rep["short_reads"] + sum(rep["fired"])
    ctx.stats["fault:short-read"] += rep["short_reads"]
    ctx.stats["fault:eintr-or-short-rule"] += sum(rep["fired"])
    ctx.nontrivial = bool(n) or fmt in formats.RO or bool(sc["not"]) or sc["st"]["ids"] != "seq" or sc["st"]["extra"] > 0
    ctx.log(fmt, rep["hash"] if sc["via"] == "lib" else 0, bool(err), res)
    ctx.cover.add("%s/%s/%s/%d/%s" % (fmt, sc["not"] or sc["st"]["ids"], sc["st"]["num"], sc["st"]["extra"], sc["via"]))
    if sc["not"]:
        ctx.stats["probe:unsupported"] += 1
        if not err:
            ctx.fail("misread", "%s: cells or a layout that cannot be held are read as a mesh instead of being refused" % head, key="misread:%s:%s" % (fmt, sc["not"]))
        return
    ctx.stats["probe:renumbered"] += sc["st"]["ids"] != "seq"
    if err:
        ctx.fail("refused", "%s: a sound file is refused: %s; it begins with %r" % (head, err, text), key="refused:" + fmt)
    if res:
        ctx.fail("misread", "%s: the mesh read is not the one of the file: %s; it begins with %r" % (head, res, text), key="misread:" + fmt)


def shrink(sc):
    for p in iolib.shrink_plan(sc["plan"]):
        yield dict(sc, plan=p)
    if sc["via"] == "cli":
        yield dict(sc, via="lib")
    plain = {"num": "fix", "eol": "\n", "tail": 0, "sep": " ", "lead": "", "ids": "seq", "extra": 0}
    for k, x in plain.items():
        if sc["st"][k] != x:
            yield dict(sc, st=dict(sc["st"], **{k: x}))
    for m in iolib.shrink_mesh(sc["mesh"]):
        if sc["fmt"] != "rad" or len(m[1]) >= 3:
            yield dict(sc, mesh=m)
