"""Independent writers: mesh files as other programs lay them out (all legal for their format)."""
import io
import os
import struct
import tempfile

import numpy as np

TEXT = ["mar", "nem", "nat", "gdf", "hst", "diodore-dat", "tec", "obj", "pnl", "rad", "msh2", "msh4", "inp", "wrl", "stl", "vtk", "vtp", "vtu"]
ALL = TEXT + ["stlb", "med", "vtkb"]
IDS = ("hst", "diodore-dat", "rad", "msh2", "msh4", "inp")         # formats whose vertices carry numbers that faces refer to
POINT = ("hst", "rad", "tec", "inp")        # their reals are always written with a decimal point


def style(rng, fmt):
    return {"num": rng.choice(["fix", "fix", "exp", "Exp"] + ([] if fmt in POINT else ["short"])), "eol": rng.choice(["\n", "\n", "\r\n"]),
            "tail": rng.choice([0, 0, 1, 2]), "sep": rng.choice([" ", "  ", "\t"]), "lead": rng.choice(["", " ", "   "]),
            "ids": rng.choice(["seq", "gap", "perm", "shuffle"]) if fmt in IDS else "seq", "extra": rng.randrange(4), "seed": rng.randrange(2**20),
            "half": rng.choice([0, 0, 1])}        # half: the file says that its body is one half of a symmetric one


def number(x, how):
    x = float(x)
    if how == "fix":
        return "%.9f" % x
    if how == "exp":
        return "%.12e" % x
    if how == "Exp":
        return "%.12E" % x
    return "%.12g" % x


def numbering(n, how, rng):
    """The number each vertex has in the file, in the order of the file."""
    if how == "seq":
        return list(range(1, n + 1)), list(range(n))
    ids, k = [], 0
    for _ in range(n):
        k += 1 if how == "shuffle" else rng.choice([1, 1, 1, 2, 5, 40])
        ids.append(k)
    order = list(range(n))
    if how != "gap":               # the lines are not sorted by number
        rng.shuffle(order)
    return ids, order


def emit(fmt, V, F, st, rng):
    """Bytes of the file, or {name: bytes}."""
    nf = lambda x: number(x, st["num"])       # noqa: E731
    S, L = st["sep"], st["lead"]
    ids, order = numbering(len(V), st["ids"], rng)
    tri = [f for f in F if f[0] == f[3]]
    quad = [f for f in F if f[0] != f[3]]
    N = lambda f: [ids[i] for i in f]         # noqa: E731
    row = lambda v: S.join(nf(x) for x in v)  # noqa: E731
    ex = st["extra"]
    true = lambda f: f[:3] if f[0] == f[3] else f     # noqa: E731
    out = []
    if fmt == "mar":
        out.append("%d%s%d" % (2, S, st.get("half", 0)))
        out += ["%s%d%s%s" % (L, i + 1, S, row(v)) for i, v in enumerate(V)]
        out.append(L + S.join("0." if k else "0" for k in range(4)))
        out += [L + S.join(map(str, N(f))) for f in F]
        out.append(L + S.join("0" * 4))
    elif fmt == "nem":
        out += ["%s%d" % (L, len(V)), "%s%d" % (L, len(F))]
        out += [L + row(v) for v in V] + [L + S.join(map(str, N(f))) for f in F]
    elif fmt == "nat":
        out += ["%s0%s%d" % (L, S, st.get("half", 0)), "%s%d%s%d" % (L, len(V), S, len(F))]
        out += [L + row(v) for v in V] + [L + S.join(map(str, N(f))) for f in F]
    elif fmt == "gdf":
        out += ["Made by another program", "%s%s%s%s" % (L, nf(1.), S, nf(9.80665)) + ["", " \tULEN GRAV"][ex % 2],
                "%s0%s%d" % (L, S, st.get("half", 0)) + ["", " \tISX  ISY"][ex % 2], "%s%d" % (L, len(F))]
        for f in F:
            k = [nf(x) for i in f for x in V[i]]
            w = [3, 12, 6, 4][ex]
            out += [L + S.join(k[j:j + w]) for j in range(0, 12, w)]
    elif fmt == "hst":
        out += ["PROJECT: something", "USERS:   somebody", "", "NBODY   1", "RHO   1025.0", "GRAVITY   9.81", "", "COORDINATES"]
        out += ["%s%d%s%s" % (L, ids[i], S, row(V[i])) for i in order] + ["ENDCOORDINATES", ""]
        out += ["PANEL TYPE 0"] + [L + S.join(map(str, N(f))) for f in F] + ["ENDPANEL", "", "ENDFILE"]
        if ex == 3:                  # several bodies
            for lines, a, b in ((V, "ENDCOORDINATES", "COORDINATES"), (F, "ENDPANEL", "PANEL TYPE 0")):
                k = rng.randrange(1, len(lines)) if len(lines) > 1 else 0
                if k:
                    j = out.index(a) - k
                    out[j:j] = [a, "", b]
    elif fmt == "diodore-dat":
        out += ["$", "$ NODE"] + ["%s%d%s%s" % (L, ids[i], S, row(V[i])) for i in order] + ["*RETURN"]
        parts = [("T3C000", tri), ("Q4C000", quad)]
        n = 0
        if ex >= 2:                  # several structures
            parts = [(ty, fs[k::2]) for k in range(2) for ty, fs in parts]
        for ty, fs in (parts if ex % 2 else parts[::-1]):
            if fs:
                out += ["$", "$ ELEMENT,TYPE=%s,ELSTRUCTURE=BODY" % ty]
                for f in fs:
                    n += 1
                    out.append("%s%d%s%s" % (L, n, S, S.join(map(str, N(true(f))))))
                out.append("*RETURN")
    elif fmt == "tec":
        out += ['TITLE = "a mesh"', 'VARIABLES = "X","Y","Z"' + (',"P"' if ex % 2 else ""), 'ZONE T="MESH"' if ex < 2 else "ZONE",
                "N=%5d ,E=%5d , F=FEPOINT, ET=QUADRILATERAL" % (len(V), len(F))]
        out += [L + row(list(v) + [7.25] * (ex % 2)) for v in V] + [L + S.join(map(str, N(f))) for f in F]
    elif fmt == "obj":
        out += ["# made by another program"] + (["mtllib nothing.mtl", "o body"] if ex % 2 else [])
        out += ["v %s" % row(v) for v in V]
        if ex >= 2:
            out += ["vn %s" % row([0., 0., 1.]), "vt %s" % row([0., 1.])] + ["g side", "s off"]
        if ex == 1:
            out += ["l 1 2"]
        out += ["f " + " ".join(["%d", "%d//1", "%d/1/1", "%d"][ex] % (i - len(V) - 1 if ex == 3 else i) for i in N(true(f))) for f in F]
    elif fmt == "pnl":
        out += ["    --------------Hull Mesh File---------------", "", "    # Number of Panels, Nodes, X-Symmetry and Y-Symmetry",
                "%s%d%s%d%s0%s0" % (L, len(F), S, len(V), S, S), "", "    #Start Definition of Node Coordinates     ! node_number   x   y   z"]
        out += ["%s%d%s%s" % (L, i + 1, S, row(v)) for i, v in enumerate(V)]
        out += ["    #End Definition of Node Coordinates", "", "    #Start Definition of Node Relations   ! panel_number  number_of_vertices   v1 v2 v3 (v4)"]
        out += ["%s%d%s%d%s%s" % (L, i + 1, S, len(true(f)), S, S.join(map(str, N(true(f))))) for i, f in enumerate(F)]
        out += ["    #End Definition of Node Relations", "", "    --------------End Hull Mesh File---------------"]
    elif fmt == "rad":
        out += ["#RADIOSS STARTER", "/BEGIN", "mesh", "/NODE"]
        out += ["%10d%s" % (ids[i], "".join("%20s" % nf(x) for x in V[i])) for i in order]
        out += ["/QUAD/1"] + ["".join("%10d" % k for k in [n + 1, 1, 1] + N(f)) for n, f in enumerate(F)] + ["/END"]
    elif fmt == "msh2":
        out += ["$MeshFormat", "2.2 0 8", "$EndMeshFormat"]
        if ex % 2:
            out += ["$PhysicalNames", "1", '2 1 "hull"', "$EndPhysicalNames"]
        out += ["$Nodes", "%d" % len(V)] + ["%d %s" % (ids[i], " ".join(nf(x) for x in V[i])) for i in order] + ["$EndNodes"]
        el = []
        if ex >= 2:                      # points and lines of the geometry
            el += ["15 2 0 1 %d" % ids[F[0][0]], "1 2 0 3 %d %d" % (ids[F[0][0]], ids[F[0][1]]), "1 2 0 2 %d %d" % (ids[F[0][1]], ids[F[0][2]])]
        el += ["2 %s %s" % (["2 0 1", "3 1 2 3", "2 1 2", "4 2 3 1 1"][ex], " ".join(map(str, N(f[:3])))) for f in tri]
        el += ["3 %s %s" % (["2 0 1", "3 1 2 3", "2 1 2", "4 2 3 1 1"][ex], " ".join(map(str, N(f)))) for f in quad]
        out += ["$Elements", "%d" % len(el)] + ["%d %s" % (i + 1, e) for i, e in enumerate(el)] + ["$EndElements"]
    elif fmt == "msh4":
        out += ["$MeshFormat", "4.1 0 8", "$EndMeshFormat"]
        if ex % 2:
            out += ["$PhysicalNames", "1", '2 1 "hull"', "$EndPhysicalNames"]
        nb = min(len(V), [1, 2, 3, 1][ex])
        cut = [len(V) * k // nb for k in range(nb + 1)]
        out += ["$Nodes", "%d %d %d %d" % (nb, len(V), min(ids), max(ids))]
        for k in range(nb):
            b = order[cut[k]:cut[k + 1]]
            out += ["%d %d 0 %d" % ([2, 1, 0][nb - 1 - k], k + 1, len(b))] + ["%d" % ids[i] for i in b] + [" ".join(nf(x) for x in V[i]) for i in b]
        out += ["$EndNodes"]
        bl = [(2, 2, [f[:3] for f in tri]), (2, 3, quad)]
        if ex >= 2:
            bl.insert(0, (1, 1, [F[0][:2], F[0][1:3]]))
        bl = [b for b in bl if b[2]]
        n = sum(len(b[2]) for b in bl)
        out += ["$Elements", "%d %d 1 %d" % (len(bl), n, n)]
        n = 0
        for d, ty, fs in bl:
            out.append("%d 1 %d %d" % (d, ty, len(fs)))
            for f in fs:
                n += 1
                out.append("%d %s " % (n, " ".join(map(str, N(f)))))
        out += ["$EndElements"]
    elif fmt == "inp":
        return _inp(V, F, st, rng, nf)
    elif fmt == "wrl":
        out += ["#VRML V2.0 utf8", "", "# made by another program", "Shape {", " appearance Appearance {", "  material Material {", "   diffuseColor 0.8 0.8 0.8", "  }", " }",
                " geometry IndexedFaceSet {", "  coord Coordinate {", "   point ["]
        out += ["    " + " ".join(nf(x) for x in v) + ("," if i < len(V) - 1 else "") for i, v in enumerate(V)] + ["   ]", "  }", "  coordIndex ["]
        out += ["   " + ", ".join(str(i) for i in true(f)) + ", -1" + ("," if n < len(F) - 1 else "") for n, f in enumerate(F)] + ["  ]", " }", "}"]
    elif fmt == "stl":
        out.append("solid body")
        for f in F:
            for t in ([f[:3]] if f[0] == f[3] else [f[:3], [f[0], f[2], f[3]]]):
                if ex == 3 and len(out) == 1 + 7 * 3:            # several solids
                    out += ["endsolid body", "solid other"]
                out += ["  facet normal 0 0 0", "    outer loop"] + ["      vertex " + " ".join(nf(x) for x in V[i]) for i in t] + ["    endloop", "  endfacet"]
        out.append("endsolid " + ("other" if "solid other" in out else "body"))
    elif fmt == "stlb":
        T = [t for f in F for t in ([f[:3]] if f[0] == f[3] else [f[:3], [f[0], f[2], f[3]]])]
        b = [b"binary made by another program", b"solid made by another program", b"", b"exported"][ex].ljust(80, b"\0 "[ex % 2:][:1]) + struct.pack("<I", len(T))
        for t in T:
            b += struct.pack("<12fH", 0., 0., 0., *(x for i in t for x in V[i]), 0)
        return b
    elif fmt in ("vtk", "vtkb", "vtp", "vtu"):
        return _vtk(fmt, V, F, st)
    elif fmt == "med":
        import h5py
        b = io.BytesIO()
        with h5py.File(b, "w") as h:
            h.create_group("INFOS_GENERALES").attrs["MAJ"] = 3
            g = h.create_group("ENS_MAA/%s/-0000000000000000001-0000000000000000001" % ["mesh", "hull of a ship", "M", "NOE"][ex])
            g.create_dataset("NOE/COO", data=np.asarray(V, float).T.reshape(-1))
            g.create_dataset("NOE/FAM", data=np.zeros(len(V), dtype=int))
            ty = np.int32 if ex % 2 else np.int64
            if ex >= 2:
                g.create_dataset("MAI/SE2/NOD", data=(np.asarray([F[0][:2]]) + 1).T.reshape(-1).astype(ty))
            for k, c, w in (("TR3", tri, 3), ("QU4", quad, 4)):
                if c:
                    g.create_dataset("MAI/%s/NOD" % k, data=(np.asarray(c)[:, :w] + 1).T.reshape(-1).astype(ty))
                    g.create_dataset("MAI/%s/FAM" % k, data=np.zeros(len(c), dtype=int))
        return b.getvalue()
    else:
        raise KeyError(fmt)
    out += [""] * st["tail"]
    return (st["eol"].join(out) + st["eol"]).encode()


def _inp(V, F, st, rng, nf):
    """A body used once or twice, each time in a frame of its own."""
    ids, order = numbering(len(V), st["ids"], rng)
    e = st["eol"]
    dat = ["%5d  %s" % (ids[i], "  ".join(nf(x) for x in V[i])) for i in order] + ["*RETURN", "$"]
    dat += [" %5d %s" % (n + 1, " ".join("%5d" % ids[i] for i in (f[:3] if f[0] == f[3] else f))) for n, f in enumerate(F)] + ["*RETURN"]
    cuts = len(F) // 2 if st["seed"] % 2 else 0          # one or two groups of elements
    if cuts:
        j = dat.index("$") + 1 + cuts
        dat[j:j] = ["*RETURN", "$"]
    fr = frames(st)
    inp = ["*DIODORE", "$"]
    for k, t in enumerate(fr):
        inp += ["*FRAME,NAME=FR%d" % (k + 1), ",".join("%.1f" % x for x in t), ""]
    for k in range(len(fr)):
        inp += ["*NODE,INPUT=Body,FRAME=FR%d%s" % (k + 1, ",INCREMENT=YES" if k else "")]
        inp += ["*ELEMENT,INPUT=Body,TYPE=Q4C000,ELSTRUCTURE=BODY%s" % ("" if not k else ",INCREMENT=YES")] * (2 if cuts else 1)
    inp += ["$", "*END"]
    main = (e.join(inp) + e).encode()
    if st["seed"] % 3 == 0:              # comments in the encoding of an old system
        main = main.replace(b"$", b"$ mod\xe8le", 1)
    return {"main": main, "Body.DAT": (e.join(dat) + e).encode()}


def frames(st):
    return [(0., 0., 0.), (12., 0., -3.)][:1 + (st["extra"] % 2)] if st["extra"] < 2 else [(1., -2., .5)]


def _vtk(fmt, V, F, st):
    """Files of the VTK library, in the encodings it offers."""
    import vtk
    pts = vtk.vtkPoints()
    pts.SetDataTypeToDouble() if st["extra"] % 2 or fmt == "vtk" else pts.SetDataTypeToFloat()
    for v in V:
        pts.InsertNextPoint(v)
    cells = vtk.vtkCellArray()
    kinds = []
    lines = st["lead"] == " "            # the edges of the geometry come along
    edge = vtk.vtkCellArray()
    if lines:
        c = cells if fmt == "vtu" else edge
        c.InsertNextCell(2)
        c.InsertCellPoint(int(F[0][0]))
        c.InsertCellPoint(int(F[0][1]))
        kinds.append(3)
    for f in F:
        p = f[:3] if f[0] == f[3] else f
        cells.InsertNextCell(len(p))
        for i in p:
            cells.InsertCellPoint(int(i))
        kinds.append(5 if len(p) == 3 else 9)
    if fmt == "vtu":
        g = vtk.vtkUnstructuredGrid()
        g.SetPoints(pts)
        g.SetCells(kinds, cells)
    else:
        g = vtk.vtkPolyData()
        g.SetPoints(pts)
        g.SetPolys(cells)
        if lines:
            g.SetLines(edge)
    if st["tail"]:
        a = vtk.vtkDoubleArray()
        a.SetName("pressure")
        for k in range(len(F) + lines):
            a.InsertNextValue(k / 4.)
        g.GetCellData().AddArray(a)
    if fmt in ("vtk", "vtkb"):
        w = vtk.vtkPolyDataWriter()
        w.SetFileTypeToBinary() if fmt == "vtkb" else w.SetFileTypeToASCII()
        if st["num"] in ("fix", "exp"):
            w.SetFileVersion(42)
        w.SetHeader("made by another program")
    else:
        w = vtk.vtkXMLUnstructuredGridWriter() if fmt == "vtu" else vtk.vtkXMLPolyDataWriter()
        {"fix": w.SetDataModeToAscii, "exp": w.SetDataModeToBinary, "Exp": w.SetDataModeToAppended, "short": w.SetDataModeToAppended}[st["num"]]()
        if st["num"] == "short":
            w.EncodeAppendedDataOff()
        if st["sep"] == "\t":
            w.SetCompressorTypeToNone()
        if st["sep"] == "  ":
            w.SetByteOrderToBigEndian()
    w.SetInputData(g)
    return output(w)


def output(w):
    """The file a VTK writer produces."""
    with tempfile.TemporaryDirectory() as d:
        w.SetFileName(os.path.join(d, "m"))
        assert w.Write()
        with open(os.path.join(d, "m"), "rb") as h:
            return h.read()
