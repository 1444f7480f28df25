"""Independent strict readers and writers of the supported file formats.

strict_parse(fmt, data) returns a list of polygons (each a list of 3 or 4 (x, y, z) tuples), or None
when `data` is not a complete file of the format.  They share no code with meshmagick and serve as
the reference for well-formedness of written files and for what a truncated file still means.
"""
import re
import xml.etree.ElementTree as ET

RW = ["mar", "nem", "gdf", "diodore-dat", "hst", "nat", "stl", "vtu", "vtp", "vtk", "tec", "obj", "pnl"]
RO = ["rad", "msh2", "msh4", "inp", "med", "wrl"]
ALIASES = {"mar": ["mar", "nemoh"], "gdf": ["gdf", "wamit"], "hst": ["hst", "hydrostar"], "nat": ["nat", "natural"],
           "vtk": ["vtk", "paraview-legacy"], "tec": ["tec", "tecplot"], "nem": ["nem", "nemoh_mesh"],
           "pnl": ["pnl", "hams"], "msh2": ["msh", "gmsh"], "msh4": ["msh", "gmsh"], "rad": ["rad", "radioss"],
           "inp": ["inp", "diodore-inp"], "med": ["med", "salome"], "wrl": ["wrl", "vrml"]}
# absolute / relative printing precision of each writer
ATOL = {"mar": 6e-7, "nem": 6e-7, "obj": 6e-7, "vtk": 6e-7, "pnl": 6e-7}
RTOL = {"gdf": 6e-7, "hst": 6e-7, "nat": 6e-7, "stl": 6e-7, "tec": 6e-7, "diodore-dat": 6e-6, "vtu": 2e-7,
        "vtp": 2e-7, "vtk": 2e-7, "obj": 2e-7, "wrl": 2e-7}


def keyfmt(fmt):
    return {"msh2": "msh", "msh4": "msh"}.get(fmt, fmt)


def tol(fmt, scale):
    """Tolerance on a coordinate after one write + read, for coordinates of magnitude <= scale."""
    a = ATOL.get(fmt, 0.)
    r = RTOL.get(fmt, 1e-12)
    return 1.05 * a + r * scale * 1.5 + 1e-12


class Bad(Exception):
    pass


VERTICES = [None]        # the vertex table of the file parsed last
CORNERS = [0]            # the number of corners listed by its faces


def _poly(coords, ids):
    VERTICES[0] = coords
    CORNERS[0] += len(ids)
    if len(ids) == 4 and ids[0] == ids[3]:
        ids = ids[:3]
    out = []
    for i in ids:
        if i < 0 or i >= len(coords):
            raise Bad("index")
        out.append(coords[i])
    return out


def _floats(tokens, n):
    if len(tokens) != n:
        raise Bad("count")
    return [float(t) for t in tokens]


def _mar(t):
    L = t.split("\n")
    i = 1
    V = []
    head = L[0].split()
    if len(head) != 2:
        raise Bad("header")
    while True:
        k = L[i].split(); i += 1
        if k[0] == "0":
            break
        if int(k[0]) != len(V) + 1:
            raise Bad("numbering")
        V.append(tuple(_floats(k[1:], 3)))
    P = []
    while True:
        k = L[i].split(); i += 1
        if k[0] == "0":
            break
        if len(k) != 4:
            raise Bad("count")
        P.append(_poly(V, [int(x) - 1 for x in k]))
    return P


def _nem(t):
    L = t.split("\n")
    nv, nf = int(L[0]), int(L[1])
    V = [tuple(_floats(L[2 + i].split(), 3)) for i in range(nv)]
    P = []
    for i in range(nf):
        k = L[2 + nv + i].split()
        if len(k) != 4:
            raise Bad("count")
        P.append(_poly(V, [int(x) - 1 for x in k]))
    if len(P) != nf or any(x.strip() for x in L[2 + nv + nf:]):
        raise Bad("extra")
    return P


def _nat(t):
    L = t.split("\n")
    if len(L[0].split()) != 2:
        raise Bad("header")
    nv, nf = (int(x) for x in L[1].split())
    return _nem("%d\n%d\n" % (nv, nf) + "\n".join(L[2:]))


def _gdf(t):
    L = t.split("\n")
    float(L[1].split()[0]); float(L[1].split()[1])
    int(L[2].split()[0]); int(L[2].split()[1])
    nf = int(L[3].split()[0])
    vals = [float(x) for x in " ".join(L[4:]).split()]
    if len(vals) != 12 * nf:
        raise Bad("count")
    P = []
    for i in range(nf):
        v = vals[12 * i:12 * i + 12]
        p = [tuple(v[3 * k:3 * k + 3]) for k in range(4)]
        P.append(p[:3] if p[0] == p[3] else p)
    return P


def _hst(t):
    m = re.search(r"COORDINATES\n(.*?)\nENDCOORDINATES", t, re.S)
    if not m:
        raise Bad("coords")
    V = []
    for l in m.group(1).split("\n"):
        k = l.split()
        if int(k[0]) != len(V) + 1:
            raise Bad("numbering")
        V.append(tuple(_floats(k[1:], 3)))
    m = re.search(r"\nPANEL TYPE 0\n(.*?)\nENDPANEL", t, re.S)
    if not m:
        raise Bad("panel")
    P = []
    for l in m.group(1).split("\n"):
        k = [int(x) - 1 for x in l.split()]
        if len(k) != 4:
            raise Bad("count")
        P.append(_poly(V, k))
    return P


def _dat(t):
    m = re.search(r"^\$ NODE\n(.*?)^\*RETURN", t, re.S | re.M)
    if not m:
        raise Bad("node")
    V, ids = [], {}
    for l in m.group(1).strip("\n").split("\n"):
        k = l.split()
        ids[k[0]] = len(V)
        V.append(tuple(_floats(k[1:], 3)))
    P = []
    rest = t[m.end():]
    heads = [h for h in re.finditer(r"^\$ ELEMENT,TYPE=(Q4C000|T3C000)[^\n]*", rest, re.M)]
    for n, h in enumerate(heads):
        end = heads[n + 1].start() if n + 1 < len(heads) else len(rest)
        body = rest[h.end():end]
        if "*RETURN" not in body:
            raise Bad("unterminated")
        for l in body[:body.index("*RETURN")].strip("\n").split("\n"):
            k = l.split()
            want = 5 if h.group(1) == "Q4C000" else 4
            if len(k) != want:
                raise Bad("count")
            P.append(_poly(V, [ids[x] for x in k[1:]]))
    return P


def _tec(t):
    m = re.search(r"N=\s*(\d+) ,E=\s*(\d+) , F=FEPOINT, ET=QUADRILATERAL\n", t)
    if not m:
        raise Bad("zone")
    nv, nf = int(m.group(1)), int(m.group(2))
    k = t[m.end():].split()
    if len(k) != 3 * nv + 4 * nf:
        raise Bad("count")
    V = [tuple(float(x) for x in k[3 * i:3 * i + 3]) for i in range(nv)]
    k = k[3 * nv:]
    return [_poly(V, [int(x) - 1 for x in k[4 * i:4 * i + 4]]) for i in range(nf)]


def _vtk(t):
    L = t.split("\n", 4)
    if not L[0].startswith("# vtk DataFile") or L[2].strip() != "ASCII" or L[3].split() != ["DATASET", "POLYDATA"]:
        raise Bad("header")
    k = L[4].split()
    if k[0] != "POINTS":
        raise Bad("points")
    nv = int(k[1])
    V = [tuple(float(x) for x in k[3 + 3 * i:6 + 3 * i]) for i in range(nv)]
    if V and len(V[-1]) != 3:
        raise Bad("count")
    k = k[3 + 3 * nv:]
    if k[0] != "POLYGONS":
        raise Bad("polygons")
    nf, size = int(k[1]), int(k[2])
    k = [int(x) for x in k[3:]]
    if len(k) != size:
        raise Bad("size")
    P, i = [], 0
    for _ in range(nf):
        n = k[i]
        if n not in (3, 4):
            raise Bad("n")
        P.append(_poly(V, k[i + 1:i + 1 + n]))
        if len(k[i + 1:i + 1 + n]) != n:
            raise Bad("count")
        i += n + 1
    if i != size:
        raise Bad("size")
    return P


def _xml_arrays(piece):
    pts = [float(x) for x in (piece.find("Points/DataArray").text or "").split()]
    return [tuple(pts[3 * i:3 * i + 3]) for i in range(len(pts) // 3)]


def _vt(t, kind, tag, npts, ncells):
    r = ET.fromstring(t)
    if r.attrib.get("type") != kind:
        raise Bad("type")
    piece = r.find(kind + "/Piece")
    V = _xml_arrays(piece)
    if len(V) != int(piece.attrib[npts]):
        raise Bad("npts")
    arr = {a.attrib["Name"]: [int(x) for x in (a.text or "").split()] for a in piece.find(tag).findall("DataArray")}
    off, con = arr["offsets"], arr["connectivity"]
    if len(off) != int(piece.attrib[ncells]):
        raise Bad("ncells")
    P, s = [], 0
    for e in off:
        P.append(_poly(V, con[s:e]))
        if e - s not in (3, 4):
            raise Bad("n")
        s = e
    if s != len(con):
        raise Bad("con")
    return P


def _obj(t):
    V, P = [], []
    for l in t.split("\n"):
        k = l.split()
        if not k or k[0].startswith("#"):
            continue
        if k[0] == "v":
            V.append(tuple(_floats(k[1:], 3)))
        elif k[0] == "f":
            if len(k) not in (4, 5):
                raise Bad("n")
            P.append(_poly(V, [int(x) - 1 for x in k[1:]]))
        else:
            raise Bad("keyword")
    return P


def _stl(t):
    k = t.split()
    if k[:1] != ["solid"]:
        raise Bad("solid")
    if k[-2:-1] != ["endsolid"] and k[-1:] != ["endsolid"]:
        raise Bad("endsolid")
    P = []
    body = t[t.index("\n"):]
    for m in re.finditer(r"facet normal\s+(\S+)\s+(\S+)\s+(\S+)\s+outer loop\s+((?:vertex\s+\S+\s+\S+\s+\S+\s+){3})endloop\s+endfacet", body):
        v = [float(x) for x in m.group(4).split() if x != "vertex"]
        P.append([tuple(v[0:3]), tuple(v[3:6]), tuple(v[6:9])])
    if len(P) != len(re.findall(r"\bfacet normal", body)) or len(P) != len(re.findall(r"\bendfacet", body)):
        raise Bad("facets")
    return P


def _pnl(t, repeated=False):
    L = t.split("\n")
    nf, nv, sx, sy = (int(x) for x in L[3].split())
    V = []
    for i in range(nv):
        k = L[6 + i].split()
        if int(k[0]) != i + 1:
            raise Bad("numbering")
        V.append(tuple(_floats(k[1:], 3)))
    P = []
    for i in range(nf):
        k = [int(x) for x in L[9 + nv + i].split()]
        if k[0] != i + 1 or k[1] not in (3, 4) or len(k) != 2 + k[1]:
            raise Bad("panel")
        if len(set(k[2:])) != k[1] and not repeated:
            raise Bad("a panel lists the same node twice")
        P.append(_poly(V, [x - 1 for x in k[2:]]))
    return P


def _rad(t):
    """Only lines ended by a newline count (the format has neither counts nor a closing mark we rely on)."""
    t = t[:t.rfind("\n") + 1]
    V, P, mode = [], [], None
    for l in t.split("\n"):
        if l.startswith("/NODE"):
            mode = "n"
        elif l.startswith("/"):
            mode = "e" if l.startswith(("/QUAD", "/SHELL")) else None
        elif not l.strip() or l.startswith("#"):
            continue
        elif mode == "n":
            V.append(tuple(_floats(l.split()[1:], 3)))
        elif mode == "e":
            k = l.split()
            if len(k) != 7:
                raise Bad("n")
            P.append(_poly(V, [int(x) - 1 for x in k[3:]]))
    return P


def _msh2(t):
    n = re.search(r"\$Nodes\n(\d+)\n(.*?)\$EndNodes", t, re.S)
    e = re.search(r"\$Elements\n(\d+)\n(.*?)\$EndElements", t, re.S)
    if not n or not e:
        raise Bad("sections")
    k = n.group(2).split()
    if len(k) != 4 * int(n.group(1)):
        raise Bad("nodes")
    V = [tuple(float(x) for x in k[4 * i + 1:4 * i + 4]) for i in range(len(k) // 4)]
    tri, quad = [], []
    lines = e.group(2).strip("\n").split("\n")
    if len(lines) != int(e.group(1)):
        raise Bad("elements")
    for l in lines:
        k = [int(x) for x in l.split()]
        if k[1] == 2:
            tri.append(_poly(V, [x - 1 for x in k[-3:]]))
        elif k[1] == 3:
            quad.append(_poly(V, [x - 1 for x in k[-4:]]))
    return tri + quad


PARSERS = {"mar": _mar, "nem": _nem, "nat": _nat, "gdf": _gdf, "hst": _hst, "diodore-dat": _dat, "tec": _tec, "vtk": _vtk,
           "vtp": lambda t: _vt(t, "PolyData", "Polys", "NumberOfPoints", "NumberOfPolys"),
           "vtu": lambda t: _vt(t, "UnstructuredGrid", "Cells", "NumberOfPoints", "NumberOfCells"),
           "obj": _obj, "stl": _stl, "pnl": _pnl, "rad": _rad, "msh2": _msh2}


def strict_parse(fmt, data, repeated=False):
    """Polygons of a complete file of the format, else None.  repeated: panels may list a node twice."""
    if fmt not in PARSERS:
        return None
    try:
        text = data.decode("utf-8")
        CORNERS[0], VERTICES[0] = 0, []
        P = _pnl(text, True) if repeated and fmt == "pnl" else PARSERS[fmt](text)
    except (Bad, ValueError, IndexError, KeyError, AttributeError, ET.ParseError, UnicodeDecodeError, OverflowError):
        return None
    return P if P else None


# --------------------------------------------------------------------- independent writers
def emit(fmt, V, F, extra=None):
    """A well-formed file of a read-only format (bytes), or {name: bytes} for multi-file formats."""
    tri = [f for f in F if f[0] == f[3]]
    quad = [f for f in F if f[0] != f[3]]
    if fmt == "rad":
        s = "#RADIOSS STARTER\n/BEGIN\nmesh\n/NODE\n"
        for i, v in enumerate(V):
            s += "%10d%20.9f%20.9f%20.9f\n" % (i + 1, *v)
        s += "/QUAD/1\n"
        for i, f in enumerate(F):
            s += "%10d%10d%10d%10d%10d%10d%10d\n" % (i + 1, 1, 1, f[0] + 1, f[1] + 1, f[2] + 1, f[3] + 1)
        return (s + "/END\n").encode()
    if fmt == "msh2":
        s = "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n%d\n" % len(V)
        for i, v in enumerate(V):
            s += "%d %.16g %.16g %.16g\n" % (i + 1, *v)
        s += "$EndNodes\n$Elements\n%d\n" % len(F)
        n = 0
        for f in tri:
            n += 1
            s += "%d 2 2 0 1 %d %d %d\n" % (n, f[0] + 1, f[1] + 1, f[2] + 1)
        for f in quad:
            n += 1
            s += "%d 3 2 0 1 %d %d %d %d\n" % (n, *(x + 1 for x in f))
        return (s + "$EndElements\n").encode()
    if fmt == "msh4":
        blocks = [(2, tri), (3, quad)]
        blocks = [b for b in blocks if b[1]]
        s = "$MeshFormat\n4.1 0 8\n$EndMeshFormat\n$Nodes\n1 %d 1 %d\n2 1 0 %d\n" % (len(V), len(V), len(V))
        s += "".join("%d\n" % (i + 1) for i in range(len(V)))
        s += "".join("%.16g %.16g %.16g\n" % tuple(v) for v in V)
        s += "$EndNodes\n$Elements\n%d %d 1 %d\n" % (len(blocks), len(F), len(F))
        n = 0
        for ty, fs in blocks:
            s += "2 1 %d %d\n" % (ty, len(fs))
            for f in fs:
                n += 1
                s += ("%d " % n) + " ".join(str(x + 1) for x in (f[:3] if ty == 2 else f)) + " \n"
        return (s + "$EndElements\n").encode()
    if fmt == "inp":
        dat = ""
        for i, v in enumerate(V):
            dat += "%5d  %.7f  %.7f  %.7f\n" % (i + 1, *v)
        dat += "*RETURN\n$\n"
        for i, f in enumerate(quad if quad else tri):
            dat += " %5d " % (i + 1) + " ".join("%5d" % (x + 1) for x in (f if quad else f[:3])) + "\n"
        inp = "*DIODORE\n$\n*FRAME,NAME=FR1\n0.,0.,0.\n\n*NODE,INPUT=Body,FRAME=FR1\n*ELEMENT,INPUT=Body,TYPE=Q4C000,ELSTRUCTURE=BODY\n$\n*END\n"
        return {"main": inp.encode(), "Body.DAT": dat.encode()}
    if fmt == "wrl":
        s = "#VRML V2.0 utf8\n\nShape {\n  geometry IndexedFaceSet {\n    coord Coordinate {\n      point [\n"
        s += ",\n".join("        %.6f %.6f %.6f" % tuple(v) for v in V)
        s += " ]\n    }\n    coordIndex [\n"
        s += ",\n".join("      " + ", ".join(str(x) for x in (f[:3] if f[0] == f[3] else f)) + ", -1" for f in F)
        return (s + " ]\n  }\n}\n").encode()
    if fmt == "med":
        import h5py
        import io
        import numpy as np
        b = io.BytesIO()
        with h5py.File(b, "w") as h:
            g = h.create_group("ENS_MAA/mesh/-0000000000000000001-0000000000000000001")
            g.create_dataset("NOE/COO", data=np.asarray(V, float).T.reshape(-1))
            if tri:
                g.create_dataset("MAI/TR3/NOD", data=(np.asarray(tri)[:, :3] + 1).T.reshape(-1))
            if quad:
                g.create_dataset("MAI/QU4/NOD", data=(np.asarray(quad) + 1).T.reshape(-1))
        return b.getvalue()
    raise KeyError(fmt)


# --------------------------------------------------------------------- comparisons
def polys(V, F):
    """Polygons of meshmagick arrays; a face is a triangle when its first and last corners coincide."""
    out = []
    for f in F:
        p = [tuple(float(x) for x in V[int(i)]) for i in f]
        if int(f[0]) == int(f[3]) or p[0] == p[3]:
            p = p[:3]
        out.append(p)
    return out


def _same(p, q, eps):
    """Same polygon up to the choice of the first corner."""
    n = len(p)
    if len(q) != n:
        return False
    for s in range(n):
        if all(abs(p[i][k] - q[(i + s) % n][k]) <= eps for i in range(n) for k in range(3)):
            return True
    return False


def same_polys(A, B, eps):
    """Multiset equality of two polygon lists within eps.  Returns None or an explanation."""
    if len(A) != len(B):
        return "%d faces instead of %d" % (len(B), len(A))
    left = list(B)
    for i, p in enumerate(A):
        for j, q in enumerate(left):
            if _same(p, q, eps):
                del left[j]
                break
        else:
            return "face %d %s has no counterpart; unmatched: %s" % (i, rnd(p), [rnd(q) for q in left[:2]])
    return None


def dedupe(P):
    """Drop corners that repeat the previous one (the command line may reorder the corners of triangles)."""
    return [[v for i, v in enumerate(p) if v != p[i - 1] or len(p) < 2] for p in P]


def rnd(p):
    return [tuple(round(x, 7) for x in v) for v in p]


def same_triangulated(A, B, eps, same=_same):
    """B must be A with every quadrangle cut along one of its diagonals."""
    left = list(B)

    def take(t, but=None):
        for j, q in enumerate(left):
            if j != but and same(t, q, eps):
                return j
        return None
    for i, p in enumerate(sorted(A, key=len)):          # triangles first: only they leave no choice
        if len(p) == 3:
            j = take(p)
            if j is None:
                return "triangle %d %s missing" % (i, rnd(p))
            del left[j]
            continue
        for a, b in (([p[0], p[1], p[2]], [p[0], p[2], p[3]]), ([p[0], p[1], p[3]], [p[1], p[2], p[3]])):
            ja = take(a)
            jb = take(b, ja)
            if ja is not None and jb is not None:
                for j in sorted((ja, jb), reverse=True):
                    del left[j]
                break
        else:
            return "quadrangle %d %s missing" % (i, rnd(p))
    if left:
        return "%d extra triangles" % len(left)
    return None
