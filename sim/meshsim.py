"""Sessions on live Mesh objects: operations and queries, shared by C10-C13."""
import math
import sys
import warnings

import numpy as np

from . import formats, meshgen, refmesh as R

KEYS = {"Oxy": [0, 0, 1.], "Oxz": [0, 1., 0], "Oyz": [1., 0, 0]}


def warm():
    import meshmagick.mesh, meshmagick.mesh_clipper, meshmagick.hydrostatics, meshmagick.mmio  # noqa: F401,E401
    import copy  # noqa: F401
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    from meshmagick.mesh import Mesh
    V, F = meshgen.box(None)
    for q in QUERIES:
        try:
            query(Mesh(V, F), q, 0)
        except Exception:       # the scenarios report it
            pass


# ------------------------------------------------------------------ meshes
def dirty(rng, V, F):
    """Imperfections real meshes have: duplicated, unused vertices, degenerate, flipped and badly described faces."""
    V = [list(v) for v in V]
    F = [list(f) for f in F]
    if rng.random() < 0.3:      # vertices not shared, exactly or nearly coincident
        j = rng.choice([0., 0., 1e-10, 1e-6, 1e-4])
        for f in F:
            if rng.random() < 0.5:
                k = rng.randrange(3) if f[0] == f[3] else rng.randrange(4)
                o = f[k]
                V.append([x + j * rng.choice([-1, 0, 1]) for x in V[o]])
                f[:] = [len(V) - 1 if i == o else i for i in f]
    if rng.random() < 0.25:     # unused vertices
        for _ in range(rng.randint(1, 3)):
            k = rng.randrange(len(V) + 1)
            V.insert(k, [round(rng.uniform(-3, 3), 3) for _ in range(3)])
            F = [[i + (i >= k) for i in f] for f in F]
    if rng.random() < 0.2:      # degenerate faces
        for _ in range(rng.randint(1, 2)):
            f = rng.choice(F)
            F.insert(rng.randrange(len(F) + 1), rng.choice([[f[0], f[1], f[0], f[1]], [f[0], f[1], f[1], f[0]]]))
    if rng.random() < 0.25:     # inconsistent orientation
        F = [f[::-1] if rng.random() < 0.4 else f for f in F]
    if rng.random() < 0.15:     # triangles not described as a b c a
        F = [rng.choice([[f[0], f[1], f[2], f[2]], [f[0], f[0], f[1], f[2]], [f[0], f[1], f[1], f[2]]])
             if f[0] == f[3] and rng.random() < 0.5 else f for f in F]
    return [V, F]


def gen_mesh(rng, clean=0.5):
    if rng.random() < 0.5:
        V, F = meshgen.closed(rng, True)
        if rng.random() < 0.4:
            V = meshgen.rotate(V, rng)
        V = [[float("%.9g" % x) for x in v] for v in V]
    else:
        V, F = meshgen.any_mesh(rng)
    if rng.random() < clean:
        return [V, F]
    return dirty(rng, V, F)


def _g(rng, a):
    return float("%.5g" % rng.uniform(-a, a))


def gen_plane(rng):
    if rng.random() < 0.5:
        return [KEYS[rng.choice(sorted(KEYS))], rng.choice([0., 0., -1., 0.25])]
    return [[_g(rng, 1), _g(rng, 1), 0.3 + rng.random()], _g(rng, 1)]


INPLACE = ["translate", "translate_x", "translate_y", "translate_z", "rotate", "rotate_x", "rotate_y", "rotate_z", "rotate_matrix",
           "scale", "scalex", "scaley", "scalez", "flip_normals", "merge_duplicates", "heal_normals", "remove_unused_vertices",
           "heal_triangles", "remove_degenerated_faces", "heal_mesh", "triangulate_quadrangles", "symmetrize", "mirror",
           "set_vertices", "set_faces"]
MAKERS = ["copy", "add", "extract", "rebuild", "extract_index"]


def gen_op(rng, names):
    n = rng.choice(names)
    op = {"op": n, "m": rng.randrange(4)}
    if n in ("translate",):
        op["t"] = [_g(rng, 5) for _ in range(3)] if rng.random() < .85 else [_g(rng, 10 ** rng.uniform(-8, -2)) for _ in range(3)]
        if rng.random() < .4:                        # along one axis or in one plane, or nowhere
            op["t"] = [x if rng.random() < .4 else 0. for x in op["t"]]
    elif n in ("translate_x", "translate_y", "translate_z"):
        op["t"] = rng.choice([_g(rng, 5), _g(rng, 5), _g(rng, 0.1), _g(rng, 10 ** rng.uniform(-8, -2)), 1., 0.])
    elif n in ("rotate", "rotate_matrix"):
        if rng.random() < .8:
            op["a"] = [rng.choice([_g(rng, 3.14159), _g(rng, .01), math.pi / 2, 0., 0., math.pi, 2 * math.pi, _g(rng, 12)]) for _ in range(3)]
        else:
            op["a"] = [_g(rng, 10 ** rng.uniform(-6, -3)) for _ in range(3)]
    elif n in ("rotate_x", "rotate_y", "rotate_z"):
        op["a"] = rng.choice([_g(rng, 3.14159), _g(rng, 3.14159), math.pi, _g(rng, 10 ** rng.uniform(-6, -2))])
    elif n in ("scale", "scalex", "scaley", "scalez"):
        op["s"] = float("%.5g" % (rng.uniform(.3, 3) if n != "scale" or rng.random() < .85 else 10 ** rng.uniform(-5, 2)))
        if rng.random() < .2:
            op["s"] = rng.choice([1., .5, 2., round(1 + 10 ** rng.uniform(-5, -2), 7)])
    elif n == "merge_duplicates":
        op["atol"] = rng.choice([None, 1e-8, 1e-5, 1e-3])
        op["ri"] = rng.random() < .4
    elif n == "remove_degenerated_faces":
        op["rtol"] = rng.choice([None, 1e-5, 0.5, 0.9])
    elif n in ("symmetrize", "mirror"):
        op["p"] = gen_plane(rng)
    elif n == "set_vertices":
        op["how"] = rng.choice(["stretch", "bend", "same", "list"])
        op["x"] = _g(rng, 1)
    elif n == "set_faces":
        op["how"] = rng.choice(["reverse", "drop", "swap", "list"])
        op["x"] = rng.random()
    elif n in ("extract", "extract_index"):
        op["ids"] = [rng.random() for _ in range(rng.randint(1, 6))]
        op["sub"] = rng.random() < 0.6
        op["which"] = rng.choice(["all", "none", "", "", "", "", "", ""])
    elif n == "add":
        op["o"] = rng.randrange(4)
    return op


def new_vertices(op, V):
    x = op["x"]
    if op["how"] == "stretch":
        return [[v[0] * (1.2 + x / 10), v[1], v[2] + 0.1 * x] for v in V]
    if op["how"] == "bend":
        return [[v[0], v[1] + 0.2 * math.sin(v[0] + x), v[2]] for v in V]
    return [[v[0] + x, v[1], v[2]] for v in V] if op["how"] == "list" else [list(v) for v in V]


def new_faces(op, F):
    x = op["x"]
    if op["how"] == "reverse":
        return [f[::-1] for f in F[::-1]]
    if op["how"] == "drop" and len(F) > 1:
        k = int(x * len(F)) % len(F)
        return F[:k] + F[k + 1:]
    if op["how"] == "swap":
        return F[len(F) // 2:] + F[:len(F) // 2]
    return [list(f) for f in F]


def face_ids(op, nf):
    if op.get("which"):
        return list(range(nf)) if op["which"] == "all" else []
    ids = [int(x * nf) % nf for x in op["ids"]]
    return sorted(set(ids)) if op["sub"] else ids


# ------------------------------------------------------------------ the real operations
def do(m, op, other=None, args=None):
    """Apply one operation to a real mesh.  Returns (result, [arrays passed in])."""
    from meshmagick.mesh import Mesh, Plane
    n = op["op"]
    A = []

    def arr(x, dtype=float):
        a = np.array(x, dtype=dtype)
        A.append((a, a.copy()))
        return a
    if args is not None:
        args.append(A)
    if n == "translate":
        r = m.translate(arr(op["t"]))
    elif n.startswith("translate_"):
        r = getattr(m, n)(op["t"])
    elif n == "rotate":
        r = m.rotate(arr(op["a"]))
    elif n == "rotate_matrix":
        r = m.rotate_matrix(arr(R.rotmat(*op["a"])))
    elif n.startswith("rotate_"):
        r = getattr(m, n)(op["a"])
    elif n.startswith("scale"):
        r = getattr(m, n)(op["s"])
    elif n == "merge_duplicates":
        kw = {} if op["atol"] is None else {"atol": op["atol"]}
        r = m.merge_duplicates(return_index=True, **kw) if op["ri"] else m.merge_duplicates(**kw)
    elif n == "remove_degenerated_faces":
        r = m.remove_degenerated_faces() if op["rtol"] is None else m.remove_degenerated_faces(op["rtol"])
    elif n in ("symmetrize", "mirror"):
        r = getattr(m, n)(Plane(arr(op["p"][0]), op["p"][1]))
    elif n == "set_vertices":
        W = new_vertices(op, m.vertices.tolist())
        m.vertices = W if op["how"] == "list" else arr(W)
        r = None
    elif n == "set_faces":
        G = new_faces(op, m.faces.tolist())
        m.faces = G if op["how"] == "list" else arr(G, int)
        r = None
    elif n == "copy":
        r = m.copy()
    elif n == "add":
        r = m + other
    elif n == "extract":
        r = m.extract_faces(arr(face_ids(op, m.nb_faces), int))
    elif n == "extract_index":
        r = m.extract_faces(arr(face_ids(op, m.nb_faces), int), return_index=True)
    elif n == "rebuild":
        r = Mesh(arr(m.vertices.tolist()), arr(m.faces.tolist(), int))
    else:
        r = getattr(m, n)()
    return r


# ------------------------------------------------------------------ queries
QUERIES = ["faces_areas", "faces_normals", "faces_centers", "triangles_ids", "quadrangles_ids", "nb_triangles", "nb_quadrangles",
           "nb_faces", "nb_vertices", "is_triangle", "get_face", "vv", "vf", "ff", "boundaries", "nb_boundaries", "axis_aligned_bbox",
           "squared_axis_aligned_bbox", "is_mesh_closed", "is_mesh_conformal", "surface_integrals", "volume", "plain_inertia",
           "shell_inertia", "min_edge_length", "max_edge_length", "mean_edge_length", "str", "polydata"]


def query(m, q, k=0):
    """The value of one query on a real mesh (raises what the mesh raises)."""
    if q in ("is_mesh_closed", "is_mesh_conformal"):
        return getattr(m, q)()
    if q in ("is_triangle", "get_face"):
        return getattr(m, q)(k % m.nb_faces)
    if q == "surface_integrals":
        return m.get_surface_integrals()
    if q == "plain_inertia":
        i = m.eval_plain_mesh_inertias(1025.)
        return [float(i.mass), np.array(i.gravity_center, dtype=float), np.array(i.inertia_matrix, dtype=float)]
    if q == "shell_inertia":
        i = m.eval_shell_mesh_inertias(7850., 0.01)
        return [float(i.mass), np.array(i.gravity_center, dtype=float), np.array(i.inertia_matrix, dtype=float)]
    if q == "str":
        s = str(m)
        return "\n".join(l.strip() for l in s.split("\n") if "MESH NAME" not in l)
    if q == "polydata":
        p = m._vtk_polydata()
        return [p.GetNumberOfPoints(), p.GetNumberOfPolys()] + list(p.GetBounds())
    return getattr(m, q)


CORE = ["faces_areas", "faces_normals", "triangles_ids", "boundaries", "ff", "volume"]


def canon(q, v):
    if q == "boundaries":
        out = []
        for b in v:
            c = [int(x) for x in b]
            c = c[:-1] if len(c) > 1 and c[0] == c[-1] else c
            k = c.index(min(c)) if c else 0
            out.append(c[k:] + c[:k])
        return sorted(out)
    if q in ("vv", "vf", "ff"):
        return {int(a): sorted(int(x) for x in b) for a, b in v.items()}
    return v


def mesh_scale(m):
    v = np.asarray(m.vertices)
    return float(np.abs(v).max()) if v.size else 1.


def same_value(q, a, b, V, F, areas):
    """None or a text; a is the value under test, b the reference value."""
    if q in ("boundaries", "vv", "vf", "ff"):
        return None if canon(q, a) == canon(q, b) else "%s instead of %s" % (str(canon(q, a))[:200], str(canon(q, b))[:200])
    if isinstance(b, (bool, np.bool_, int, np.integer)) or b is None:
        return None if a is b or (a is not None and b is not None and a == b) else "%s instead of %s" % (a, b)
    S = max(float(np.abs(V).max()) if len(V) else 1., 1e-6)
    if q == "str":
        la, lb = a.split(), b.split()
        if len(la) != len(lb):
            return "text differs"
        for x, y in zip(la, lb):
            if x != y:
                try:
                    if abs(float(x) - float(y)) > 2e-6 + 1e-9 * S:
                        return "%s instead of %s" % (x, y)
                except ValueError:
                    return "%s instead of %s" % (x, y)
        return None
    if isinstance(b, (list, tuple)) and q in ("plain_inertia", "shell_inertia"):
        A = float(np.sum(areas))
        vol_bad = q == "plain_inertia" and not abs(b[0]) > 1e-6 * 1025. * (A * S + 1e-300)
        pw = (1 if q == "plain_inertia" else 0)
        rho = 1025. if q == "plain_inertia" else 78.5
        t0 = 1e-8 * rho * A * S ** pw
        if not close(a[0], b[0], t0):
            return "mass %s instead of %s" % (a[0], b[0])
        if not vol_bad and abs(b[0]) > 0 and not close(a[1], b[1], 1e-8 * S * (rho * A * S ** pw) / abs(b[0]) * 10):
            return "centre of gravity %s instead of %s" % (a[1], b[1])
        if not vol_bad and not close(a[2], b[2], 1e-7 * rho * A * S ** (pw + 2) * 10):
            return "inertia matrix %s instead of %s" % (a[2].tolist(), b[2].tolist())
        return None
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape:
        return "shape %s instead of %s" % (x.shape, y.shape)
    if y.dtype.kind in "iub":
        return None if np.array_equal(x, y) else "%s instead of %s" % (x.tolist()[:8], y.tolist()[:8])
    if q in ("faces_normals", "faces_centers"):
        keep = areas > 1e-5 * S * S
        bad = [i for i in range(len(y)) if keep[i] and not close(x[i], y[i], 1e-6 if q == "faces_normals" else 1e-7 * S)]
        return None if not bad else "face %d: %s instead of %s" % (bad[0], x[bad[0]], y[bad[0]])
    A = areas if len(areas) else np.zeros(0)
    if q == "faces_areas":
        tol = 1e-9 * S * S
    elif q == "surface_integrals":
        w = np.array([1] * 3 + [2] * 6 + [3] * 6)[:, None]
        # rounding of products of coordinates: relative to scale^k times (area + rounding of the area)
        tol = 1e-9 * (S ** w) * (A[None, :] + 1e-7 * S * S)
        ok = np.abs(x - y) <= tol
        ok |= ~np.isfinite(y) & ~np.isfinite(x)
        if ok.all():
            return None
        i, j = np.argwhere(~ok)[0]
        return "integral %d of face %d: %r instead of %r" % (i, j, x[i, j], y[i, j])
    elif q == "volume":
        if not np.isfinite(y):
            return None
        deg = (areas <= 1e-5 * S * S).any()
        tol = 1e-9 * S * float(A.sum()) + (1e-4 * S ** 3 if deg else 1e-12 * S ** 3)
    else:
        tol = 1e-9 * S + (1e-6 * S if q == "polydata" else 0)   # VTK points are single precision
    return None if close(x, y, tol) else "%s instead of %s" % (np.asarray(x).ravel()[:6].tolist(), np.asarray(y).ravel()[:6].tolist())


def close(a, b, tol):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.all((np.abs(a - b) <= tol) | (~np.isfinite(a) & ~np.isfinite(b))))


def evaluate(m, q, k):
    try:
        return "ok", query(m, q, k)
    except Exception as e:
        return "raised", type(e).__name__


def fresh(m):
    from meshmagick.mesh import Mesh
    return Mesh(np.array(m.vertices, dtype=float), np.array(m.faces, dtype=int))


def oracle(q, V, F):
    """Independent value of the elementary queries, or None."""
    tri = [i for i, f in enumerate(F) if f[0] == f[3]]
    if q == "triangles_ids":
        return np.array(tri, dtype=int)
    if q == "quadrangles_ids":
        return np.array([i for i, f in enumerate(F) if f[0] != f[3]], dtype=int)
    if q == "nb_triangles":
        return len(tri)
    if q == "nb_quadrangles":
        return len(F) - len(tri)
    if q == "nb_faces":
        return len(F)
    if q == "nb_vertices":
        return len(V)
    if q == "faces_areas":
        return np.array([R.area(V, f) for f in F], dtype=float)
    if q == "axis_aligned_bbox":
        return tuple(g(v[k] for v in V) for k in range(3) for g in (min, max)) if V else None
    if q == "faces_normals":
        out = []
        for f in F:
            a, b, c = f[:3]
            n = R.cross(R.sub(V[b], V[a]), R.sub(V[c], V[a])) if f[0] == f[3] else R.cross(R.sub(V[c], V[a]), R.sub(V[f[3]], V[b]))
            l = R.norm(n)
            out.append([x / l for x in n] if l else [math.nan] * 3)
        return np.array(out).reshape(-1, 3)
    if q == "faces_centers":
        out = []
        for f in F:
            w, c = 0., [0.] * 3
            ts = R.tris_of(f)
            for t in ts:
                a = 0.5 * R.norm(R.cross(R.sub(V[t[1]], V[t[0]]), R.sub(V[t[2]], V[t[0]]))) if len(ts) == 2 else 1.
                w += a
                c = [c[k] + a * sum(V[i][k] for i in t) / 3. for k in range(3)]
            out.append([x / w for x in c] if w else [math.nan] * 3)
        return np.array(out).reshape(-1, 3)
    if q == "vf":
        d = {i: set() for i in range(len(V))}
        for i, f in enumerate(F):
            for j in f:
                d[j].add(i)
        return d
    if q == "vv":
        d = {i: set() for i in range(len(V))}
        for f in F:
            g = f[:3] if f[0] == f[3] else f
            for k in range(len(g)):
                d[g[k]].add(g[k - 1])
                d[g[k - 1]].add(g[k])
        return d
    if q in ("min_edge_length", "max_edge_length", "mean_edge_length"):
        L = [R.norm(R.sub(V[g[k]], V[g[k - 1]])) for g in (f[:3] if f[0] == f[3] else f for f in F) for k in range(len(g))]
        return {"min": min(L), "max": max(L), "mean": sum(L) / len(L)}[q[:q.index("_")]]
    if q == "surface_integrals":
        return np.array([face_integrals([V[i] for i in f]) for f in F]).T
    if q == "shell_inertia":
        a, c, M = R.shell_of(V, F) if any(R.area(V, f) for f in F) else (0., [0.] * 3, [[0.] * 3] * 3)
        return None if not a else [78.5 * a, np.array(c), 78.5 * np.array(M)]
    if q in ("ff", "boundaries", "nb_boundaries", "is_mesh_closed"):
        return connected(q, F)
    return None


def face_integrals(q):
    """Integrals of x, y, z, yz, xz, xy, x2, y2, z2, x3, y3, z3, x2y, y2z, z2x over a face (two triangles for a quadrangle)."""
    out = [0.] * 15
    for t in ([q[0], q[1], q[2]], [q[0], q[2], q[3]]) if q[0] != q[3] else ([q[0], q[1], q[2]],):
        A = R.norm(R.cross(R.sub(t[1], t[0]), R.sub(t[2], t[0]))) / 2
        s = [sum(v[k] for v in t) for k in range(3)]
        m2 = lambda i, j: A / 12 * (s[i] * s[j] + sum(v[i] * v[j] for v in t))
        p2 = lambda i, j: sum(v[i] * v[j] for v in t)
        m3 = lambda i, j, k: A / 60 * (s[i] * s[j] * s[k] + s[i] * p2(j, k) + s[j] * p2(i, k) + s[k] * p2(i, j) + 2 * sum(v[i] * v[j] * v[k] for v in t))
        for n, x in enumerate([A * s[0] / 3, A * s[1] / 3, A * s[2] / 3, m2(1, 2), m2(0, 2), m2(0, 1), m2(0, 0), m2(1, 1), m2(2, 2),
                               m3(0, 0, 0), m3(1, 1, 1), m3(2, 2, 2), m3(0, 0, 1), m3(1, 1, 2), m3(2, 2, 0)]):
            out[n] += x
    return out


def connected(q, F):
    """Neighbourhood queries of meshes whose edges all belong to one or two faces, None for the others."""
    E, pairs = {}, {}
    for i, f in enumerate(F):
        g = R.corners(f)
        if len(set(g)) < len(g) or len(g) < 3:
            return None
        for k in range(len(g)):
            E.setdefault(frozenset((g[k - 1], g[k])), []).append((i, g[k - 1], g[k]))
            for l in range(k):
                pairs.setdefault(frozenset((g[k], g[l])), set()).add(i)
    if any(len(e) > 2 or len({x[0] for x in e}) < len(e) or pairs[k] != {x[0] for x in e} for k, e in E.items()):
        return None
    if q == "ff":
        d = {i: set() for i in range(len(F))}
        for e in E.values():
            if len(e) == 2:
                d[e[0][0]].add(e[1][0])
                d[e[1][0]].add(e[0][0])
        return d
    if any(len(e) == 2 and e[0][1:] == e[1][1:] for e in E.values()):
        return None
    nxt = {}
    for e in E.values():
        if len(e) == 1:
            if e[0][2] in nxt:
                return None
            nxt[e[0][2]] = e[0][1]
    if len(set(nxt.values())) < len(nxt):
        return None
    B = []
    while nxt:
        a, b = nxt.popitem()
        c = [a, b]
        while c[-1] != a:
            c.append(nxt.pop(c[-1]))
        B.append(c)
    return {"boundaries": B, "nb_boundaries": len(B), "is_mesh_closed": not B}[q]


GROUP = {}
for _gi, _gq in enumerate((["vv", "vf", "ff", "boundaries", "nb_boundaries", "is_mesh_closed", "is_mesh_conformal"],
                         ["faces_areas", "faces_normals", "faces_centers"], ["surface_integrals", "volume", "plain_inertia", "shell_inertia"],
                         ["min_edge_length", "max_edge_length", "mean_edge_length", "axis_aligned_bbox", "squared_axis_aligned_bbox", "str"],
                         ["triangles_ids", "quadrangles_ids", "nb_triangles", "nb_quadrangles", "nb_faces", "nb_vertices", "is_triangle", "get_face"])):
    for _q in _gq:
        GROUP[_q] = _gi


def check_queries(m, qs, k, independent=True):
    """First query whose value is not the one of a newly built mesh (or of the elementary definition); None if all agree."""
    V, F = np.array(m.vertices, dtype=float), np.array(m.faces, dtype=int)
    Vl, Fl = V.tolist(), F.tolist()
    areas = np.array([R.area(Vl, f) for f in Fl], dtype=float)
    shared = {}
    for q in qs:
        a = evaluate(m, q, k)
        g = GROUP.get(q) if k % 6 else None
        if g is None:
            b = evaluate(fresh(m), q, k)
        else:                            # mostly one new mesh answers a group of related queries, to save time
            if g not in shared:
                shared[g] = fresh(m)
            b = evaluate(shared[g], q, k)
        if a[0] != b[0] or (a[0] == "raised" and a[1] != b[1]):
            return q, "%s instead of %s" % (str(a)[:200], str(b)[:200])
        if a[0] == "ok":
            w = same_value(q, a[1], b[1], V, F, areas)
            if w:
                return q, w
            if independent:
                o = oracle(q, Vl, Fl)
                if o is not None:
                    w = same_value(q, a[1], o, V, F, areas)
                    if w:
                        return q, w + " (elementary definition)"
    if not np.array_equal(V, m.vertices) or not np.array_equal(F, m.faces):
        return "queries", "asking changed the geometry"
    return None


def sound(m):
    """Shape-level validity of a mesh object."""
    V, F = m.vertices, m.faces
    if not isinstance(V, np.ndarray) or V.ndim != 2 or V.shape[1] != 3 or V.dtype.kind != "f":
        return "vertices table has shape %s" % (getattr(V, "shape", None),)
    if not isinstance(F, np.ndarray) or F.ndim != 2 or F.shape[1] != 4 or F.dtype.kind not in "iu":
        return "faces table has shape %s" % (getattr(F, "shape", None),)
    if F.size and (F.min() < 0 or F.max() >= len(V)):
        return "faces refer to vertices that do not exist"
    return None


# ------------------------------------------------------------------ reference semantics
def reference(op, V, F, other=None):
    """(kind, V', F') of the elementary definition; kind says how to compare.  None: ambiguous input."""
    n = op["op"]
    if n == "translate":
        return ("eq",) + R.translate(V, F, op["t"])
    if n.startswith("translate_"):
        t = [0., 0., 0.]
        t["xyz".index(n[-1])] = op["t"]
        return ("eq",) + R.translate(V, F, t)
    if n in ("rotate", "rotate_matrix"):
        return ("eq",) + R.rotate(V, F, op["a"])
    if n.startswith("rotate_"):
        a = [0., 0., 0.]
        a["xyz".index(n[-1])] = op["a"]
        return ("eq",) + R.rotate(V, F, a)
    if n == "scale":
        return ("eq",) + R.scale(V, F, [op["s"]] * 3)
    if n.startswith("scale"):
        s = [1., 1., 1.]
        s["xyz".index(n[-1])] = op["s"]
        return ("eq",) + R.scale(V, F, s)
    if n == "flip_normals":
        return ("polys",) + R.flip(V, F)
    if n == "mirror":
        return ("polys",) + R.mirror(V, F, *op["p"])
    if n == "symmetrize":
        r = R.symmetrize(V, F, *op["p"])
        return r and ("polys",) + r
    if n == "merge_duplicates":
        r = R.merge(V, F, op["atol"] or 1e-8)
        return r and ("polys",) + r
    if n == "remove_unused_vertices":
        return ("polys",) + R.used(V, F)
    if n == "remove_degenerated_faces":
        r = R.drop_degenerate(V, F, op["rtol"] or 1e-5)
        return r and ("polys",) + r
    if n == "heal_triangles":
        return ("tri", V, F)
    if n == "heal_normals":
        return ("normals", V, F)
    if n == "heal_mesh":
        W, G = R.used(V, F)
        r = R.drop_degenerate(W, G, 1e-5)
        r = r and R.merge(*r, 1e-8)
        return r and ("normals",) + r
    if n == "triangulate_quadrangles":
        return ("cut", V, F)
    if n == "set_vertices":
        return ("eq", new_vertices(op, V), F)
    if n == "set_faces":
        return ("eq", V, new_faces(op, F))
    if n in ("copy", "rebuild"):
        return ("eq", V, F)
    if n == "add":
        r = R.merge(*R.concat(V, F, *other), 1e-8)
        return r and ("polys",) + r
    if n in ("extract", "extract_index"):
        return ("polys",) + R.used(V, [F[i] for i in face_ids(op, len(F))])
    raise KeyError(n)


def _pl(V, F):
    """Polygons with repeated corners dropped."""
    return [[tuple(V[i]) for i in R.corners(f)] for f in F]


def _unoriented(P):
    return [min(p, p[::-1], key=lambda q: q[q.index(min(q)):] + q[:q.index(min(q))]) for p in P]


def compare_ref(op, ref, m, res):
    """Compare the mesh m after op with the reference outcome.  None or a text."""
    w = sound(m)
    if w:
        return w
    kind, W, G = ref
    V, F = m.vertices.tolist(), m.faces.tolist()
    S = max([abs(x) for v in W for x in v] + [1e-6])
    eps = 1e-9 * S
    if op["op"] in ("merge_duplicates", "symmetrize", "add", "heal_mesh"):
        eps = max(eps, 1.01 * (op.get("atol") or 1e-8))
    if len(V) != len(W):
        return "%d vertices instead of %d" % (len(V), len(W))
    if kind == "eq":
        if G != F:
            if len(F) != len(G):
                return "%d faces instead of %d" % (len(F), len(G))
            return formats.same_polys(_pl(W, G), _pl(V, F), eps)
        d = np.abs(np.array(V) - np.array(W)).max() if V else 0.
        return None if d <= eps else "vertices differ by %g" % d
    # the vertex table, as a multiset
    a, b = sorted(V), sorted(W)
    left = list(b)
    for v in V:
        near = [(max(abs(v[0] - w[0]), abs(v[1] - w[1]), abs(v[2] - w[2])), j) for j, w in enumerate(left)]
        d, j = min(near, default=(math.inf, 0))
        if not d <= eps:
            return "vertex %s should not exist" % (v,)
        del left[j]
    if kind == "cut":
        if any(f[0] != f[3] for f in F):
            return "quadrangles are left"
        P = [[tuple(W[i]) for i in (f[:3] if f[0] == f[3] else f)] for f in G]
        return formats.same_triangulated(P, formats.polys(V, F), eps)
    if kind == "polys":
        return formats.same_polys(_pl(W, G), _pl(V, F), eps)
    if kind == "tri":
        for f in F:
            if f[0] != f[3] and len(R.corners(f)) < 4:
                return "triangle still described as %s" % (f,)
        return formats.same_polys(_pl(W, G), _pl(V, F), eps)
    if kind == "normals":
        P, Q = _pl(W, G), _pl(V, F)
        if len(P) != len(Q):
            return "%d faces instead of %d" % (len(Q), len(P))
        left = list(Q)
        for i, p in enumerate(P):
            for j, q in enumerate(left):
                if formats._same(p, q, eps) or formats._same(p, q[::-1], eps):
                    del left[j]
                    break
            else:
                return "face %d disappeared" % i
        if op["op"] == "heal_mesh" and any(f[0] != f[3] and len(R.corners(f)) < 4 for f in F):
            return "a triangle is still badly described"
        if any(len(R.corners(f)) != (3 if f[0] == f[3] else 4) or len(set(f)) < 3 for f in F):
            return None                     # degenerate faces: no orientation to speak of
        E = R.edges(F)
        common = {}
        for e, u in E.items():
            for x in u:
                for y in u:
                    if x[0] < y[0]:
                        common[(x[0], y[0])] = common.get((x[0], y[0]), 0) + 1
        if any(len(u) > 2 for u in E.values()) or any(c > 1 for c in common.values()):
            return None
        if any(len(set(F[i]) & set(F[j])) != 2 for i, j in common):
            return None
        ok, groups = R.orientable(F)
        if not ok:
            return None
        if R.same_orientation_conflicts(F):
            return "neighbouring faces have opposite orientations"
        if groups == 1 and R.closed(F):
            vol, ar = R.volume(V, F), R.total_area(V, F)
            if vol < -1e-3 * ar ** 1.5:
                return "normals of a closed mesh point inwards"
        return None
    raise KeyError(kind)


# ------------------------------------------------------------------ interrupts
_OPS = None


def _opcodes():
    global _OPS
    if _OPS is None:
        import opcode
        call = {opcode.opmap[k] for k in ("CALL", "CALL_FUNCTION_EX") if k in opcode.opmap}
        here = {opcode.opmap[k] for k in ("RESUME", "JUMP_BACKWARD") if k in opcode.opmap}
        _OPS = (call, here)
    return _OPS


class Interrupter:
    """Counts the points at which CPython can deliver a signal inside meshmagick code; raises at a chosen one.

    The interpreter looks at pending signals on function entry, on backward jumps and after calls."""

    def __init__(self, at=None, exc=KeyboardInterrupt, files=("meshmagick",)):
        self.n = 0
        self.at = at
        self.exc = exc
        self.where = None
        self.files = files

    def __enter__(self):
        call, here = _opcodes()
        last = {}

        def local(frame, event, arg):
            if event == "opcode":
                code = frame.f_code.co_code
                i = frame.f_lasti
                o = code[i]
                prev = last.get(id(frame))
                last[id(frame)] = o
                if o in here or prev in call:
                    self.n += 1
                    if self.n == self.at:
                        self.where = "%s:%d" % (frame.f_code.co_name, frame.f_lineno)
                        sys.settrace(None)
                        raise self.exc()
            elif event == "return":
                last.pop(id(frame), None)
            return local

        def glob(frame, event, arg):
            f = frame.f_code.co_filename
            if any(x in f for x in self.files):
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
                self.n += 1            # RESUME of the new frame
                if self.n == self.at:
                    self.where = "%s:%d" % (frame.f_code.co_name, frame.f_lineno)
                    sys.settrace(None)
                    raise self.exc()
                return local
            return None
        sys.settrace(glob)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


def maybe(at):
    """An interrupt at point `at`, or nothing."""
    import contextlib
    return Interrupter(at) if at else contextlib.nullcontext()


def shrink(sc):
    S = sc["steps"]
    n = len(S)
    step = max(1, n // 2)
    while True:
        for s in range(0, n, step):
            yield dict(sc, steps=S[:s] + S[s + step:])
        if step == 1:
            break
        step //= 2
    for i, x in enumerate(S):
        for k in ("intr", "qi"):
            if x.get(k):
                yield dict(sc, steps=S[:i] + [dict(x, **{k: 0})] + S[i + 1:])
        fl = x.get("fault")
        if isinstance(fl, dict) and fl.get("more"):
            for more in [[]] + ([[y] for y in fl["more"]] if len(fl["more"]) > 1 else []):
                yield dict(sc, steps=S[:i] + [dict(x, fault=dict(fl, more=more))] + S[i + 1:])
        for k in ("q", "q2"):
            if len(x.get(k) or []) > 1:
                for j in range(len(x[k])):
                    yield dict(sc, steps=S[:i] + [dict(x, **{k: x[k][:j] + x[k][j + 1:]})] + S[i + 1:])
    from . import iolib
    for i, mm in enumerate(sc["meshes"]):
        if len(sc["meshes"]) > 1:
            yield dict(sc, meshes=sc["meshes"][:i] + sc["meshes"][i + 1:])
        for m in iolib.shrink_mesh(mm):
            yield dict(sc, meshes=sc["meshes"][:i] + [m] + sc["meshes"][i + 1:])
