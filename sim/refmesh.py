"""Elementary definitions of the mesh operations on plain coordinate and connectivity lists.

Independent of meshmagick: nothing is imported from it.  Every operation maps (V, F) to (V', F') or to
None when the input is ambiguous for that operation (values too close to a tolerance)."""
import math


def rotmat(phi, theta, psi):
    """Rotation of phi about x, then theta about y, then psi about z (fixed axes)."""
    def mul(A, B):
        return [[sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
    c, s = math.cos(phi), math.sin(phi)
    X = [[1, 0, 0], [0, c, -s], [0, s, c]]
    c, s = math.cos(theta), math.sin(theta)
    Y = [[c, 0, s], [0, 1, 0], [-s, 0, c]]
    c, s = math.cos(psi), math.sin(psi)
    Z = [[c, -s, 0], [s, c, 0], [0, 0, 1]]
    return mul(Z, mul(Y, X))


def translate(V, F, t):
    return [[v[k] + t[k] for k in range(3)] for v in V], F


def matrix(V, F, R):
    return [[sum(R[i][k] * v[k] for k in range(3)) for i in range(3)] for v in V], F


def rotate(V, F, a):
    return matrix(V, F, rotmat(*a))


def scale(V, F, s):
    return [[v[k] * s[k] for k in range(3)] for v in V], F


def flip(V, F):
    return V, [f[::-1] for f in F]


def unit(n):
    l = math.sqrt(sum(x * x for x in n))
    return [x / l for x in n]


def mirror(V, F, n, c):
    n = unit(n)
    W = []
    for v in V:
        d = sum(v[k] * n[k] for k in range(3)) - c
        W.append([v[k] - 2 * d * n[k] for k in range(3)])
    return W, [f[::-1] for f in F]


def concat(V, F, W, G):
    return V + W, F + [[i + len(V) for i in g] for g in G]


def classes(V, atol):
    """Class of every vertex under 'closer than atol in every coordinate', or None when ambiguous."""
    n = len(V)
    for k in range(3):
        xs = sorted(v[k] for v in V)
        # distances that are neither clearly below nor clearly above the tolerance
        lo = 0
        for i in range(1, n):
            d = xs[i] - xs[i - 1]
            if atol / 10. < d < atol * 10.:
                return None
            if d >= atol * 10.:
                lo = i
            elif xs[i] - xs[lo] > atol / 10.:
                return None
    keys = {}
    ids = [[0] * 3 for _ in range(n)]
    for k in range(3):
        order = sorted(range(n), key=lambda i: V[i][k])
        g = 0
        for a, b in zip([None] + order, order):
            if a is not None and V[b][k] - V[a][k] > atol:
                g += 1
            ids[b][k] = g
    out = []
    for i in range(n):
        out.append(keys.setdefault(tuple(ids[i]), len(keys)))
    return out


def merge(V, F, atol):
    cl = classes(V, atol)
    if cl is None:
        return None
    W = {}
    for i, c in enumerate(cl):
        W.setdefault(c, V[i])
    return [W[i] for i in range(len(W))], [[cl[i] for i in f] for f in F]


def symmetrize(V, F, n, c):
    W, G = mirror(V, F, n, c)
    return merge(*concat(V, F, W, G), 1e-8)


def used(V, F):
    u = sorted({i for f in F for i in f})
    new = {o: k for k, o in enumerate(u)}
    return [V[i] for i in u], [[new[i] for i in f] for f in F]


def corners(f):
    """Distinct consecutive corners of a face."""
    g = [v for i, v in enumerate(f) if v != f[i - 1]]
    return g or f[:1]


def is_tri(f):
    return f[0] == f[3]


def sub(a, b):
    return [a[0] - b[0], a[1] - b[1], a[2] - b[2]]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def norm(a):
    return math.sqrt(dot(a, a))


def tris_of(f):
    return [(f[0], f[1], f[2])] if is_tri(f) else [(f[0], f[1], f[2]), (f[0], f[2], f[3])]


def area(V, f):
    return sum(0.5 * norm(cross(sub(V[b], V[a]), sub(V[c], V[a]))) for a, b, c in tris_of(f))


def drop_degenerate(V, F, rtol):
    A = [area(V, f) for f in F]
    if not A:
        return V, F
    t = rtol * sum(A) / len(A)
    if any(abs(a - t) <= 0.01 * t for a in A):
        return None
    return V, [f for f, a in zip(F, A) if a >= t]


def volume(V, F):
    """Signed volume by the divergence theorem (quadrangles cut along 0-2)."""
    return sum(dot(V[a], cross(V[b], V[c])) for f in F for a, b, c in tris_of(f)) / 6.


def total_area(V, F):
    return sum(area(V, f) for f in F)


def edges(F):
    """Undirected edge -> list of (face, direction)."""
    E = {}
    for i, f in enumerate(F):
        g = f[:3] if is_tri(f) else f
        for k in range(len(g)):
            a, b = g[k - 1], g[k]
            E.setdefault((min(a, b), max(a, b)), []).append((i, a < b))
    return E


def same_orientation_conflicts(F):
    """Pairs of faces that share an edge (used by exactly two faces) in the same direction."""
    return [e for e, u in edges(F).items() if len(u) == 2 and u[0][0] != u[1][0] and u[0][1] == u[1][1] and e[0] != e[1]]


def orientable(F):
    """Whether the faces can be oriented consistently across edges used by exactly two faces; plus number of groups."""
    adj = {i: [] for i in range(len(F))}
    for e, u in edges(F).items():
        if len(u) == 2 and u[0][0] != u[1][0]:
            (i, a), (j, b) = u
            adj[i].append((j, a == b))
            adj[j].append((i, a == b))
    col, groups = {}, 0
    for s in range(len(F)):
        if s in col:
            continue
        groups += 1
        col[s] = False
        st = [s]
        while st:
            i = st.pop()
            for j, fl in adj[i]:
                c = col[i] ^ fl
                if j not in col:
                    col[j] = c
                    st.append(j)
                elif col[j] != c:
                    return False, groups
    return True, groups


def closed(F):
    return all(len(u) == 2 for u in edges(F).values())


def solid_of(V, F):
    """Mass per density, centre and inertia matrix at the origin of a closed polyhedron, by signed tetrahedra."""
    vol, c, M = 0., [0.] * 3, [[0.] * 3 for _ in range(3)]
    for f in F:
        q = [V[k] for k in f]
        for a, b, d in ([q[0], q[1], q[2]], [q[0], q[2], q[3]]) if len(q) == 4 and q[0] != q[3] else ([q[0], q[1], q[2]],):
            v = dot(a, cross(b, d)) / 6.
            vol += v
            s = [a[k] + b[k] + d[k] for k in range(3)]
            for i in range(3):
                c[i] += v * s[i] / 4.
                for j in range(3):
                    M[i][j] += v / 20. * (s[i] * s[j] + a[i] * a[j] + b[i] * b[j] + d[i] * d[j])
    return vol, [x / vol for x in c], moment(M)


def shell_of(V, F):
    ar, c, M = 0., [0.] * 3, [[0.] * 3 for _ in range(3)]
    for f in F:
        q = [V[k] for k in f]
        for a, b, d in ([q[0], q[1], q[2]], [q[0], q[2], q[3]]) if len(q) == 4 and q[0] != q[3] else ([q[0], q[1], q[2]],):
            v = norm(cross(sub(b, a), sub(d, a))) / 2.
            ar += v
            s = [a[k] + b[k] + d[k] for k in range(3)]
            for i in range(3):
                c[i] += v * s[i] / 3.
                for j in range(3):
                    M[i][j] += v / 12. * (s[i] * s[j] + a[i] * a[j] + b[i] * b[j] + d[i] * d[j])
    return ar, [x / ar for x in c], moment(M)


def moment(M):
    t = M[0][0] + M[1][1] + M[2][2]
    return [[t * (i == j) - M[i][j] for j in range(3)] for i in range(3)]
