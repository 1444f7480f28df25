"""Seeded random meshes (vertices: list of [x,y,z], faces: list of [a,b,c,d], triangles have d == a)."""
import math


def grid(rng, nx, ny):
    V, F = [], []
    for j in range(ny + 1):
        for i in range(nx + 1):
            V.append([float(i), float(j), 0.3 * math.sin(1.3 * i + 0.7 * j)])
    w = nx + 1
    for j in range(ny):
        for i in range(nx):
            F.append([j * w + i, j * w + i + 1, (j + 1) * w + i + 1, (j + 1) * w + i])
    return V, F


def box(rng, a=2., b=2., c=2., n=1):
    """Closed box, outward normals, n x n quads per side, vertices shared."""
    V, F, ids = [], [], {}

    def vid(p):
        k = tuple(round(x, 9) for x in p)
        if k not in ids:
            ids[k] = len(V)
            V.append([float(x) for x in p])
        return ids[k]
    for axis in range(3):
        for side in (0, 1):
            u, v = [(1, 2), (2, 0), (0, 1)][axis]
            for i in range(n):
                for j in range(n):
                    q = []
                    for (s, t) in ((i, j), (i + 1, j), (i + 1, j + 1), (i, j + 1)):
                        p = [0., 0., 0.]
                        p[axis] = float(side)
                        p[u] = s / n
                        p[v] = t / n
                        q.append(vid([(p[0] - .5) * a, (p[1] - .5) * b, (p[2] - .5) * c]))
                    F.append(q if side else q[::-1])
    return V, F


def prism(rng, n=6, r=1., h=2., rings=1, cap_tri=True):
    """Closed vertical cylinder with n sectors: quads on the side, triangles on the caps."""
    V, F = [], []
    for k in range(rings + 1):
        z = -h / 2 + h * k / rings
        for i in range(n):
            t = 2 * math.pi * i / n
            V.append([r * math.cos(t), r * math.sin(t), z])
    for k in range(rings):
        for i in range(n):
            j = (i + 1) % n
            F.append([k * n + i, k * n + j, (k + 1) * n + j, (k + 1) * n + i])
    b, t = len(V), len(V) + 1
    V.append([0., 0., -h / 2]); V.append([0., 0., h / 2])
    for i in range(n):
        j = (i + 1) % n
        F.append([b, j, i, b])
        F.append([t, rings * n + i, rings * n + j, t])
    return V, F


def sphere(rng, n=6, m=4, r=1.):
    V, F = [[0., 0., -r]], []
    for k in range(1, m):
        ph = -math.pi / 2 + math.pi * k / m
        for i in range(n):
            t = 2 * math.pi * i / n
            V.append([r * math.cos(ph) * math.cos(t), r * math.cos(ph) * math.sin(t), r * math.sin(ph)])
    V.append([0., 0., r])
    top = len(V) - 1
    for i in range(n):
        j = (i + 1) % n
        F.append([0, 1 + j, 1 + i, 0])
        F.append([top, 1 + (m - 2) * n + i, 1 + (m - 2) * n + j, top])
    for k in range(m - 2):
        for i in range(n):
            j = (i + 1) % n
            F.append([1 + k * n + i, 1 + k * n + j, 1 + (k + 1) * n + j, 1 + (k + 1) * n + i])
    return V, F


def tetra(rng):
    V = [[0., 0., 0.], [1., 0., 0.], [0., 1., 0.], [0., 0., 1.]]
    F = [[0, 2, 1, 0], [0, 1, 3, 0], [1, 2, 3, 1], [0, 3, 2, 0]]
    return V, F


def hull(rng, nx=6, nz=3):
    """Closed ship-like body (elliptic waterlines), quads + end triangles."""
    V, F = sphere(rng, nx, nz + 1, 1.)
    V = [[3. * x, 1.2 * y, 1.5 * z] for x, y, z in V]
    return V, F


def affine(V, s, t):
    return [[x * s[0] + t[0], y * s[1] + t[1], z * s[2] + t[2]] for x, y, z in V]


def rotate(V, rng):
    a, b = rng.uniform(0, 2 * math.pi), rng.uniform(0, 2 * math.pi)
    ca, sa, cb, sb = math.cos(a), math.sin(a), math.cos(b), math.sin(b)
    V = [[ca * x - sa * y, sa * x + ca * y, z] for x, y, z in V]
    return [[x, cb * y - sb * z, sb * y + cb * z] for x, y, z in V]


def split_some(rng, F, p):
    out = []
    for f in F:
        if f[0] != f[3] and rng.random() < p:
            out.append([f[0], f[1], f[2], f[0]])
            out.append([f[0], f[2], f[3], f[0]])
        else:
            out.append(f)
    return out


def closed(rng, small=False):
    k = rng.randrange(5)
    if k == 0:
        V, F = box(rng, 2, 2, 2, rng.choice([1, 1, 2] if small else [1, 2, 3]))
    elif k == 1:
        V, F = prism(rng, rng.randint(3, 6 if small else 10), 1., 2., rng.randint(1, 1 if small else 3))
    elif k == 2:
        V, F = sphere(rng, rng.randint(4, 5 if small else 9), rng.randint(3, 3 if small else 6))
    elif k == 3:
        V, F = hull(rng, rng.randint(4, 5 if small else 9), rng.randint(3, 3 if small else 5))
    else:
        V, F = tetra(rng)
    if rng.random() < 0.4:
        F = split_some(rng, F, rng.choice([0.3, 1.0]))
    return V, F


def compact(V, F):
    """Drop unused vertices."""
    used = sorted({i for f in F for i in f})
    new = {o: n for n, o in enumerate(used)}
    return [V[i] for i in used], [[new[i] for i in f] for f in F]


def big_mesh(rng):
    """Some hundreds of faces: files of tens of kilobytes."""
    k = rng.randrange(3)
    if k == 0:
        V, F = grid(rng, rng.randint(10, 18), rng.randint(10, 16))
    elif k == 1:
        V, F = prism(rng, rng.randint(12, 24), 1., 2., rng.randint(5, 9))
    else:
        V, F = box(rng, 2, 2, 2, rng.randint(4, 6))
    F = split_some(rng, F, rng.choice([0, 0, .5]))
    s = rng.choice([1., 1., 10., 123.456])
    V = affine(V, (s, s, s), [rng.choice([0., rng.uniform(-5, 5) * s]) for _ in range(3)])
    return [[float("%.9g" % x) for x in v] for v in V], [list(map(int, f)) for f in F]


def any_mesh(rng, small=True, allow_tiny=True, magnitude=True):
    """Open or closed, mixed faces, any size from a single face upwards."""
    k = rng.random()
    if k < 0.55:
        V, F = closed(rng, small)
    else:
        V, F = grid(rng, rng.randint(1, 3 if small else 6), rng.randint(1, 3 if small else 6))
        F = split_some(rng, F, rng.choice([0, .5, 1]))
    if rng.random() < 0.35:
        V = rotate(V, rng)
    if allow_tiny and rng.random() < 0.3:
        F = [F[i] for i in sorted(rng.sample(range(len(F)), min(len(F), rng.randint(1, 4))))]
        V, F = compact(V, F)
    if rng.random() < 0.3:
        F = list(F)
        rng.shuffle(F)
    if magnitude:
        s = rng.choice([1., 1., 10., 123.456, 0.37])
        t = [rng.choice([0., 0., rng.uniform(-5, 5) * s]) for _ in range(3)]
        V = affine(V, (s, s, s), t)
    F = [[f[1], f[2], f[0], f[1]] if f[0] == f[3] and rng.random() < .3 else list(f) for f in F]
    return [[float("%.9g" % x) for x in v] for v in V], [list(map(int, f)) for f in F]
