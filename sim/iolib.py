"""Shared pieces of the disk simulations (C01-C06)."""
import errno
import os
import sys

import numpy as np

from . import core, formats, meshgen, shim

ERR_OPEN = [errno.EACCES, errno.ENOENT, errno.EMFILE, errno.ENOSPC, errno.EROFS, errno.EDQUOT, errno.EISDIR]
ERR_WRITE = [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG]
ERR_READ = [errno.EIO, errno.ESTALE]
ERR_CLOSE = [errno.EIO, errno.ENOSPC, errno.EDQUOT]


def warm():
    """Import everything once, before forking, so that lazy imports do not differ between runs."""
    import meshmagick.mmio, meshmagick.mesh  # noqa: F401,E401
    import re, time, time as _t  # noqa: F401,E401
    import vtk  # noqa: F401
    import h5py, gmshparser  # noqa: F401,E401
    time.strftime("%c")
    # first use of the text codecs, of VTK's object factories and of numpy's lazy parts
    d = core.tempfile.mkdtemp(prefix="vwarm-")
    V = np.array([[0., 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0.]])
    F = np.array([[0, 1, 2, 3], [0, 1, 2, 0], [0, 2, 3, 0], [1, 2, 3, 1]])
    so, se = os.dup(1), os.dup(2)
    core.child_quiet()
    try:
        from meshmagick import mmio
        for f in formats.RW:
            try:
                p = os.path.join(d, "w." + f)
                mmio.write_mesh(p, V.copy(), F.copy(), f)
                mmio.load_mesh(p if os.path.exists(p) else os.path.join(d, "w." + f.upper()), f)
            except Exception:
                pass
        for f in formats.RO:
            try:
                main, files = ro_files(f, V.tolist(), F.tolist(), d + "/")
                mmio.load_mesh(main, formats.keyfmt(f))
            except Exception:
                pass
    finally:
        sys.stdout.flush(); sys.stderr.flush()
        os.dup2(so, 1); os.dup2(se, 2)
        os.close(so); os.close(se)
        core.shutil.rmtree(d, ignore_errors=True)


def arrays(mesh):
    return np.array(mesh[0], dtype=float), np.array(mesh[1], dtype=int)


def save(path, V, F, fmt, quick=False):
    """Write a mesh by the function for all formats, or by the method of the mesh that writes VTP files."""
    if quick and path.endswith(".vtp"):
        from meshmagick.mesh import Mesh
        m = Mesh(V, F)
        m.quick_save(path)
    else:
        from meshmagick import mmio
        mmio.write_mesh(path, V, F, fmt)


def outname(fmt, path):
    """The file a writer really produces: the Diodore writer upper-cases the extension."""
    if fmt == "diodore-dat":
        r, e = os.path.splitext(path)
        if not os.path.exists(path):
            return r + e.upper()
    return path


def ro_files(fmt, V, F, d):
    """Create a file of a read-only format with our own writer; returns (main path, [all paths])."""
    data = formats.emit(fmt, V, F)
    paths = []
    if isinstance(data, dict):
        main = d + "in." + fmt
        for k, b in data.items():
            p = main if k == "main" else d + k
            with open(p, "wb") as f:
                f.write(b)
            paths.append(p)
        return main, paths
    main = d + "in." + fmt
    with open(main, "wb") as f:
        f.write(data)
    return main, [main]


RO_DIGITS = ("inp", "rad", "wrl", "msh2", "msh4", "med")
BIG = 0.06        # share of meshes whose file does not fit in the buffers of python


def gen_io_mesh(rng, fmt):
    V, F = meshgen.any_mesh(rng, small=True) if rng.random() > BIG else meshgen.big_mesh(rng)
    if fmt not in RO_DIGITS and len(V) < 60 and rng.random() < .08:
        # a tiny body: vertices 2e-4 apart
        d = min([sum((a - b) ** 2 for a, b in zip(V[i], V[j])) ** .5 for i in range(len(V)) for j in range(i)] or [1.])
        V = [[float("%.9g" % (x * 2e-4 / d)) for x in v] for v in V] if 1e-3 < d else V
    if fmt == "inp":                       # one element kind per file, 7 digits
        q = [f for f in F if f[0] != f[3]]
        t = [f for f in F if f[0] == f[3]]
        F = q if q else t
        V, F = meshgen.compact(V, F)
        V = [[round(x, 7) for x in v] for v in V]
    if fmt == "rad":
        while len(F) < 3:
            F = F + F[:1]
        V = [[round(x, 9) for x in v] for v in V]
    if fmt == "wrl":
        V = [[round(x, 6) for x in v] for v in V]
    return [V, F]


def reference_polys(fmt, mesh):
    """What the complete file of this mesh means, as polygons."""
    V, F = arrays(mesh)
    return formats.polys(V, F)


def compare(fmt, want, V, F, scale):
    """Compare a loaded mesh with expected polygons; returns None or a text."""
    V = np.asarray(V); F = np.asarray(F)
    if F.ndim != 2 or F.shape[1:] != (4,):
        return "faces array has shape %s" % (F.shape,)
    if V.ndim != 2 or V.shape[1:] != (3,):
        return "vertices array has shape %s" % (V.shape,)
    if F.dtype.kind not in "iu":
        return "faces dtype %s" % F.dtype
    if len(F) and (F.min() < 0 or F.max() >= len(V)):
        return "face indices outside the vertex table"
    if not np.isfinite(V).all():
        return "non-finite coordinates"
    got = formats.polys(V, F)
    eps = formats.tol(fmt, scale)
    if fmt == "stl":
        return formats.same_triangulated(want, got, eps)
    return formats.same_polys(want, got, eps)


def scale_of(mesh):
    return max([abs(x) for v in mesh[0] for x in v] + [1e-3])


class StepLimit(Exception):
    pass


def bounded_call(ctx, fn, limit, cls="does-not-terminate"):
    """Run fn counting executed lines of meshmagick code; past the limit the run is a violation.

    The process ends at once in that case, because code that swallows exceptions could go on forever."""
    n = [0]

    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
            if n[0] > limit:
                sys.settrace(None)
                shim.lib().fs_pause()
                ctx.fail(cls, "more than %d steps at %s:%d" % (limit, os.path.basename(frame.f_code.co_filename), frame.f_lineno), stop=False)
                raise core.Violation(cls)
        return local

    def glob(frame, event, arg):
        f = frame.f_code.co_filename
        if "meshmagick" in f or "gmshparser" in f:
            return local
        return None
    sys.settrace(glob)
    try:
        return fn(), n[0]
    finally:
        sys.settrace(None)


def snapshot(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for x in sorted(ds):
            out[os.path.relpath(os.path.join(r, x), d) + "/"] = None
        for x in sorted(fs):
            p = os.path.join(r, x)
            with open(p, "rb") as f:
                out[os.path.relpath(p, d)] = f.read()
    return out


def benign_plan(rng):
    """A legal but unhelpful I/O schedule: short transfers, EINTR, split buffers."""
    plan = {"rules": []}
    if rng.random() < 0.6:
        plan["read_cap"] = rng.choice([1, 2, 3, 5, 7, 16, 61, 100, 509, 4096])
    if rng.random() < 0.6:
        plan["write_cap"] = rng.choice([1, 2, 3, 7, 32, 100, 1000, 4096])
    for _ in range(rng.choice([0, 0, 1, 2])):
        k = rng.choice(["read", "write"])
        plan["rules"].append({"kinds": [k], "nth": rng.randrange(0, 12), "action": rng.choice(["eintr", "short"]), "param": rng.choice([1, 2, 10])})
    return plan


def shrink_mesh(mesh):
    """Smaller variants of a mesh: fewer faces, rounder coordinates."""
    V, F = mesh
    n = len(F)
    step = n // 2
    while step >= 1:
        for s in range(0, n, step):
            G = F[:s] + F[s + step:]
            if G:
                yield list(meshgen.compact(V, G))
        step //= 2
    W = [[float(round(x)) for x in v] for v in V]
    if W != V and len({tuple(w) for w in W}) == len(V):
        yield [W, F]


def shrink_plan(plan):
    if not plan:
        return
    for i in range(len(plan.get("rules", []))):
        yield dict(plan, rules=plan["rules"][:i] + plan["rules"][i + 1:])
    for k in ("read_cap", "write_cap", "clock"):
        if plan.get(k):
            yield {a: b for a, b in plan.items() if a != k}
