"""C05: loading ends within steps bounded by the file size, whatever was lost from the file and whatever the disk does."""
import json
import os
import random
import re

from .. import clilib, core, foreign, formats, iolib, meshgen, shim
from . import c04

LEVEL = "fault_enumeration"
QUICK, THOROUGH = 6000, 300000
RULE = ("a scenario is a file of a random mesh in any readable format, damaged (cut at a byte, lines lost or repeated, a count changed, "
        "emptied) and loaded while reads are capped, shortened, interrupted or failing; the load may execute a number of lines of loader "
        "code and of file operations linear in the file size; non-trivial when the file was damaged or a fault fired")
REAL = ["meshmagick.mmio readers", "gmshparser", "VTK readers", "h5py/HDF5", "CPython file objects"]
STUB = ["read failures, short and interrupted reads come from the LD_PRELOAD disk simulator", "files of read-only formats are produced by our own writers"]
ASSUMPTIONS = ["steps are counted in executed Python lines of meshmagick and gmshparser (limit 5000 + 10 per byte) and in file operations "
               "(limit 3000 + 20 per byte); loops inside regular expressions or VTK are bounded by a CPU limit of %d s" % core.CPU_LIMIT]
warm = clilib.warm


HAND = ("mar", "nem", "nat", "gdf", "hst", "diodore-dat", "tec", "pnl", "rad", "msh2", "msh4", "inp")      # readers written here


def gen(rng, i, tier):
    fmt = c04.ALL[i % len(c04.ALL)]
    sc = {"fmt": fmt, "mesh": iolib.gen_io_mesh(rng, fmt), "part": 0, "damage": [], "rules": []}
    if rng.random() < 0.03:
        sc["mesh"] = big(rng, fmt)
    if fmt in HAND and rng.random() < .35:
        sc["st"] = foreign.style(rng, fmt)       # the layout of another program
    for _ in range(rng.choice([0, 1, 1, 1, 1, 2, 3])):
        k = rng.choice(["cut", "cut", "cut", "line-lost", "line-twice", "count", "empty", "lines-end", "bit", "digit", "digit"])
        sc["damage"].append([k, rng.choice(["frac", "tail", "line", "token"]), rng.random(), rng.randint(0, 40)])
    if fmt == "inp" and rng.random() < .7:
        sc["part"] = 1
    for _ in range(rng.choice([0, 0, 1, 2])):
        k = rng.choice(["read", "read", "openr"])
        sc["rules"].append({"kinds": [k], "nth": rng.randrange(0, 12 if k == "read" else 3), "param": rng.choice(iolib.ERR_READ),
                            "action": rng.choice(["errno", "sticky", "eintr", "short"]) if k == "read" else "errno"})
    sc["read_cap"] = rng.choice([None, 1, 2, 7, 100, 1000])
    return sc


def fixed_scenarios(tier):
    """The two known findings, so that each run shows whether they are still there."""
    T = [[[0., 0., 0.], [1., 0., 0.], [0., 1., 0.]], [[0, 1, 2, 0]]]
    return [{"fmt": fmt, "mesh": T, "part": 0, "damage": [["replace", old, new, 0]], "rules": [], "read_cap": None}
            for fmt, old, new in (("vtu", 'NumberOfCells="1"', 'NumberOfCells="-1"'), ("wrl", "1.000000 0.000000 0.000000", "1,000000 0.000000 0.000000"))]


def big(rng, fmt):
    k = rng.choice([14, 40, 40])        # 40: some thousands of lines, where more than linear work shows
    V, F = meshgen.grid(rng, k, k)
    V = [[round(float(x), 6) for x in v] for v in V]
    return list(meshgen.compact(V, F))


def damage(data, dmg):
    k, mode, x, n = dmg
    if k == "cut":
        return data[:c04.cut_at(data, {"mode": mode, "x": x, "n": n})] if data else data
    if k == "empty":
        return b""
    if k == "replace":
        return data.replace(mode.encode(), x.encode())
    if k == "bit" and data:
        j = int(x * len(data))
        return data[:j] + bytes([data[j] ^ 1 << n % 8]) + data[j + 1:]
    if k == "digit":
        at = [j for j, b in enumerate(data[:200000]) if 48 <= b < 58] if n % 4 else [j for j, b in enumerate(data[:300]) if 48 <= b < 58]
        if not at:
            return data
        j = at[int(x * len(at))]
        return data[:j] + b"0123456789-. "[n % 13:n % 13 + 1] + data[j + 1:]
    lines = data.split(b"\n")
    j = int(x * len(lines))
    if k == "line-lost":
        del lines[j]
    elif k == "lines-end":
        lines += [b""] * n
    elif k == "line-twice":
        lines.insert(j, lines[j])
    else:                       # one number of the header or of a line is replaced
        j = int(x * min(len(lines), 12)) if n % 2 else j
        w = lines[j].split(b" ")
        idx = [a for a, t in enumerate(w) if t.strip().isdigit()]
        if idx:
            a = idx[n % len(idx)]
            w[a] = b"%d" % (int(w[a]) + [1, -1, 7, 400, -int(w[a])][n % 5])
        lines[j] = b" ".join(w)
    return b"\n".join(lines)


def run(sc, ctx):
    from meshmagick import mmio
    fmt = sc["fmt"]
    if sc.get("st"):
        d = ctx.dir + "disk/"
        os.mkdir(d)
        main = d + "in." + fmt
        out = foreign.emit(fmt, *sc["mesh"], sc["st"], random.Random(sc["st"]["seed"]))
        paths = []
        for k, b in (out if isinstance(out, dict) else {"main": out}).items():
            paths.append(main if k == "main" else d + k)
            with open(paths[-1], "wb") as h:
                h.write(b)
        ctx.stats["probe:foreign-layout"] += 1
    else:
        d, main, paths = c04.prepare(ctx, sc)
    kf = formats.keyfmt(fmt)
    victim = paths[min(sc["part"], len(paths) - 1)]
    data = open(victim, "rb").read()
    new = data
    for dmg in sc["damage"]:
        new = damage(new, dmg)
    if new != data:
        ctx.nontrivial = True
        for dmg in sc["damage"]:
            ctx.stats["fault:file-" + dmg[0]] += 1
        with open(victim, "wb") as h:
            h.write(new)
    size = sum(os.path.getsize(p) for p in paths)
    plan = {"rules": sc["rules"], "read_cap": sc["read_cap"], "max_ops": 3000 + 20 * size}

    def load(w=None):
        shim.begin(d, plan)
        err = ""
        steps = 0
        try:
            _, steps = iolib.bounded_call(ctx, lambda: mmio.load_mesh(main, kf), 5000 + 10 * size)
        except core.Violation:
            shim.end()
            if w is None:
                raise
            os.write(w, json.dumps([ctx.violations, "", {}, 0]).encode())
            return
        except Exception as e:
            err = type(e).__name__
        rep = shim.report()
        shim.end()
        if w is not None:
            os.write(w, json.dumps([[], err, rep, steps]).encode())
            return
        return err, rep, steps
    if fmt in ("wrl", "vtu", "vtp"):      # VTK's VRML scanner may end the process (see KNOWN_FINDINGS, C04): that is termination too
        st, out = core.fork_call(load)
        if out:
            viol, err, rep, steps = json.loads(out)
            if viol:
                ctx.violations += viol
                raise core.Violation("does-not-terminate")
        else:
            if st in (78, 128 + 9, 128 + 14, 128 + 24):
                ctx.fail("does-not-terminate", fmt + ": the load used up its budget of file operations or CPU time (status %d)" % st)
            if fmt != "wrl" or st == 128 + 11:
                key = "crash:" + fmt
                if fmt in ("vtu", "vtp") and st == 128 + 11 and re.search(rb'NumberOf(Points|Cells|Polys|Verts|Lines|Strips) *= *"[^"]*-', new):
                    key = "crash:negative-count-in-xml"
                elif fmt == "wrl" and any(len(re.findall(rb"[^\s,]+", p)) % 3 for p in re.findall(rb"point *\[([^\]]*)\]", new)):
                    key = "crash:vrml-points-not-triples"
                ctx.fail("process-died", "%s: the load ended the process with status %d" % (fmt, st), key=key)
            err, rep, steps = "exit%d" % st, {"fired": [1], "short_reads": 0, "hash": ""}, 0
    else:
        err, rep, steps = load()
    for r, n in zip(sc["rules"], rep["fired"]):
        if n:
            ctx.nontrivial = True
            ctx.stats["fault:%s-%s" % (r["kinds"][0], r["action"])] += 1
    ctx.stats["fault:short-read"] += rep["short_reads"]
    ctx.cover.add("%s/%s/%s" % (fmt, "+".join(sorted({x[0] for x in sc["damage"]})), "raise" if err else "return"))
    ctx.log(fmt, err, rep["hash"])
    ctx.stats["outcome:raised" if err else "outcome:returned"] += 1


def shrink(sc):
    if sc.get("st"):
        yield {k: x for k, x in sc.items() if k != "st"}
    for i in range(len(sc["rules"])):
        yield dict(sc, rules=sc["rules"][:i] + sc["rules"][i + 1:])
    for i in range(len(sc["damage"])):
        yield dict(sc, damage=sc["damage"][:i] + sc["damage"][i + 1:])
    if sc["read_cap"]:
        yield dict(sc, read_cap=None)
    for m in iolib.shrink_mesh(sc["mesh"]):
        yield dict(sc, mesh=m)
