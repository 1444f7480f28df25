"""C07: a command line that fails or dies before its results leaves the input and earlier outputs intact."""
import os
import signal
import sys
from collections import Counter

from .. import clilib, core, formats, iolib, meshgen, shim
from . import c04

LEVEL = "fault_enumeration"
QUICK, THOROUGH = 2800, 150000
RULE = ("a scenario is one simulated command-line process on a random mesh, option set and pre-existing output, ended by a failing option, a "
        "damaged or unreadable input, an interrupt, a termination signal or a kill at a chosen operation before the output is first opened, or "
        "by a failure or kill during the write; non-trivial when the process did not end with status 0")
REAL = ["meshmagick.cli.main", "meshmagick.mmio", "meshmagick.mesh", "meshmagick.mesh_clipper", "meshmagick.hydrostatics", "exit status and process death"]
STUB = ["read, write, open failures and kills come from the LD_PRELOAD disk simulator", "interrupts are raised by a trace function at a chosen call"]
ASSUMPTIONS = ["the first opening for writing of an output (or of a file that is renamed to one) marks the start of the results"]
warm = clilib.warm

ANY = ["openr", "read", "closer", "mkdir", "unlink", "rename", "openw", "write", "closew"]
BAD = [["-t", "1", "2"], ["--no-such-option"], ["-s", "abc"], ["-p", "Oxyz"], ["-p", "1", "2", "3"], ["-p", "1", "2", "a", "0"], ["-c", "Oxq"],
       ["-c", "1", "2"], ["-sym", "foo"], ["--mirror", "1", "2"], ["--mirror", "Q"], ["-cc", "missing.msh"], ["-cc", "."], ["-ifmt", "foo"],
       ["-ofmt", "foo"], ["-ofmt", ""], ["-hs"], ["-hs", "-mdisp", "10"], ["-hs", "-zg", "0"], ["-hs", "-zg", "0", "-mdisp", "1"], ["-md", "x"], ["-p", "Oxy", "-c", "9"], ["-p", "Oxy", "-sym", "-1"],
       ["-lid", "1", "2", "3"], ["-lid", "1", "2"], ["-cog", "1", "2", "x", "-hs"], ["-ofmt", "rad"], ["-ofmt", "inp"], ["-ofmt", "med"], ["-ofmt", "msh"],
       ["-ifmt", "gdf"], ["-ifmt", "med"], ["-ifmt", "vtp"], ["-ofmt", "wrl"]]


def gen(rng, i, tier):
    closed = rng.random() < 0.6
    V, F = meshgen.closed(rng, True) if closed else meshgen.any_mesh(rng)
    fin = rng.choice(["msh2", "msh2", "nat", "vtk", "obj", "mar", "gdf", "stl", "hst", "tec"])
    sc = {"mesh": [V, F], "fin": fin, "fout": rng.choice([f for f in formats.RW if f != "diodore-dat"]),
          "ops": clilib.gen_ops(rng, closed) + clilib.quiet_ops(rng), "same": rng.random() < 0.12,
          "existing": rng.random() < 0.8, "bad": None, "rule": None, "cut": None, "intr": None, "cc": rng.random() < 0.2}
    sc["report"] = closed and rng.random() < .35
    k = rng.random()
    if k < 0.3:
        sc["bad"] = rng.choice(BAD)
    elif k < 0.42:
        sc["cut"] = {"mode": rng.choice(["frac", "tail", "line", "token"]), "x": rng.random(), "n": rng.randint(0, 40), "of": rng.choice(["in", "cc"])}
    elif k < 0.52:
        sc["rule"] = {"when": "before", "kind": rng.choice(["openr", "read", "read"]), "frac": rng.random(), "action": rng.choice(["errno", "sticky"])}
    elif k < 0.7:
        sc["rule"] = {"when": "before", "kind": "any", "frac": rng.random(), "action": "crash"}
    elif k < 0.85:
        sc["intr"] = {"frac": rng.random(), "exc": rng.choice(["KeyboardInterrupt", "SIGTERM", "MemoryError", "kill"])}
    else:
        sc["rule"] = {"when": "during", "kind": rng.choice(["write", "openw", "closew"]), "frac": rng.random(), "action": rng.choice(["errno", "sticky", "crash"])}
    return sc


def setup(ctx, sc, d):
    from meshmagick import mmio
    os.mkdir(d)
    fin = sc["fin"]
    paths = {}
    for n in ("in", "cc"):
        p = d + n + "." + formats.keyfmt(fin)
        if fin in formats.RW:
            V, F = iolib.arrays(sc["mesh"])
            mmio.write_mesh(os.path.relpath(p), V, F, fin)
        else:
            with open(p, "wb") as f:
                f.write(formats.emit(fin, *sc["mesh"]))
        paths[n] = p
    if sc["cut"]:
        v = paths["cc" if sc["cc"] and sc["cut"]["of"] == "cc" else "in"]
        data = open(v, "rb").read()
        with open(v, "wb") as f:
            f.write(data[:c04.cut_at(data, sc["cut"])])
    out = paths["in"] if sc["same"] else d + "out." + sc["fout"]
    if sc["existing"] and not sc["same"]:
        with open(out, "wb") as f:
            f.write(b"earlier result, not a mesh\n" * 40)
    for n in ("out.bak", "notes.txt", "out", "in"):
        with open(d + n, "w") as f:
            f.write("bystander\n")
    argv = [os.path.basename(paths["in"]), "-o", os.path.basename(out)] + clilib.flat(sc["ops"])
    if sc["cc"]:
        argv += ["-cc", os.path.basename(paths["cc"])]
    if sc.get("report"):
        with open(d + "report.txt", "w") as f:
            f.write("an earlier report\n" * 20)
        argv += ["-hs", "--hs-report", "report.txt"] + ([] if sc["bad"] else ["-zg", "0"])
    return argv + (sc["bad"] or []), out, paths["in"]


def results_start(log, names):
    """Index of the log line with which the results begin: an output (or the file renamed to it later) is opened for writing."""
    direct = None
    for i, l in enumerate(log):
        k = l.split(" ")
        if direct is None and k[0] == "openw" and k[1] in names:
            direct = i
        if k[0] in ("rename", "link") and k[1] in names:
            return next((j for j, m in enumerate(log) if m.startswith("openw ")), i)
    return len(log) if direct is None else direct


def outputs(sc, out):
    return {os.path.basename(out), "report.txt"} | {"Lid_%d.obj" % k for k in range(1, 9)}


def tracer(limit, exc, counter=None, names=()):
    """Counts calls into meshmagick; raises or kills at number `limit`, or records the count at the start of the results."""
    n = [0]
    L = shim.lib()
    wr = shim.KINDS.index("openw")
    seen = [0, False]

    def glob(frame, event, arg):
        if "meshmagick" in frame.f_code.co_filename:
            n[0] += 1
            if counter is not None:
                w = L.fs_kind_ops(wr)
                if w != seen[0] and not seen[1]:
                    seen[0] = w
                    log = shim.log().split("\n")
                    seen[1] = results_start(log, names) < len(log)
                if not seen[1]:
                    counter[0] = n[0]
            elif n[0] == limit:
                sys.settrace(None)
                if exc == "kill":
                    os.kill(os.getpid(), 9)
                if exc == "SIGTERM":
                    os.kill(os.getpid(), signal.SIGTERM)
                raise {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[exc]()
        return None
    return lambda: sys.settrace(glob)


def dry(ctx, sc, d):
    """Fault-free run: file operations before the first opening for writing, calls before it, exit status."""
    argv, out, src = setup(ctx, sc, d)
    cnt = [0]

    def body(w):
        code, rep, err = clilib.process_body(argv, d, d, {"clock": [10**18, 0]}, None, None, tracer(0, None, cnt, outputs(sc, out)))
        first = Counter()
        log = shim.log().split("\n")
        for l in log[:results_start(log, outputs(sc, out))]:
            k = l.split(" ")[0]
            if k in ANY:
                first[k] += 1
        first["total"] = sum(first.values())
        os.write(w, core.json.dumps([cnt[0], rep["kinds"], first, err]).encode())
        return code
    code, o = core.fork_call(body)
    cnt, kinds, first, err = core.json.loads(o) if o else (1, {}, 0, "")
    return code, cnt, kinds, first, err


def run(sc, ctx):
    d0, d = ctx.dir + "ref/", ctx.dir + "disk/"
    plan = {"rules": [], "clock": [10**18, 0], "max_ops": 200000}
    before = None
    r = sc["rule"]
    expect = "before"
    if r or sc["intr"]:
        code, calls, kinds, first, err = dry(ctx, sc, d0)
        ctx.stats["reference-run-ok" if code == 0 else "reference-run-fails"] += 1
        if code:
            ctx.log("dry", err)
        if r and r["when"] == "before":
            ks = ANY if r["kind"] == "any" else [r["kind"]]
            n = first["total"] + 1 if r["kind"] == "any" else first.get(r["kind"], 1)
            plan["rules"].append({"kinds": ks, "nth": int(r["frac"] * n), "action": r["action"], "param": 5})
        elif r:
            expect = "during"
            plan["rules"].append({"kinds": [r["kind"]], "nth": int(r["frac"] * kinds.get(r["kind"], 1)), "action": r["action"], "param": 28})
        else:
            before = tracer(1 + int(sc["intr"]["frac"] * max(1, calls - 2)), sc["intr"]["exc"])
    argv, out, src = setup(ctx, sc, d)
    old = iolib.snapshot(d)
    res = clilib.run(ctx, argv, d, prefix=d, plan=plan, before=before)
    code = res["code"]
    new = iolib.snapshot(d)
    what = "bad option %s" % sc["bad"] if sc["bad"] else "cut input" if sc["cut"] else "%(when)s %(kind)s %(action)s" % r if r else "interrupt %s" % sc["intr"]["exc"]
    ctx.log(argv, what, code, res["err"])
    ctx.cover.add("%s/%s" % (what.split("[")[0], "dead" if code > 128 else code))
    if code == 0:
        ctx.stats["outcome:exit-0"] += 1
    else:
        ctx.nontrivial = True
        ctx.stats["fault:" + ("bad-option" if sc["bad"] else "torn-input" if sc["cut"] else "%(when)s-%(kind)s-%(action)s" % r if r else "interrupt-" + sc["intr"]["exc"])] += 1
    name = os.path.basename(src)
    if (code != 0 or not sc["same"]) and not (sc["same"] and expect == "during"):
        if new.get(name, 0) != old[name]:
            ctx.fail("input-changed", "%s (exit status %d): the input file was %s; command line %s" % (what, code, "removed" if name not in new else "changed", argv))
    if code == 0:
        return
    oname = os.path.basename(out)
    for f in sorted(set(old) | set(new)):
        if old.get(f, 0) == new.get(f, 0):
            continue
        if expect == "during" and (f == oname or f not in old):
            continue
        if f == "report.txt" and (expect == "during" or (sc["bad"] or [""])[0] == "-ofmt"):
            continue            # a result of its own, written before the mesh
        ctx.fail("output-damaged", "%s (exit status %d) before any result: %s %s; command line %s" % (
            what, code, f, "appeared" if f not in old else "disappeared" if f not in new else "changed", argv))


def shrink(sc):
    for i in range(len(sc["ops"])):
        yield dict(sc, ops=sc["ops"][:i] + sc["ops"][i + 1:])
    if sc.get("report"):
        yield dict(sc, report=False)
    if sc["cc"]:
        yield dict(sc, cc=False)
    if sc["fin"] != "msh2":
        yield dict(sc, fin="msh2")
    if sc["fout"] != "nat":
        yield dict(sc, fout="nat")
    for m in iolib.shrink_mesh(sc["mesh"]):
        yield dict(sc, mesh=m)
