"""Simulated command-line processes: forked from a warmed interpreter, real exit codes, simulated disk."""
import gc
import json
import os
import sys
import traceback

from . import core, formats, iolib, meshgen, shim


def warm():
    iolib.warm()
    import meshmagick.cli  # noqa: F401
    import meshmagick.hydrostatics  # noqa: F401


def process_body(argv, cwd, prefix, plan, outfile=None, gates=None, before=None, crash_after=False, stdout=None):
    """Body of a simulated process (already forked). Returns (exit code, report)."""
    os.chdir(cwd)
    fd = os.open(outfile or "/dev/null", os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    os.close(fd)
    from meshmagick import cli
    sys.argv = ["meshmagick"] + [str(a) for a in argv]
    if before:
        before()
    shim.begin(prefix, plan)
    if stdout:
        # the standard output is a file of the simulated disk
        os.dup2(os.open(stdout, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600), 1)
    if gates:
        shim.lib().fs_gate(gates[0], gates[1])
    code = 0
    err = ""
    try:
        cli.main()
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    except KeyboardInterrupt:
        code = 130
        err = "KeyboardInterrupt"
    except BaseException as e:
        err = "%s: %s" % (type(e).__name__, e)
        try:
            traceback.print_exc()
        except Exception:
            pass
        e.__traceback__ = None
        del e
        code = 1
    if crash_after:
        # abrupt end right after main returned: nothing is flushed any more
        rep = shim.report()
        shim.lib().fs_pause()
        return code, rep, err
    try:
        gc.collect()
        sys.stdout.flush()
        sys.stderr.flush()
    except Exception:
        code = code or 120
    rep = shim.report()
    rep["leaked"] = shim.open_fds()
    shim.end()
    return code, rep, err


def run(ctx, argv, cwd, prefix=None, plan=None, outfile=None, before=None, crash_after=False, stdout=None):
    """Run one command line to its end; returns dict(code, report or None, err)."""
    def body(w):
        code, rep, err = process_body(argv, cwd, prefix or cwd, plan, outfile, None, before, crash_after, stdout)
        os.write(w, json.dumps({"rep": rep, "err": err.replace(ctx.dir, "<disk>/")}).encode())
        return code
    code, out = core.fork_call(body)
    d = json.loads(out) if out else {"rep": None, "err": "killed"}
    return {"code": code, "report": d["rep"], "err": d["err"]}


# ------------------------------------------------------------------ option generator
def _f(rng, lo, hi):
    return float("%.4f" % float("%.4g" % rng.uniform(lo, hi)))      # argparse takes -1e-5 for an option


KEYS = ["Oxy", "Oxz", "Oyz", "/Oxy", "/Oxz", "/Oyz"]


def gen_ops(rng, closed, allow_clip=True):
    """A random set of documented processing options, as (argv list).  At most one of each kind except -sym/-c/-p."""
    ops = []

    def add(p, *a):
        if rng.random() < p:
            ops.append(list(map(str, a)))
    planes = []
    if rng.random() < 0.3:
        for _ in range(rng.choice([1, 2, 2, 3, 3, 4])):
            if rng.random() < 0.5:
                pl = [rng.choice(KEYS)]
            else:
                n = rng.choice([[0, 0, 1], [0, 1, 0], [1, 0, 0], [0.6, 0, 0.8], [0, -0.8, 0.6]])
                pl = n + [_f(rng, -.3, .3)]
            planes.append(pl)
            ops.append(["-p"] + list(map(str, pl)))

    def plane_arg():
        k = rng.random()
        if planes and k < 0.75:
            return [str(rng.randrange(len(planes)))]
        if k < 0.8:
            return [rng.choice(KEYS)]
        n = rng.choice([[0, 0, 1], [0, 1, 0], [1, 0, 0], [0.6, 0, 0.8]])
        return list(map(str, n + [_f(rng, -.3, .3)]))
    if rng.random() < 0.25:
        ops.append(["-md"] + ([] if rng.random() < .5 else [rng.choice(["1e-8", "1e-4", "1e-3"])]))
    if rng.random() < 0.12:
        ops.append(["--mirror"] + plane_arg())
    if rng.random() < 0.12:
        for _ in range(rng.choice([1, 1, 1, 1, 2, 3])):
            ops.append(["-sym"] + (plane_arg() if rng.random() < .7 else []))
    A = rng.choice([180, 180, 400, 1000])
    add(0.08, "-hm")
    add(0.08, "-hn")
    add(0.25, "-t", *rng.choice([lambda: [_f(rng, -5, 5) for _ in range(3)]] * 2 + [lambda: [rng.choice([0, 0, _f(rng, -5, 5)]) for _ in range(3)]])())
    add(0.15, "-tx", _f(rng, -5, 5))
    add(0.15, "-ty", _f(rng, -5, 5))
    add(0.15, "-tz", _f(rng, -1, 1))
    add(0.25, "-r", *rng.choice([lambda: [_f(rng, -A, A) for _ in range(3)]] * 2 + [lambda: [rng.choice([0, 90, 180, _f(rng, -A, A)]) for _ in range(3)]])())
    add(0.15, "-rx", _f(rng, -A, A))
    add(0.15, "-ry", _f(rng, -A, A))
    add(0.15, "-rz", _f(rng, -A, A))
    add(0.2, "-s", _f(rng, .1, 10))
    add(0.12, "-sx", _f(rng, .1, 10))
    add(0.12, "-sy", _f(rng, .1, 10))
    add(0.12, "-sz", _f(rng, .1, 10))
    add(0.2, "-fn")
    add(0.2, "-tq")
    if allow_clip and closed and rng.random() < 0.2:
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            ops.append(["-c"] + (plane_arg() if rng.random() < .7 else []))
    rng.shuffle(ops)
    # -p options keep their relative order because they are numbered
    it = iter([["-p"] + list(map(str, p)) for p in planes])
    return [next(it) if o[0] == "-p" else o for o in ops]


def quiet_ops(rng):
    out = []
    if rng.random() < 0.5:
        out.append(["-q"])
    if rng.random() < 0.15:
        out.append(["-i"])
    if rng.random() < 0.1:
        out.append(["--quality"])
    if rng.random() < 0.05:
        out.append(["--list-medium"])
    return out


def flat(ops):
    # a negative first argument of an nargs='+' string option would be read as an option: argparse
    # accepts negative numbers as values, so no escaping is needed
    return [a for o in ops for a in o]
