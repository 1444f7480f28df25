"""Interpreters with other hash seeds, environments and memory contents, warmed once and forked per simulated command line."""
import json
import os
import random
import resource
import socket
import subprocess
import sys
import tempfile

from . import core

KINDS = [
    {"PYTHONHASHSEED": "0"},
    {"PYTHONHASHSEED": "12345", "LC_ALL": "C", "TZ": "XYZ-11", "MALLOC_PERTURB_": "165", "HOME": "/nonexistent", "COLUMNS": "20", "LANG": "fr_FR"},
    {"PYTHONHASHSEED": "777", "LC_ALL": "POSIX", "TZ": "ABC5", "MALLOC_PERTURB_": "90", "USER": "somebody", "TERM": "dumb", "NO_COLOR": "1"},
]
_z = None


def start():
    """Called once before the workers are forked."""
    global _z
    d = tempfile.mkdtemp(prefix="vzyg-")
    _z = []
    for i, k in enumerate(KINDS):
        env = dict(os.environ, **k)
        env.pop("VSIM_BOOT", None)
        env["VSIM_BOOT"] = "1"
        path = os.path.join(d, "z%d" % i)
        s = socket.socket(socket.AF_UNIX)
        s.bind(path)
        s.listen(64)
        p = subprocess.Popen([sys.executable, "-B", "-m", "sim.zygote"], stdin=subprocess.PIPE, env=env, pass_fds=[s.fileno()],
                             stdout=subprocess.DEVNULL, stderr=None if os.environ.get("VSIM_VERBOSE") else subprocess.DEVNULL, cwd=core.VERIF)
        p.stdin.write(("%d\n" % s.fileno()).encode())
        p.stdin.flush()
        s.close()
        _z.append((p, path))
    import atexit
    owner = os.getpid()

    def stop():
        if os.getpid() == owner:
            for p, path in _z:
                p.kill()
                p.wait()
            core.shutil.rmtree(d, ignore_errors=True)
    atexit.register(stop)


def call(i, req):
    """Run one request in a fork of zygote i; returns its reply (None when the process died)."""
    s = socket.socket(socket.AF_UNIX)
    s.settimeout(core.WALL_LIMIT)
    s.connect(_z[i][1])
    s.sendall(json.dumps(req).encode() + b"\n")
    out = b""
    while True:
        b = s.recv(1 << 16)
        if not b:
            break
        out += b
    s.close()
    return json.loads(out) if out else None


def serve(req):
    from . import clilib
    import numpy as np
    rec = []
    for k, v in req.get("env", {}).items():
        os.environ[k] = v
    rng = random.Random(req["rand"])
    random.seed(rng.random())
    np.random.seed(rng.randrange(2**32))
    os.urandom = lambda n: bytes(rng.randrange(256) for _ in range(n))

    def spy(name):
        f = sys._getframe(2)
        while f is not None and ("_collections_abc" in f.f_code.co_filename or f.f_code.co_filename.endswith("os.py") or "frozen os" in f.f_code.co_filename):
            f = f.f_back
        if f is not None and "meshmagick" in os.path.basename(os.path.dirname(f.f_code.co_filename)) and name not in rec:
            rec.append(name)
    C = type(os.environ)
    get = C.__getitem__

    def getitem(self, k):
        spy(k)
        return get(self, k)
    C.__getitem__ = getitem

    def before():
        import atexit
        import shutil
        keep = sys.argv
        from meshmagick import cli
        first = req.get("first", [])
        here = req.get("restore")
        if any(c["put"] for c in first):
            shutil.copytree(here, req["outfile"] + ".kept")          # keeps the times
        for c in first:
            if c["put"]:
                t = os.stat(c["put"][1])
                shutil.copyfile(*c["put"])
                os.utime(c["put"][1], ns=(t.st_atime_ns, t.st_mtime_ns))
            sys.argv = ["meshmagick"] + c["argv"]
            try:
                cli.main()
            except (Exception, SystemExit):
                pass
            if c["put"]:
                for f in os.listdir(here):
                    os.unlink(os.path.join(here, f))
                shutil.copytree(req["outfile"] + ".kept", here, dirs_exist_ok=True)
        sys.argv = keep
        # what earlier conversions printed is not part of this run
        sys.stdout.flush()
        os.ftruncate(1, 0)
        os.lseek(1, 0, os.SEEK_SET)
    code, rep, err = clilib.process_body(req["argv"], req["cwd"], req["prefix"], req["plan"], req["outfile"], None, before)
    return {"code": code, "report": rep, "err": err, "env": rec}


def main():
    import gc
    import signal
    import select
    fd = int(sys.stdin.readline())
    from . import clilib
    clilib.warm()
    gc.collect()
    gc.freeze()
    s = socket.socket(fileno=fd)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    while True:
        rd, _, _ = select.select([s, 0], [], [])
        if 0 in rd and not os.read(0, 100):
            return
        if s not in rd:
            continue
        c, _ = s.accept()
        if os.fork() == 0:
            try:
                signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                s.close()
                resource.setrlimit(resource.RLIMIT_CPU, (core.CPU_LIMIT, core.CPU_LIMIT + 5))
                resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))
                b = b""
                while not b.endswith(b"\n"):
                    b += c.recv(1 << 16)
                r = serve(json.loads(b))
                c.sendall(json.dumps(r).encode())
            except BaseException as e:
                try:
                    c.sendall(json.dumps({"harness": "%s: %s" % (type(e).__name__, e)}).encode())
                except OSError:
                    pass
            os._exit(0)
        c.close()


if __name__ == "__main__":
    main()
