"""Builds, preloads and drives the fault-injection shim (see shim/faultsim.c)."""
import ctypes
import hashlib
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.path.join(HERE, "shim", "faultsim.c")
KINDS = ["openr", "openw", "read", "write", "closer", "closew", "rename", "unlink", "mkdir", "trunc",
         "sync", "stat", "seek", "alloc"]
KBIT = {k: 1 << i for i, k in enumerate(KINDS)}
ACTIONS = {"errno": 0, "crash": 1, "short": 2, "crash_partial": 3, "eintr": 4, "sticky": 5}


def build():
    """Compile the shim if the cached object does not match the source; return its path."""
    src = open(SRC, "rb").read()
    tag = hashlib.sha256(src).hexdigest()[:16]
    for base in (os.path.join(os.path.dirname(HERE), ".build"), "/tmp/vsim-build-%d" % os.getuid()):
        out = os.path.join(base, "libfaultsim-%s.so" % tag)
        if os.path.exists(out):
            return out
        try:
            os.makedirs(base, exist_ok=True)
            tmp = out + ".%d.tmp" % os.getpid()
            subprocess.run(["gcc", "-O2", "-fPIC", "-shared", "-w", "-o", tmp, SRC, "-ldl"], check=True)
            os.rename(tmp, out)
            return out
        except OSError:
            continue
    raise RuntimeError("cannot build the shim")


_lib = None


def lib():
    global _lib
    if _lib is None:
        L = ctypes.CDLL(None)
        L.fs_begin  # AttributeError when the shim is not preloaded
        L.fs_log.restype = ctypes.c_char_p
        L.fs_hash.restype = ctypes.c_uint64
        L.fs_open_path.restype = ctypes.c_char_p
        for f in ("fs_ops", "fs_kind_ops", "fs_rule_fired", "fs_budget_hits", "fs_short_reads",
                  "fs_short_writes", "fs_open_fds", "fs_clock_reads", "fs_alloc_count", "fs_alloc_failed"):
            getattr(L, f).restype = ctypes.c_long
        L.fs_rule.argtypes = [ctypes.c_uint, ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_char_p]
        L.fs_clock.argtypes = [ctypes.c_int, ctypes.c_int64, ctypes.c_int64]
        L.fs_budget.argtypes = [ctypes.c_long]
        L.fs_caps.argtypes = [ctypes.c_long, ctypes.c_long]
        L.fs_max_ops.argtypes = [ctypes.c_long]
        L.fs_alloc_narrow.argtypes = [ctypes.c_ulong, ctypes.c_ulong]
        L.fs_alloc_plan.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_long, ctypes.c_long]
        L.fs_open_path.argtypes = [ctypes.c_long]
        L.fs_clock_now.restype = ctypes.c_int64
        _lib = L
    return _lib


def begin(prefix, plan=None):
    """Start simulating the disk below `prefix` under the fault plan (a JSON-able dict).

    plan = {"rules": [{"kinds": ["write"], "nth": 2, "action": "errno", "param": 28, "sub": ""}],
            "budget": 100, "read_cap": 3, "write_cap": 5, "max_ops": 10000,
            "clock": [ns, step_ns], "clock_mode": 1 (2: the monotonic clock stays real)}
    """
    L = lib()
    L.fs_begin(prefix.encode())
    plan = plan or {}
    for r in plan.get("rules", []):
        mask = 0
        for k in r["kinds"]:
            mask |= KBIT[k]
        L.fs_rule(mask, r["nth"], ACTIONS[r["action"]], r.get("param", 0), r.get("sub", "").encode())
    if plan.get("budget") is not None:
        L.fs_budget(plan["budget"])
    L.fs_caps(plan.get("read_cap") or 0, plan.get("write_cap") or 0)
    L.fs_max_ops(plan.get("max_ops", -1))
    if plan.get("clock"):
        L.fs_clock(plan.get("clock_mode", 1), plan["clock"][0], plan["clock"][1])


def end():
    lib().fs_end()


def report():
    L = lib()
    return {"ops": L.fs_ops(), "kinds": {k: L.fs_kind_ops(i) for i, k in enumerate(KINDS) if L.fs_kind_ops(i)},
            "fired": [L.fs_rule_fired(i) for i in range(32)], "budget_hits": L.fs_budget_hits(),
            "short_reads": L.fs_short_reads(), "short_writes": L.fs_short_writes(),
            "clock_reads": L.fs_clock_reads(), "hash": "%016x" % L.fs_hash()}


def log():
    return lib().fs_log().decode("utf-8", "replace")


def open_fds():
    L = lib()
    return [L.fs_open_path(i).decode() for i in range(L.fs_open_fds())]


def alloc_setup():
    """Allocation failures concern numpy's array data.

    Its internal iterator buffers are left alone: numpy itself crashes when those cannot be had (it sets the exception
    without holding the interpreter lock)."""
    import numpy  # noqa: F401  (must be mapped)
    from numpy._core import _multiarray_umath as mod
    if lib().fs_alloc_module(b"_multiarray_umath"):
        return -1
    sym = {}
    for l in subprocess.run(["nm", mod.__file__], stdout=subprocess.PIPE, text=True).stdout.split("\n"):
        k = l.split()
        if len(k) == 3 and k[2] in ("default_free", "PyDataMem_SetHandler"):
            sym[k[2]] = int(k[0], 16)
    if len(sym) != 2 or sym["default_free"] >= sym["PyDataMem_SetHandler"]:
        lib().fs_alloc_plan(0, 1 << 60, -1, 0)
        return -1
    lib().fs_alloc_narrow(sym["default_free"], sym["PyDataMem_SetHandler"])
    return 0


if __name__ == "__main__":
    print(build())
    sys.exit(0)
