"""Deterministic thread scheduler.

The threads are real Python threads, but only the holder of the baton runs.  The baton changes hands only where CPython can
switch threads inside meshmagick code (function entry, backward jump, return from a call), and where, is decided by an
explicit schedule: a list of [thread, number of such points] segments.  After the last segment the running thread runs to its
end, then the next one does."""
import gc
import sys
import threading
import time
import types
from threading import get_ident

STALL = 2.0        # seconds without progress after which a thread is taken to be blocked in a lock of the code under test
DEADLOCK = 60.0


TOOL = 3
_codes = []
_handler = None


def instrument(where="/meshmagick/"):
    """Watch the switch points of all functions of meshmagick; once, after all imports and before any thread.

    (sys.settrace with opcode events is not an option: CPython 3.12 crashes when several threads trace the same code.)"""
    todo = [f.__code__ for f in gc.get_objects() if isinstance(f, types.FunctionType)]
    seen = set()
    M = sys.monitoring
    E = M.events
    M.use_tool_id(TOOL, "vsim")
    while todo:
        c = todo.pop()
        if id(c) in seen or where not in c.co_filename or "/tests/" in c.co_filename:
            continue
        seen.add(id(c))
        _codes.append(c)
        todo += [x for x in c.co_consts if isinstance(x, types.CodeType)]
    M.register_callback(TOOL, E.PY_START, lambda code, off: _handler and _handler(code, off))
    M.register_callback(TOOL, E.PY_RESUME, lambda code, off: _handler and _handler(code, off))
    M.register_callback(TOOL, E.PY_RETURN, lambda code, off, v: _handler and _handler(code, off))
    M.register_callback(TOOL, E.JUMP, lambda code, off, dst: dst < off and _handler and _handler(code, off))
    M.register_callback(TOOL, E.C_RETURN, lambda code, off, f, a: _handler and _handler(code, off))
    M.register_callback(TOOL, E.C_RAISE, lambda code, off, f, a: _handler and _handler(code, off))
    M.register_callback(TOOL, E.CALL, lambda code, off, f, a: None)
    for c in _codes:
        M.set_local_events(TOOL, c, E.PY_START | E.PY_RESUME | E.PY_RETURN | E.JUMP | E.CALL)
    return len(_codes)


def watch(fn):
    global _handler
    _handler = fn


class Count:
    """Number of switch points of a block, in this thread."""

    def __enter__(self):
        self.n = 0
        watch(self.hook)
        return self

    def hook(self, code, off):
        self.n += 1

    def __exit__(self, *a):
        watch(None)
        return False


class Stuck(Exception):
    pass


class Baton:
    def __init__(self, thunks, segments, inject=None):
        """thunks: functions; inject: {thread: (point number of that thread, exception class)}."""
        self.thunks = thunks
        self.n = len(thunks)
        self.segments = segments
        self.pos = 0
        self.ids = {}
        self.alive = [True] * self.n
        self.locks = [threading.Lock() for _ in thunks]
        for l in self.locks:
            l.acquire()
        self.done = threading.Event()
        self.cur = None
        self.left = 0
        self.points = [0] * self.n
        self.switches = 0
        self.mid = 0                 # switches away from a thread that was inside meshmagick code
        self.sites = set()
        self.out = [None] * self.n
        self.inject = inject or {}
        self.injected = {}
        self.stalls = 0
        self.trace = []

    # -- schedule
    def pick(self, me=None):
        while self.pos < len(self.segments):
            t, q = self.segments[self.pos]
            self.pos += 1
            t %= self.n
            if self.alive[t] and q > 0:
                self.left = q
                return t
        self.left = 1 << 60
        if me is not None and self.alive[me]:
            return me
        for t in range(self.n):
            if self.alive[t]:
                return t
        return None

    def give(self, t):
        self.cur = t
        try:
            self.locks[t].release()
        except RuntimeError:         # it is not waiting (declared blocked before)
            pass

    def wait(self, me):
        while True:
            self.locks[me].acquire()
            if self.cur == me:
                return

    def point(self, me, code):
        if self.cur != me:           # was declared blocked meanwhile; line up again
            self.wait(me)
        self.points[me] += 1
        if me in self.inject and self.points[me] == self.inject[me][0]:
            self.injected[me] = code.co_name
            raise self.inject[me][1]()
        self.left -= 1
        if self.left > 0:
            return
        t = self.pick(me)
        if t != me:
            self.switches += 1
            self.mid += 1
            site = code.co_name
            self.sites.add(site)
            if len(self.trace) < 300:
                self.trace.append("%d@%d %s->%d" % (me, self.points[me], site, t))
            self.give(t)
            self.wait(me)

    def finish(self, me):
        if self.cur != me:
            self.wait(me)
        self.alive[me] = False
        t = self.pick()
        if t is None:
            self.done.set()
        else:
            self.switches += 1
            self.give(t)

    # -- switch points
    def hook(self, code, offset):
        me = self.ids.get(get_ident())
        if me is not None:
            self.point(me, code)

    def body(self, me):
        self.ids[get_ident()] = me
        self.wait(me)
        try:
            self.out[me] = ("ok", self.thunks[me]())
        except BaseException as e:
            e.__traceback__ = None
            self.out[me] = ("raised", e)
        finally:
            del self.ids[get_ident()]
            self.finish(me)

    def run(self):
        watch(self.hook)
        try:
            return self._run()
        finally:
            watch(None)

    def _run(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        self.give(self.pick(0))
        seen, since, t0 = None, time.monotonic(), time.monotonic()
        while not self.done.wait(0.25):
            now = (tuple(self.points), tuple(self.alive), self.cur)
            if now != seen:
                seen, since, t0 = now, time.monotonic(), time.monotonic()
            elif time.monotonic() - t0 > DEADLOCK:
                raise Stuck("threads %s do not progress" % [i for i in range(self.n) if self.alive[i]])
            elif time.monotonic() - since > STALL:
                others = [t for t in range(self.n) if self.alive[t] and t != self.cur]
                since = time.monotonic()
                if others:
                    self.stalls += 1
                    self.give(others[self.stalls % len(others)])
        for t in ts:
            t.join(5)
        return self.out


def gen_segments(rng, n):
    """A random schedule for n threads: [thread, points], a number below 1 being a share of what the thread has to do."""
    how = rng.random()
    seg = []

    def share():
        return round(rng.choice([rng.random(), rng.random(), rng.random() ** 3, 1 - rng.random() ** 3]), 4)
    if how < 0.45:                   # a few preemptions at uniform places
        for _ in range(rng.randint(1, 6)):
            seg.append([rng.randrange(n), share()])
    elif how < 0.7:                  # log-uniform quanta
        for _ in range(rng.randint(3, 40)):
            seg.append([rng.randrange(n), 1 + int(10 ** rng.uniform(0, 3.))])
    elif how < 0.85:                 # lock step: all reach the same computation together
        q = rng.choice([1, 1, 2, 3, 5, 8])
        off = rng.randint(0, 30)
        seg.append([0, 1 + off] if rng.random() < .6 else [0, share()])
        for k in range(rng.randint(20, 200)):
            seg.append([k % n, q])
    else:                            # one thread is overtaken again and again
        v = rng.randrange(n)
        for _ in range(rng.randint(3, 25)):
            seg.append([v, 1 + int(rng.random() * 25)])
            seg.append([rng.randrange(n), share()])
    return seg


def resolve(seg, work):
    """Absolute schedule, from the number of points each thread needs when alone."""
    n = len(work)
    return [[t % n, max(1, int(q * work[t % n])) if q < 1 else int(q)] for t, q in seg]


def shrink_segments(seg):
    n = len(seg)
    step = max(1, n // 2)
    while n:
        for s in range(0, n, step):
            yield seg[:s] + seg[s + step:]
        if step == 1:
            break
        step //= 2
    for i, (t, q) in enumerate(seg):
        if q > 1:
            yield seg[:i] + [[t, int(q) // 2]] + seg[i + 1:]
