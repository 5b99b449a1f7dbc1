"""Shared bit generators: locks, words and calls of several threads (L01, L02)."""
import ctypes as ct
import json
import sys
import threading
import time
import warnings
from pathlib import Path

import numpy as np
import randomgen as rg

import refusals as RF
from profiles import P, w64
from rec import SegAbort, adv_arg, enc
from shapes import BIG, can_advance

sys.unraisablehook = lambda *_: None      # callbacks that raise


def replace_lock(bg, new):
    """puts another lock object into the bit generator (numpy declares the attribute read-only)"""
    old = bg.lock
    n = type(bg).__basicsize__ // 8
    words = (ct.c_void_p * n).from_address(id(bg))
    at = [i for i in range(2, n) if words[i] == id(old)]
    assert len(at) == 1, at
    ct.pythonapi.Py_IncRef(ct.py_object(new))
    words[at[0]] = id(new)
    assert bg.lock is new


class TraceLock:
    """the bit generator's own lock, with somebody watching"""

    def __init__(self, inner, hook):
        self.inner, self.hook = inner, hook

    def acquire(self, blocking=True, timeout=-1):
        self.hook("want")
        ok = self.inner.acquire(blocking, timeout)
        if ok:
            self.hook("acq")
        return ok

    def release(self):
        self.hook("rel")
        self.inner.release()
        self.hook("out")

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.inner.locked()


# ---- words that carry their number (up to 65536 of them)
def word(i):
    x = i << 16 | i
    return x << 32 | x


UNWORD = {"n64": lambda x: int(x) & 0xFFFF, "n32": lambda x: int(x) & 0xFFFF, "dbl": lambda x: int(x * 65536), "flt": lambda x: int(x * 65536), "ld": lambda x: int(x * 65536)}


def several(R, n):
    return R.choice([n, n, (n,), (1, n)])


def calls_of(R, n):
    """calls that draw n words: (what, function(bg, ext, gen), how to read the words from the result, words, blocks)"""
    sz = several(R, n)
    c = [("random_raw", lambda bg, e, g: bg.random_raw(sz), "n64"),
         ("raw quiet", lambda bg, e, g: bg.random_raw(n, output=False), None),
         ("benchmark", lambda bg, e, g: bg._benchmark(n, "uint64"), None),
         ("benchmark d", lambda bg, e, g: bg._benchmark(n, "double"), None),
         ("uintegers", lambda bg, e, g: e.uintegers(sz), "n64"),
         ("uintegers 32", lambda bg, e, g: e.uintegers(sz, bits=32), "n32"),
         ("random", lambda bg, e, g: e.random(sz), "dbl"),
         ("random f", lambda bg, e, g: e.random(sz, dtype=np.float32), "flt"),
         ("random ld", lambda bg, e, g: e.random(sz, dtype=np.longdouble), "ld"),
         ("random out", lambda bg, e, g: e.random(out=np.zeros(n)), "dbl"),
         ("numpy", lambda bg, e, g: g.random(n), "dbl")]
    if n == 1:
        c += [("random_raw 1", lambda bg, e, g: bg.random_raw(), "n64"), ("raw quiet 1", lambda bg, e, g: bg.random_raw(output=False), None),
              ("uintegers 1", lambda bg, e, g: e.uintegers(), "n64"), ("uintegers 32 1", lambda bg, e, g: e.uintegers(bits=32), "n32"),
              ("random 1", lambda bg, e, g: e.random(), "dbl"), ("random f 1", lambda bg, e, g: e.random(dtype=np.float32), "flt"),
              ("random ld 1", lambda bg, e, g: e.random(dtype=np.longdouble), "ld"), ("random 0d", lambda bg, e, g: e.random(()), "dbl")]
    return [(w, f, u, n, 1) for w, f, u in c]


E1, E2 = np.eye(1), np.eye(2)


def normals(R):
    """calls whose number of words depends on the words"""
    c = [("complex_normal", lambda bg, e, g: e.complex_normal(), 1), ("complex_normal n", lambda bg, e, g: e.complex_normal(size=3), 1),
         ("complex_normal a", lambda bg, e, g: e.complex_normal([0, 1, 2], 1), 1), ("mvn", lambda bg, e, g: e.multivariate_normal([0, 0], E2, 2), 1),
         ("mvcn", lambda bg, e, g: e.multivariate_complex_normal([0, 0], size=(2,)), 1), ("standard_wishart", lambda bg, e, g: e.standard_wishart(3, 2, 2), 1),
         ("standard_wishart small", lambda bg, e, g: e.standard_wishart(1, 2, 2), 1), ("wishart", lambda bg, e, g: e.wishart(3, E2), 1), ("wishart small", lambda bg, e, g: e.wishart(1, E2, 2), 1),
         ("numpy normal", lambda bg, e, g: g.standard_normal(3), 1)]
    return [(w, f, None, -1, b) for w, f, b in c]


def wisharts(R):
    c = [("wishart several", lambda bg, e, g: e.wishart([3, 4], E2)), ("wishart small several", lambda bg, e, g: e.wishart([1, 1], E2)),
         ("wishart mixed", lambda bg, e, g: e.wishart([1, 2], np.array([E2, 2 * E2]))), ("wishart scales", lambda bg, e, g: e.wishart(2, np.array([E1, E1])))]
    return [(w, f, None, -1, 2) for w, f in c]


class Refuse:
    def __index__(self):
        raise RF.Boom


BAD = [("bits", lambda bg, e, g: e.uintegers(3, bits=16)), ("size", lambda bg, e, g: e.uintegers(-1)), ("size32", lambda bg, e, g: e.uintegers("x", bits=32)), ("raw size", lambda bg, e, g: bg.random_raw((2, -3))),
       ("raw index", lambda bg, e, g: bg.random_raw((Refuse(),))), ("quiet index", lambda bg, e, g: bg.random_raw((Refuse(), 2), output=False)), ("huge", lambda bg, e, g: e.random(2**62)),
       ("out", lambda bg, e, g: e.random(3, out=np.zeros(4))), ("out type", lambda bg, e, g: e.random(out=np.zeros(4, int))), ("out none", lambda bg, e, g: e.random(out="x")),
       ("out f", lambda bg, e, g: e.random(dtype=np.float32, out=np.zeros(2))), ("out ld", lambda bg, e, g: e.random(dtype=np.longdouble, out=np.zeros(2))),
       ("dtype", lambda bg, e, g: e.random(3, dtype="int32")), ("bench", lambda bg, e, g: bg._benchmark(3, "bytes")), ("bench n", lambda bg, e, g: bg._benchmark("x", "uint64"))]


class Stuck(Exception):
    pass


class Worker(threading.Thread):
    def __init__(self, s, t):
        super().__init__(daemon=True)
        self.s, self.t = s, t
        self.go = threading.Semaphore(0)
        self.point, self.todo, self.raise_at = "idle", None, None

    def pause(self, point):
        self.point = point
        self.s.back.release()
        self.go.acquire()
        if self.s.over:
            raise SystemExit

    def run(self):
        self.go.acquire()
        while not self.s.over:
            what, f, unword, need, blocks = self.todo
            u = self.s.u
            self.s.log(op="begin", t=self.t, o=u.o, what=what, pos=u.n)
            try:
                x, ok = f(u.bg, u.ext, u.gen), True
            except Exception:
                x, ok = None, False
            got = None
            if ok and unword and self.raised == 0:
                got = [UNWORD[unword](y) for y in np.asarray(x).ravel()]
            self.s.log(op="end", t=self.t, o=u.o, ok=ok, checked=got is not None, vals=got or [], need=need if ok and not self.raised else -1, blocks=blocks, pos=u.n)
            self.point = "idle"
            self.s.back.release()
            self.go.acquire()


class Sched:
    """threads that take turns as the schedule says"""

    def __init__(self, r, u, n):
        self.r, self.u = r, u
        self.back = threading.Semaphore(0)
        self.over = False
        self.free = True
        self.w = {t: Worker(self, t) for t in range(1, n + 1)}
        self.by_thread = {}

    def log(self, **e):
        self.r.add(**e)

    def me(self):
        return self.by_thread.get(threading.get_ident())

    def step(self, t):
        self.w[t].go.release()
        if not self.back.acquire(timeout=20):
            raise Stuck

    def enabled(self, t):
        w = self.w[t]
        return w.point != "idle" and (w.point != "want" or not self.u.bg.lock.inner.locked())

    # ---- called from the threads
    def hook(self, what):
        w = self.me()
        if w is None:
            return
        if what in ("want", "rel"):
            w.pause(what)
        if what in ("acq", "rel"):
            self.log(op=what, t=w.t, o=self.u.o, pos=self.u.n)

    def word(self):
        w = self.me()
        if w is None:
            self.log(op="word", t=0, o=self.u.o, out=[self.u.n])
            i, self.u.n = self.u.n, self.u.n + 1
            return word(i)
        w.pause("word")
        if w.raise_at is not None:
            w.raise_at -= 1
            if w.raise_at < 0:
                w.raise_at = None
                w.raised = 1
                raise RF.Boom("callback")
        i, self.u.n = self.u.n, self.u.n + 1
        self.log(op="word", t=w.t, o=self.u.o, out=[i])
        self.r.draws += 1
        return word(i)


class U:
    pass


def t_walk(walk):
    """one schedule of spec/Lock.tla on the real code: real threads, one running at a time"""
    def f(r, R):
        u = U()
        s = Sched(r, u, 3)
        u.n = 0
        u.bg = r.call("UserBitGenerator", rg.UserBitGenerator, lambda p: s.word(), 64)
        replace_lock(u.bg, TraceLock(u.bg.lock, s.hook))
        u.ext, u.gen = rg.ExtendedGenerator(u.bg), np.random.Generator(u.bg)
        u.o = r._id(u.bg, None)
        r.add(op="open", o=u.o, pos=0, words=True)
        for w in s.w.values():
            w.start()
            s.by_thread[w.ident] = w
        try:
            for i, a in enumerate(walk):
                t = a[1]
                w = s.w[t]
                if a[0] == "begin":
                    if w.point != "idle":
                        continue
                    mine = [b[0] for b in walk[i + 1:] if b[1] == t]
                    mine = mine[:mine.index("end")] if "end" in mine else mine
                    w.raise_at, w.raised = None, 0
                    if len(a[2]) == 2:
                        w.todo = R.choice(wisharts(R))
                    elif R.randrange(4) == 0 and a[2][0]:
                        w.todo = R.choice(normals(R))
                    else:
                        w.todo = R.choice(calls_of(R, a[2][0]))
                    if "fail" in mine:
                        if "acq" not in mine[:mine.index("fail")]:
                            what, g = R.choice(BAD)
                            w.todo = (what, g, None, -1, 1)
                        else:
                            w.raise_at = mine[:mine.index("fail")].count("step")
                    s.step(t)
                elif s.enabled(t):
                    s.step(t)
                if i % 7 == 0:
                    r.add(op="probe", o=u.o, free=not u.bg.lock.locked())
            while True:
                busy = [t for t in s.w if s.w[t].point != "idle"]
                if not busy:
                    break
                on = [t for t in busy if s.enabled(t)]
                if not on:
                    raise Stuck
                s.step(R.choice(on))
            r.add(op="probe", o=u.o, free=not u.bg.lock.locked())
        except Stuck:
            r.add(op="stuck", points={str(t): w.point for t, w in s.w.items()})
            raise SegAbort("stuck")
        finally:
            s.over = True
            for w in s.w.values():
                w.go.release()
    return f


def t_each():
    """every kind of call once, with a second thread that takes its turn whenever it can"""
    def f(r, R):
        for n in (1, 3):
            u = U()
            s = Sched(r, u, 2)
            u.n = 0
            u.bg = r.call("UserBitGenerator", rg.UserBitGenerator, lambda p: s.word(), 64)
            replace_lock(u.bg, TraceLock(u.bg.lock, s.hook))
            u.ext, u.gen = rg.ExtendedGenerator(u.bg), np.random.Generator(u.bg)
            u.o = r._id(u.bg, None)
            r.add(op="open", o=u.o, pos=0, words=True)
            for w in s.w.values():
                w.start()
                s.by_thread[w.ident] = w
            try:
                for todo in calls_of(R, n) + normals(R) + wisharts(R):
                    for t, x in ((1, todo), (2, R.choice(calls_of(R, R.choice([1, 2]))))):
                        s.w[t].raise_at, s.w[t].raised, s.w[t].todo = None, 0, x
                        if t == 1:
                            s.step(1)
                            while s.w[1].point == "want":        # inside, with the other one waiting
                                s.step(1)
                    s.step(2)
                    turn = 1
                    while any(w.point != "idle" for w in s.w.values()):
                        turn = 3 - turn
                        if not s.enabled(turn):
                            turn = 3 - turn
                        if not s.enabled(turn):
                            raise Stuck
                        s.step(turn)
                        if s.w[2].point == "idle" and s.w[1].point != "idle":
                            s.w[2].todo = R.choice(calls_of(R, 1))
                            s.step(2)
                    r.add(op="probe", o=u.o, free=not u.bg.lock.locked())
            except Stuck:
                r.add(op="stuck", points={str(t): w.point for t, w in s.w.items()})
                raise SegAbort("stuck")
            finally:
                s.over = True
                for w in s.w.values():
                    w.go.release()
    return f


# ---- every class: the stream moves only while the lock is held, and the lock is free afterwards
class Watch:
    def __init__(self, r, prof, bg):
        self.r, self.bg, self.prof = r, bg, prof
        self.seen = {}
        self.inside = False
        self.lock = TraceLock(bg.lock, self.hook)
        replace_lock(bg, self.lock)
        self.ext, self.gen = rg.ExtendedGenerator(bg), np.random.Generator(bg)
        self.o = r._id(bg, prof)
        r.add(op="open", o=self.o, pos=self.pos(), words=False)

    def pos(self):
        k = json.dumps(self.prof.norm(self.bg.state), sort_keys=True)
        return self.seen.setdefault(k, len(self.seen))

    def hook(self, what):
        if self.inside and what in ("acq", "rel"):
            self.r.add(op=what, t=1, o=self.o, pos=self.pos())

    def call(self, what, f, blocks, must=False):
        r = self.r
        r.add(op="begin", t=1, o=self.o, what=what, pos=self.pos())
        self.inside = True
        try:
            with warnings.catch_warnings():
                warnings.simplefilter(self.warn if hasattr(self, "warn") else "ignore")
                f()
            ok = True
        except Exception:
            ok = False
        self.inside = False
        if must and not ok:
            r.add(op="error", what=what, exc="refused")
            raise SegAbort(what)
        r.add(op="end", t=1, o=self.o, ok=ok, checked=False, vals=[], need=-1, blocks=blocks, pos=self.pos())
        free = []

        def probe():
            x = self.lock.inner.acquire(False)
            free.append(bool(x))
            if x:
                self.lock.inner.release()
        th = threading.Thread(target=probe)
        th.start()
        th.join(20)
        r.add(op="probe", o=self.o, free=bool(free and free[0]))
        if not (free and free[0]):
            raise SegAbort("lock")


def t_watch(prof, n):
    def f(r, R):
        bg = r.call("construct", prof.make, R.randrange(2**40))
        w = Watch(r, prof, bg)
        mats = RF.matrix_calls()
        for _ in range(n):
            w.warn = R.choice(["ignore", "error"])
            k = R.randrange(10)
            if k < 3:
                what, g, _u, _n, b = R.choice(calls_of(R, R.choice([0, 1, 1, 2, 5])))
                w.call(what, lambda: g(bg, w.ext, w.gen), b, True)
            elif k < 4:
                what, g, _u, _n, b = R.choice(normals(R) + wisharts(R))
                w.call(what, lambda: g(bg, w.ext, w.gen), b, True)
            elif k < 6:
                what, g = R.choice(BAD)
                w.call(what, lambda: g(bg, w.ext, w.gen), 1)
            elif k < 9:
                m, a, kw, _f = R.choice(mats)
                kw = dict(kw)
                if R.randrange(3) == 0 and m in ("multivariate_normal", "wishart", "multivariate_complex_normal"):
                    kw["check_valid"] = R.choice(["warn", "ignore"])
                w.call(m, lambda: getattr(w.ext, m)(*a, **kw), 9)
            elif prof.cls is rg.SFC64:
                kw = R.choice([{}, {"max_bits": 0}, {"min_bits": 3, "max_bits": 5}, {"max_bits": 1}])
                w.call("weyl_increments", lambda: bg.weyl_increments(R.choice([1, 3]), **kw), 1000)
            else:
                # state operations leave the lock to their caller, who can hold it
                def held():
                    with bg.lock:
                        R.choice([lambda: bg.random_raw.__doc__, lambda: setattr(bg, "state", bg.state), lambda: bg.seed(R.randrange(2**30)),
                                  lambda: setattr(bg, "state", None), lambda: bg.seed("xyz"), lambda: bg.seed(-1)])()
                w.call("held", held, 1)
    return f


def t_rdrand(n):
    """the hardware generator's own lock, which raises when the processor failed"""
    def f(r, R):
        try:
            bg = rg.RDRAND()
        except RuntimeError:
            r.add(op="open", o=1, pos=0, words=False)
            return
        ext, gen = rg.ExtendedGenerator(bg), np.random.Generator(bg)
        o = r._id(bg, None)
        r.add(op="open", o=o, pos=0, words=False)
        for _ in range(n):
            bad = R.randrange(2)
            bg._reset()
            st = bg.state
            st["retries"] = -1 if bad else 10
            bg.state = st
            what, g, _u, _n, b = R.choice(calls_of(R, R.choice([0, 1, 3, 300])) + normals(R) + wisharts(R))
            if R.randrange(4) == 0:
                what, g = R.choice(BAD)
            r.add(op="begin", t=1, o=o, what=what, pos=0)
            try:
                g(bg, ext, gen)
                ok = True
            except Exception:
                ok = False
            r.add(op="end", t=1, o=o, ok=ok, checked=False, vals=[], need=-1, blocks=9, pos=0)
            free = []

            def probe():
                free.append(bool(bg.lock.acquire(False)))
                if free[0]:
                    bg.lock.release()
            th = threading.Thread(target=probe)
            th.start()
            th.join(20)
            r.add(op="probe", o=o, free=bool(free and free[0]))
            if not (free and free[0]):
                raise SegAbort("lock")
    return f


# ---- one call in the middle of another: just before it gets the lock, and just after
def t_between(prof, n):
    def f(r, R):
        bg = r.call("construct", prof.make, R.randrange(2**40))
        o = r.new(bg, prof)
        depth = [0]
        order = []          # finished in the order of their turns with the lock

        def hook(what):
            if depth[0] == 1 and what in ("want", "out"):
                depth[0] = 2
                for _ in range(R.randrange(3)):
                    one()
                depth[0] = 1
            elif what == "acq":
                order.append(None)
                mine.append(len(order) - 1)

        mine = []
        lock = TraceLock(bg.lock, hook)
        replace_lock(bg, lock)
        ext, gen = rg.ExtendedGenerator(bg), np.random.Generator(bg)

        def one():
            k = R.choice([1, 1, 2, 3, 7])
            what, g, v, _n, _b = R.choice([c for c in calls_of(R, k) if c[2] or c[0].startswith(("raw quiet", "benchmark"))])
            m0 = len(mine)
            x = r.call(what, g, bg, ext, gen)
            view = "raw" if what.startswith(("random_raw", "raw")) else "n64" if what == "benchmark" else "dbl" if what == "benchmark d" else v
            e = ("got", view, list(np.asarray(x).ravel())) if v else ("skip", view, k)
            at = [m for m in mine[m0:] if order[m] is None]
            if at:
                order[at[-1] if depth[0] == 2 else at[0]] = e
            else:
                order.append(e)
        for _ in range(n):
            depth[0] = 1
            one()
            depth[0] = 0
            for e in order:
                if e is None:
                    continue
                if e[0] == "got":
                    r.got(o, e[1], [int(y) if e[1] in ("raw", "n64", "n32") else y for y in e[2]])
                else:
                    r.add(op="skip", o=o, v=e[1], n=e[2])
            order.clear()
            mine.clear()
            if R.randrange(4) == 0:
                r.get(o)
        r.get(o)
    return f


# ---- threads running freely
def witness(twin, queues):
    """an order in which the calls of all threads could have happened one after another (depth first);
    when there is none, the longest found and then the rest"""
    best = []
    budget = [4000]

    def rest(pos):
        return sorted([c for t in queues for c in queues[t][pos[t]:]], key=lambda c: c["e"])

    def go(pos, done):
        nonlocal best
        if len(done) > len(best):
            best = list(done)
        left = [t for t in queues if pos[t] < len(queues[t])]
        if not left:
            return True
        cand = [queues[t][pos[t]] for t in left]
        first = min(c["e"] for c in cand)
        cand = sorted([c for c in cand if c["b"] < first], key=lambda c: (c["kind"] == "adv", c["b"]))
        here = twin.state
        for c in cand:
            budget[0] -= 1
            if budget[0] < 0:
                return False
            if c["fits"](twin) and go({**pos, c["t"]: pos[c["t"]] + 1}, done + [c]):
                return True
            twin.state = here
        return False
    go({t: 0 for t in queues}, [])
    n = {t: sum(c["t"] == t for c in best) for t in queues}
    return best + rest(n)


def t_threads(prof, nthreads, ncalls):
    """calls of several threads on one generator; the order claimed is checked by ThreadTrace.tla"""
    def f(r, R):
        bg = r.call("construct", prof.make, R.randrange(2**40))
        o = r.new(bg, prof)
        twin = type(bg)(**prof.kw) if prof.kw else type(bg)()
        twin.state = bg.state
        clock = [0]
        cl = threading.Lock()
        queues = {t: [] for t in range(1, nthreads + 1)}
        sys.setswitchinterval(2e-5)
        gate = threading.Barrier(nthreads)
        errs = []

        def now():
            with cl:
                clock[0] += 1
                return clock[0]

        def plan(t):
            c = []
            for _ in range(ncalls):
                k = R.choice([1, 2, 9, 60])
                z = R.randrange(12)
                if z == 0 and can_advance(prof):
                    c.append(("adv", R.choice([1, 5, 1000])))
                elif z == 1:
                    c.append(("state", None))
                else:
                    c.append(("draw", R.choice([x for x in calls_of(R, k) if x[2]])))
            return c

        def work(t, todo):
            ext, gen = rg.ExtendedGenerator(bg), np.random.Generator(bg)
            gate.wait()
            try:
                for kind, a in todo:
                    b = now()
                    if kind == "adv":
                        with bg.lock:
                            aa = adv_arg(prof, bg, a, True)
                            bg.advance(a)
                        x = aa
                    elif kind == "state":
                        with bg.lock:
                            x = bg.state
                    else:
                        x = a[1](bg, ext, gen)
                    queues[t].append({"t": t, "b": b, "e": now(), "kind": kind, "a": a, "x": x})
            except Exception as x:
                errs.append(repr(x))
        ths = [threading.Thread(target=work, args=(t, plan(t)), daemon=True) for t in queues]
        for th in ths:
            th.start()
        for th in ths:
            th.join(50)
        if errs or any(th.is_alive() for th in ths):
            r.add(op="error", what="threads", exc=(errs or ["a call does not end"])[0])
            raise SegAbort("threads")
        tw = {}

        def fits(c):
            def g(twin):
                if c["kind"] == "adv":
                    twin.advance(c["a"])
                    return True
                if c["kind"] == "state":
                    return prof.norm(twin.state) == prof.norm(c["x"])
                x = c["a"][1](twin, rg.ExtendedGenerator(twin), np.random.Generator(twin))
                return np.array_equal(np.ravel(x), np.ravel(c["x"]))
            return g
        for t in queues:
            for c in queues[t]:
                c["fits"] = fits(c)
        for c in witness(twin, queues):
            st = {"b": c["b"], "e": c["e"], "t": c["t"], "o": o}
            if c["kind"] == "adv":
                r.add(op="adv", a=c["x"], **st)
            elif c["kind"] == "state":
                r.add(op="get", **st, **prof.norm(c["x"]))
            else:
                what, _g, v, _n, _b = c["a"]
                v = "raw" if what.startswith("random_raw") else v
                xs = [int(y) if v in ("raw", "n64", "n32") else y for y in np.asarray(c["x"]).ravel()]
                r.add(op="draw", v=v, out=[enc(v, y) for y in xs], **st)
                r.draws += len(xs)
        b = now()
        r.add(op="get", b=b, e=now(), t=0, o=o, **prof.norm(bg.state))
    return f


def t_blocks(prof, nthreads, ncalls, size):
    """large calls of threads running freely: each must get one stretch of the stream"""
    def f(r, R):
        seed = R.randrange(2**40)
        bg = r.call("construct", prof.make, seed)
        o = r._id(bg, prof)
        mode = R.choice(["raw", "n64", "n32"])
        total = nthreads * ncalls * size
        twin = prof.make(seed)
        draw = {"raw": lambda b, n: b.random_raw(n), "n64": lambda b, n: rg.ExtendedGenerator(b).uintegers(n), "n32": lambda b, n: rg.ExtendedGenerator(b).uintegers(n, bits=32)}[mode]
        stream = draw(twin, total + 10)
        r.add(op="open", o=o, pos=0)
        clock = [0]
        cl = threading.Lock()
        sys.setswitchinterval(2e-5)
        gate = threading.Barrier(nthreads)
        res = []

        def now():
            with cl:
                clock[0] += 1
                return clock[0]

        def work(t, todo):
            gate.wait()
            for n in todo:
                b = now()
                x = draw(bg, n)
                res.append((b, now(), t, x))
        plans = [[R.randrange(size // 2, size) for _ in range(ncalls)] for _ in range(nthreads)]
        ths = [threading.Thread(target=work, args=(t, p), daemon=True) for t, p in enumerate(plans)]
        for th in ths:
            th.start()
        for th in ths:
            th.join(50)
        if any(th.is_alive() for th in ths):
            r.add(op="error", what="threads", exc="a call does not end")
            raise SegAbort("threads")
        out = []
        for b, e, t, x in res:
            at = -1
            for i in np.flatnonzero(stream == x[0]):
                if np.array_equal(stream[i:i + len(x)], x):
                    at = int(i)
                    break
            out.append((at, b, e, t, len(x)))
        for at, b, e, t, n in sorted(out):
            r.add(op="block", o=o, out=[at], n=n, b=b, e=e, t=t)
    return f


def walks(out):
    return json.loads((Path(out) / "walks-lock.json").read_text())
