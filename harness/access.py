"""The ways to reach a bit generator's stream (C01), bulk requests (X01), hardware paths (P01)."""
import ctypes as ct

import numpy as np
import randomgen as rg

import corners
from profiles import P, Profile
from rec import enc
from shapes import BIG, SEEDS, Walker, shape


class BitgenT(ct.Structure):
    _fields_ = [("state", ct.c_void_p),
                ("next_uint64", ct.CFUNCTYPE(ct.c_uint64, ct.c_void_p)),
                ("next_uint32", ct.CFUNCTYPE(ct.c_uint32, ct.c_void_p)),
                ("next_double", ct.CFUNCTYPE(ct.c_double, ct.c_void_p)),
                ("next_raw", ct.CFUNCTYPE(ct.c_uint64, ct.c_void_p))]


def capsule_struct(bg):
    f = ct.pythonapi.PyCapsule_GetPointer
    f.restype, f.argtypes = ct.c_void_p, [ct.py_object, ct.c_char_p]
    return ct.cast(f(bg.capsule, b"BitGenerator"), ct.POINTER(BitgenT))


def flat(x):
    return [y for y in np.asarray(x).ravel(order="K")]


def ints(xs):
    return [int(x) for x in flat(xs)]


class Handle:
    """something wrapped around a bit generator, kept for as long as the walk likes"""
    KINDS = ("ctypes", "cffi", "struct", "npgen", "rs", "ext")
    HAS = {"ctypes": {"n64", "n32", "dbl"}, "cffi": {"n64", "n32", "dbl"}, "struct": {"n64", "n32", "dbl", "raw"},
           "npgen": {"n64", "n32", "dbl", "npf", "bytes"}, "rs": {"dbl", "n64", "n32", "bytes"},
           "ext": {"n64", "n32", "dbl", "flt", "ld"}}
    AS = {"n64": ("n64", "n64", "ld"), "n32": ("n32", "n32", "flt", "npf", "bytes"), "dbl": ("dbl",), "raw": ("raw",)}

    def __init__(self, bg, kind):
        self.kind, self.bg = kind, bg
        if kind == "ctypes":
            self.h = bg.ctypes
        elif kind == "cffi":
            self.h = bg.cffi
        elif kind == "struct":
            self.h = capsule_struct(bg)
        elif kind == "npgen":
            self.h = np.random.Generator(bg)
        elif kind == "rs":
            self.h = np.random.RandomState(bg)
        else:
            self.h = rg.ExtendedGenerator(bg)

    def take(self, v, n, R):
        """(view, values): n draws of a kind that consumes what view v consumes"""
        h, k = self.h, self.kind
        if k in ("ctypes", "cffi"):
            f = {"n64": h.next_uint64, "n32": h.next_uint32, "dbl": h.next_double}[v]
            return v, [f(h.state) for _ in range(n)]
        if k == "struct":
            s = h.contents
            f = {"n64": s.next_uint64, "n32": s.next_uint32, "dbl": s.next_double, "raw": s.next_raw}[v]
            return v, [f(s.state) for _ in range(n)]
        size = None if n == 1 and R.randrange(2) else n
        v = R.choice([a for a in self.AS[v] if a in self.HAS[k]])
        if v == "bytes":
            return "n32", ints(np.frombuffer(h.bytes(4 * n), dtype="<u4"))
        if k == "ext":
            if v in ("n64", "n32"):
                return v, ints(h.uintegers(size, bits=int(v[1:])))
            return v, flat(h.random(size, dtype={"dbl": np.float64, "flt": np.float32, "ld": np.longdouble}[v]))
        if k == "npgen":
            if v in ("n64", "n32"):
                return v, ints(h.integers(0, 2**int(v[1:]), size=size, dtype=np.uint64 if v == "n64" else np.uint32))
            return v, flat(h.random(size, dtype=np.float32 if v == "npf" else np.float64))
        if v in ("n64", "n32"):
            return v, ints(h.randint(0, 2**int(v[1:]), size=size, dtype=np.uint64 if v == "n64" else np.uint32))
        return "dbl", flat(h.random_sample(size))


class PathWalker(Walker):
    """draws on the object itself go through freshly fetched interfaces; wrapped ones stay"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.handles = {}

    def draw(self, o, v, n, path):
        r, R, bg = self.r, self.R, self.r.bg(o)
        if v == "raw" or R.randrange(4) == 0:
            if v in ("n64", "dbl") and R.randrange(2):
                r.call("_benchmark", bg._benchmark, n, {"n64": "uint64", "dbl": "double"}[v])
                r.add(op="skip", o=o, v=v, n=n)
                return
            if v == "raw":
                if R.randrange(2):
                    size = R.choice([None, 1, (1,), (1, 1), ()]) if n == 1 else n
                    r.call("random_raw", bg.random_raw, size, False)
                    r.add(op="skip", o=o, v="raw", n=n)
                else:
                    size = R.choice([None, 1, (1,), (1, 1), ()]) if n == 1 else n
                    r.got(o, "raw", ints(r.call("random_raw", bg.random_raw, size)))
                return
        k = R.choice([k for k in Handle.KINDS if v in Handle.HAS[k]])
        h = r.call(k, Handle, bg, k)
        r.got(o, *r.call(k, h.take, v, n, R))

    def do(self, op):
        r, R = self.r, self.R
        k = op[0]
        if k == "wrap":
            o = self.ids[op[1]]
            kind = R.choice(Handle.KINDS)
            self.handles[op[2]] = (op[1], r.call(kind, Handle, r.bg(o), kind))
        elif k.startswith("via-"):
            i, h = self.handles[op[1]]
            v = k[4:]
            if v not in Handle.HAS[h.kind]:
                super().do([v, i])
                return
            o = self.ids[i]
            r.got(o, *r.call(h.kind, h.take, v, 1, R))
            n = self.rawn if v == "raw" else self.w
            if v == "n32":
                n = 0 if self.half[i] else 1
                self.half[i] = self.keep and not self.half[i]
            if n:
                self.moved(i, n)
            self.n += 1
            if self.get_every and self.n % self.get_every == 0:
                r.get(o)
        else:
            super().do(op)


def t_paths(prof, walk, every, corner):
    def f(r, R):
        w = PathWalker(r, prof, R, every)
        if corner and not w.extra:
            bg = r.bg(w.ids[1])
            st = corners.randomise(prof, bg, R, prof.g in ("bc", "cb64", "cb32"))
            if prof.g == "lxm":
                st["state"]["b"] = bg.state["state"]["b"]        # the addend is configuration: re-seeding keeps it
            r.set(w.ids[1], st)
        w.run(walk)
    return f


def t_raw_sizes(prof, n):
    """random_raw: what is returned, and what is skipped with output=False, for any size"""
    def f(r, R):
        bg = r.call("construct", prof.make, R.choice(SEEDS))
        o = r.new(bg, prof)
        for _ in range(n):
            size = R.choice([0, 1, 2, 7, (0,), (2, 0, 3), (2, 3), (1, 1), [2, 2], np.int64(3), (np.int32(2), 3), (4, 1, 2)])
            m = int(np.prod(size, dtype=np.int64))
            if R.randrange(2):
                x = r.call("random_raw", bg.random_raw, size)
                want = tuple(int(i) for i in (size if isinstance(size, (tuple, list)) else (size,)))
                r.add(op="equal", a=[list(x.shape), str(x.dtype)], b=[list(want), "uint64"])
                r.got(o, "raw", ints(x))
            else:
                x = r.call("random_raw", bg.random_raw, size, False)
                r.add(op="equal", a=str(x), b="None")
                if m:
                    r.add(op="skip", o=o, v="raw", n=m)
            if R.randrange(3) == 0:
                r.draw(o, "n32", 1)
            if prof.g not in BIG or R.randrange(8) == 0:
                r.get(o)
        r.get(o)
    return f


# assigning a state of another variant: (configuration before, configuration after)
VARIANTS = [("PCG64", "PCG64-dxsm"), ("Xoroshiro128++", "Xoroshiro128"), ("Romu", "Romu-trio"), ("Tyche-open", "Tyche"),
            ("JSF", "JSF32"), ("Squares", "Squares32"), ("Philox4x64", "Philox2x32"), ("ThreeFry4x64", "ThreeFry2x32")]


def t_variant(before, after):
    """a state of another variant is assigned while generators are wrapped around the object"""
    def f(r, R):
        bg = r.call("construct", P[before].make, 1)
        hs = [Handle(bg, k) for k in Handle.KINDS]
        other = r.call("construct", P[after].make, 2)
        bg.state = other.state
        o = r._id(bg, P[after])
        r.add(op="new", o=o, **r.norm(bg, P[after]))
        r.draw(o, "raw", 2)
        for h in hs:
            r.got(o, *h.take("n64" if "n64" in h.HAS[h.kind] else "dbl", 2, R))
    return f


def t_bulk_walk(prof, walk, every):
    def f(r, R):
        BulkWalker(r, prof, R, every).run(walk)
    return f


SHAPES_OF = {0: [0, (0,), (0, 3), (2, 0), [0]], 1: [None, 1, (1,), (1, 1), (), [1]], 2: [2, (2,), (1, 2), (2, 1), [2], np.int64(2)]}


def sizes(R, n):
    if n in SHAPES_OF:
        return R.choice(SHAPES_OF[n])
    c = [n, (n,), (1, n), (n, 1), np.int64(n)]
    for d in range(2, n):
        if n % d == 0:
            c += [(d, n // d), (n // d, 1, d)]
    return R.choice(c)


def as_tuple(size):
    if size is None:
        return None
    return tuple(int(i) for i in size) if isinstance(size, (tuple, list)) else (int(size),)


DT = {"n64": "uint64", "n32": "uint32", "raw": "uint64", "dbl": "float64", "flt": "float32", "ld": np.dtype("longdouble").name}
PY = {"n64": "int", "n32": "int", "raw": "int", "dbl": "float", "flt": "float", "ld": "longdouble"}


def request(r, R, o, ext, v, n):
    """one request for n values, in one of the forms the interface allows"""
    bg = r.bg(o)
    size = sizes(R, n)
    if v == "raw":
        x = r.call("random_raw", bg.random_raw, size)
    elif v in ("n64", "n32"):
        b = int(v[1:])
        x = r.call("uintegers", ext.uintegers, size, b) if b == 32 or R.randrange(2) else r.call("uintegers", ext.uintegers, size)
    else:
        dt = {"dbl": [np.float64, "d", "float64"], "flt": [np.float32, "f", "float32"], "ld": [np.longdouble, "longdouble"]}[v]
        if R.randrange(3) == 0 and size is not None:
            sh = as_tuple(size)
            out = np.full(sh, -1, dtype=dt[0], order=R.choice("CF"))
            if R.randrange(2):
                x = r.call("random", ext.random, dtype=R.choice(dt), out=out)
            else:
                x = r.call("random", ext.random, size, R.choice(dt), out)
            r.add(op="equal", a="same" if x is out else "other", b="same")
        elif v == "dbl" and R.randrange(2):
            x = r.call("random", ext.random, size)
        else:
            x = r.call("random", ext.random, size, R.choice(dt))
    if size is None:
        r.add(op="equal", a=type(x).__name__, b=PY[v])
    else:
        r.add(op="equal", a=[type(x).__name__, list(x.shape), x.dtype.name], b=["ndarray", list(as_tuple(size)), DT[v]])
    r.got(o, v, ints(x) if v in ("n64", "n32", "raw") else flat(x))


class BulkWalker(Walker):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.ext = {}

    def gen(self, o):
        bg = self.r.bg(o)
        if o not in self.ext or self.ext[o].bit_generator is not bg:
            self.ext[o] = self.r.call("ExtendedGenerator", rg.ExtendedGenerator, bg)
        return self.ext[o]

    def draw(self, o, v, n, path):
        v = self.R.choice({"n64": ("n64", "n64", "ld"), "n32": ("n32", "flt")}.get(v, (v,)))
        request(self.r, self.R, o, self.gen(o), v, n)


def t_bulk(prof, n, most):
    """requests of all kinds and sizes one after another"""
    def f(r, R):
        bg = r.call("construct", prof.make, R.choice(SEEDS))
        o = r.new(bg, prof)
        if prof.g not in BIG and R.randrange(2):
            r.set(o, corners.randomise(prof, bg, R))
        ext = r.call("ExtendedGenerator", rg.ExtendedGenerator, bg)
        for i in range(n):
            request(r, R, o, ext, R.choice(["n64", "n32", "dbl", "flt", "ld", "raw"]), R.choice([0, 1, 1, 2, 3, 4, 6, 9, 16, R.randrange(1, most)]))
            if prof.g not in BIG or i % 10 == 9:
                r.get(o)
        r.get(o)
    return f


def t_large(prof, sizes_):
    """a large request against the same number of single ones on a copy, and against pieces"""
    def f(r, R):
        for v in ("n64", "n32", "dbl", "flt", "ld", "raw"):
            n = R.choice(sizes_) + R.randrange(3)
            a = r.call("construct", prof.make, R.choice(SEEDS))
            if R.randrange(2):
                a.ctypes.next_uint32(a.ctypes.state)
            b, c = (r.call("construct", prof.make, 1) for _ in range(2))
            b.state = c.state = a.state
            ea, eb, ec = (rg.ExtendedGenerator(g) for g in (a, b, c))

            def ask(e, g, size):
                if v == "raw":
                    return g.random_raw(size)
                if v in ("n64", "n32"):
                    return e.uintegers(size, int(v[1:]))
                return e.random(size, {"dbl": "d", "flt": "f", "ld": "longdouble"}[v])
            whole = np.asarray(r.call("whole", ask, ea, a, n))
            single = np.array([ask(eb, b, None) for _ in range(n)], dtype=whole.dtype)
            cut = sorted(R.randrange(n + 1) for _ in range(3))
            cut = [0] + cut + [n]
            parts = np.concatenate([ask(ec, c, y - x) for x, y in zip(cut, cut[1:])])
            for name, other, g in (("single", single, b), ("parts", parts, c)):
                diff = np.flatnonzero(~(whole == other))[:3]
                r.add(op="equal", what=f"{name} {v} n={n} cut={cut}", a=[int(i) for i in diff], b=[])
                r.add(op="equal", what="state", a=repr(sorted(str(x) for x in prof.norm(a.state).items())), b=repr(sorted(str(x) for x in prof.norm(g.state).items())))
            r.add(op="equal", what="range", a=bool(v in ("n64", "n32", "raw") or (whole.min() >= 0 and whole.max() < 1)), b=True)
    return f


# ---- hardware paths
TOGGLE = {rg.AESCounter: "use_aesni", rg.SPECK128: "use_sse41", rg.ChaCha: "use_simd"}


def capable(bg):
    """whether this machine has the accelerated path at all"""
    name = TOGGLE[type(bg)]
    was = getattr(bg, name)
    try:
        setattr(bg, name, True)
    except ValueError:
        return False
    setattr(bg, name, was)
    return True


class ToggleWalker(Walker):
    """the accelerated path is switched at arbitrary points; the specification does not know"""

    def do(self, op):
        if self.R.randrange(3):
            o = self.R.choice(list(self.ids.values()))
            bg = self.r.bg(o)
            name = TOGGLE[self.p.cls]
            want = bool(self.R.randrange(2)) and capable(bg)
            self.r.call(name, setattr, bg, name, want)
            self.r.add(op="equal", a=bool(getattr(bg, name)), b=want)
        super().do(op)


def t_toggle(prof, walk, every, corner):
    def f(r, R):
        w = ToggleWalker(r, prof, R, every)
        name = TOGGLE[prof.cls]
        bg = r.bg(w.ids[1])
        was = getattr(bg, name)
        try:
            if corner:
                r.set(w.ids[1], corners.randomise(prof, bg, R, True))
            w.run(walk)
        finally:
            setattr(bg, name, was)
    return f


def t_toggle_blocks(prof, n):
    """from states at the edges (counters near carries): the same words on either path"""
    def f(r, R):
        name = TOGGLE[prof.cls]
        bg = r.call("construct", prof.make, R.choice(SEEDS))
        o = r.new(bg, prof)
        was = getattr(bg, name)
        b = shape(prof)[0]
        can = capable(bg)
        try:
            for _ in range(n):
                st = corners.randomise(prof, bg, R)
                for on in R.sample([True, False], 2):
                    r.set(o, st)
                    r.call(name, setattr, bg, name, on and can)
                    k = 3 * b + R.randrange(b)
                    while k > 0:
                        m = min(k, R.choice([1, 2, 5, b, 2 * b]))
                        r.draw(o, R.choice(["raw", "n64", "dbl", "n32"]), m)
                        if R.randrange(4) == 0:
                            r.call(name, setattr, bg, name, can and not getattr(bg, name))
                        k -= m
                    r.get(o)
        finally:
            setattr(bg, name, was)
    return f
