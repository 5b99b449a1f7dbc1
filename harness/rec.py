"""Records the public operations performed on bit generators as a trace for
spec/StreamTrace.tla."""
import copy as _copy
import json
import pickle

import numpy as np

from randomgen import ExtendedGenerator, _pickle

from profiles import P, M64, w64, w32, w128, ws64, ws32


class Drawer:
    """one-at-a-time draws through the bit generator's public function table"""

    def __init__(self, bg):
        self.bg = bg
        self.c = None

    def __call__(self, v, path="ctypes"):
        bg = self.bg
        if v == "raw":
            return int(bg.random_raw())
        if path == "cffi":
            c = bg.cffi
        else:
            c = bg.ctypes
        if v == "n64":
            return int(c.next_uint64(c.state))
        if v == "n32":
            return int(c.next_uint32(c.state))
        return float(c.next_double(c.state))


def enc(v, x):
    if v == "n32":
        return w32(x)
    if v == "dbl":
        y = x * 2.0**53
        i = int(y)
        if y != i or not (0 <= x < 1):
            return [0, 0, 0, 0, int(1)]          # not a 53-bit fraction: never equal to a specified draw
        return w64(i)
    if v in ("flt", "npf"):
        y = float(x) * 2.0**(23 if v == "flt" else 24)
        if y != int(y) or not (0 <= x < 1):
            return [0, 0, 1]
        return w32(int(y))
    if v == "ld":
        hi = int(x * 2.0**32)
        y = (x * np.longdouble(2.0**32) - np.longdouble(hi)) * np.longdouble(2.0**32)
        if y != int(y) or not (0 <= x < 1):
            return [0, 0, 0, 0, 1]
        return w64((hi << 32) + int(y))
    return w64(x)


def cut(delta, bits, w):
    W = w64 if w == 64 else w32
    return [W((delta >> (w * i)) & (2**w - 1)) for i in range(bits // w)]


def adv_arg(prof, bg, delta, counter=None):
    g = prof.g
    if g in ("pcg32", "sq64", "sq32"):
        return {"d": w64(delta % 2**64), "zero": delta % 2**64 == 0}
    if g == "lcg128":
        return {"d": w128(delta % 2**128), "zero": delta % 2**128 == 0}
    if g == "bc":
        d = delta % 2**129
        return {"d": w128(d // 2), "rem": d % 2, "zero": d == 0}
    st = bg.state
    n, w = int(st["number"]), int(st["width"])
    if counter:
        d = delta % 2**(n * w)
        return {"ctr": True, "d": cut(d, n * w, w), "rem": 0, "zero": d == 0}
    d = delta % (n * 2**(n * w))
    return {"ctr": False, "d": cut(d // n, n * w, w), "rem": d % n, "zero": d == 0}


def jump_arg(prof, n):
    """small counts are repeated jumps in the specification; large ones go to families that add a fixed distance"""
    if n <= 64:
        return {"n": n}
    g = prof.g
    if g in ("pcg32", "sq64", "sq32"):
        return {"n": 65, "m": w64(n % 2**64), "count": str(n)}
    if g in ("lcg128", "bc"):
        return {"n": 65, "m": w128(n % 2**128), "count": str(n)}
    k, w = prof.kw["number"], prof.kw["width"]
    return {"n": 65, "m": cut(n % 2**(k * w // 2), k * w // 2, w), "count": str(n)}


class SegAbort(Exception):
    """the library refused an operation that the specification allows: the trace ends here"""


class Rec:
    """One segment of a trace.  Events are written as they happen, so that a crash of
    the process leaves the prefix."""

    def __init__(self, path=None):
        self.ev = []
        self.f = open(path, "w") if path else None
        self.objs = {}
        self.slots = {}
        self.ext = {}
        self.nid = 0
        self.draws = 0
        self.ops = {}

    def add(self, **e):
        self.ev.append(e)
        if self.f:
            self.f.write(json.dumps(e, separators=(",", ":")) + "\n")
            self.f.flush()
        self.ops[e["op"]] = self.ops.get(e["op"], 0) + 1
        return e

    def close(self):
        if self.f:
            self.f.close()

    def call(self, what, f, *a, **k):
        """a library call that the specification says succeeds"""
        try:
            return f(*a, **k)
        except Exception as x:
            self.add(op="error", what=what, exc=repr(x)[:300])
            raise SegAbort(what) from x

    def _id(self, bg, prof):
        self.nid += 1
        self.objs[self.nid] = (bg, prof)
        return self.nid

    def prof(self, o):
        return self.objs[o][1]

    def bg(self, o):
        return self.objs[o][0]

    # ---- operations
    def norm(self, bg, prof):
        return prof.norm(self.call("state", lambda: bg.state))

    def new(self, bg, prof):
        o = self._id(bg, prof)
        self.add(op="new", o=o, **self.norm(bg, prof))
        return o

    def draw(self, o, v, n=1, path="ctypes"):
        d = Drawer(self.bg(o))
        if v == "raw" and n > 1:
            xs = self.call("random_raw", lambda: [int(x) for x in self.bg(o).random_raw(n)])
        else:
            xs = self.call(v, lambda: [d(v, path) for _ in range(n)])
        self.add(op="draw", o=o, v=v, out=[enc(v, x) for x in xs])
        self.draws += n
        return xs

    def got(self, o, v, xs):
        """draws obtained by some other public route"""
        self.add(op="draw", o=o, v=v, out=[enc(v, x) for x in xs])
        self.draws += len(xs)

    def skip(self, o, n):
        """n words drawn and thrown away"""
        if n > 0:
            self.call("random_raw", lambda: self.bg(o).random_raw(n, output=False))
            self.add(op="skip", o=o, v="raw", n=n)

    def get(self, o):
        bg, prof = self.objs[o]
        self.add(op="get", o=o, **self.norm(bg, prof))

    def set(self, o, st):
        bg, prof = self.objs[o]
        e = prof.norm(st)

        def f():
            bg.state = st
        self.call("state=", f)
        self.add(op="set", o=o, **e)

    def adv(self, o, delta, counter=None):
        bg, prof = self.objs[o]
        a = adv_arg(prof, bg, delta, True if counter is None else counter)
        if counter is None:
            self.call("advance", bg.advance, delta)
        else:
            self.call("advance", bg.advance, delta, counter)
        self.add(op="adv", o=o, a=a, delta=str(delta))

    def jump(self, o, n=1):
        bg, prof = self.objs[o]
        self.call("jump", bg.jump, n)
        self.add(op="jump", o=o, **jump_arg(prof, n))

    def jumped(self, o, n=1, into=None):
        bg, prof = self.objs[o]
        b2 = self.call("jumped", bg.jumped, n)
        o2 = self._put(b2, prof, into)
        self.add(op="jumped", o=o2, src=o, **jump_arg(prof, n))
        return o2

    def _put(self, bg, prof, into):
        if into is None:
            return self._id(bg, prof)
        self.objs[into] = (bg, prof)
        return into

    def copy(self, o, kind="pickle", into=None, protocol=None):
        bg, prof = self.objs[o]
        base = kind.split("-")[-1]              # ext-...: an ExtendedGenerator around it is copied

        def named(b):
            """as pickles of older versions are read: the class by its name, then what the pickle holds"""
            name = type(bg).__name__
            name = {0: name, 1: name.encode(), 2: f"{type(bg).__module__}.{name}"}[protocol % 3]
            if b is bg:
                new = getattr(_pickle, "__bit_generator_ctor")(name)
                new.__setstate__(bg.__reduce__()[2])
            else:
                new = getattr(_pickle, "__extended_generator_ctor")(name)
                new.__setstate__(b.__getstate__())
            return new
        f = {"named": named, "pickle": lambda b: pickle.loads(pickle.dumps(b, protocol)), "copy": _copy.copy, "deepcopy": _copy.deepcopy}[base]
        if kind.startswith("ext-"):
            eg = self.call("ExtendedGenerator", ExtendedGenerator, bg)
            e2 = self.call(kind, f, eg)
            if type(e2) is not ExtendedGenerator:
                self.add(op="error", what=kind, exc=f"type {type(e2)}")
                raise SegAbort(kind)
            b2 = e2.bit_generator
        else:
            e2, b2 = None, self.call(kind, f, bg)
        if type(b2) is not type(bg) or b2 is bg:
            self.add(op="error", what=kind, exc=f"type {type(b2)}")
            raise SegAbort(kind)
        o2 = self._put(b2, prof, into)
        self.ext[o2] = e2
        if base == "named":
            base = "state" if e2 is not None else "pickle"
        self.add(op="copy", o=o2, src=o, kind=base)
        return o2

    def via_ext(self, o, v, n=1):
        """draws through the copied ExtendedGenerator itself"""
        eg = self.ext[o]
        if v == "dbl":
            xs = self.call("random", lambda: list(eg.random(n)))
        else:
            xs = self.call("uintegers", lambda: [int(x) for x in eg.uintegers(n, bits=int(v[1:]))])
        self.got(o, v, xs)

    def spawn(self, o, n, alts, via=None):
        """children of the object's seed sequence; alts(bg) lists the (profile, configuration) a child may have"""
        bg, prof = self.objs[o]
        kids = self.call("spawn", (via or bg).spawn, n)
        kids = [getattr(k, "bit_generator", k) for k in kids]
        ev = []
        for k in kids:
            al = [(p, c) for p, c in alts(prof) if type(k) is p.cls]
            p = next((p for p, c in al if self.fits(k, p)), None)
            if p is None:
                self.add(op="error", what="spawn", exc=f"child {k!r}")
                raise SegAbort("spawn")
            i = self._id(k, p)
            ev.append(dict(o=i, alts=[dict(g=q.g, k=c) for q, c in al if q.g == p.g], **self.norm(k, p)))
        self.add(op="spawn", o=o, n=n, kids=ev)
        return [e["o"] for e in ev]

    @staticmethod
    def fits(bg, prof):
        """can prof describe this object's state"""
        a, b = bg.state, prof.make(1).state
        same = all(a.get(k) == b.get(k) for k in ("size", "number", "width", "variant", "bit_generator"))
        return same and set(a) == set(b) and (not isinstance(a.get("state"), dict) or (set(a["state"]) == set(b["state"]) and a["state"].get("variant") == b["state"].get("variant")))

    def save(self, o, slot, via="state"):
        """slot: an identifier; the specification remembers the state under it"""
        bg, prof = self.objs[o]
        f = {"state": lambda: bg.state, "ext": lambda: ExtendedGenerator(bg).state, "ext-getstate": lambda: ExtendedGenerator(bg).__getstate__(),
             "reduce": lambda: bg.__reduce__()[2][0]}[via]
        st = self.call(via, f)
        self.slots[slot] = (st, prof)
        self.add(op="copy", o=-slot, src=o, kind="save")

    def reread(self, slot):
        """the saved dictionary as it is now: it must not have moved"""
        st, prof = self.slots[slot]
        self.add(op="get", o=-slot, **prof.norm(st))

    def restore(self, o, slot, via="state"):
        bg, prof = self.objs[o]
        st, p2 = self.slots[slot]

        def f():
            if via == "state":
                bg.state = st
            elif via == "ext":
                ExtendedGenerator(bg).state = st
            elif via == "ext-setstate":
                ExtendedGenerator(bg).__setstate__(st)
            elif via == "setstate":         # pickles of older versions hold the state alone, or with the seed sequence
                bg.__setstate__(st)
            elif via == "setstate-pair":
                bg.__setstate__((st, bg._get_seed_seq()))
        self.call("state= " + via, f)
        self.add(op="copy", o=o, src=-slot, kind="restore")

    def seeded(self, bg, prof, q, k, o=None, n=0, share=None):
        """bg was just created from (or, with o, re-seeded by) the seed sequence q"""
        o = self._put(bg, prof, o)
        self.add(op="seed", o=o, g=prof.g, q=q, k=k, **({"n": n} if n else {}), **({"share": share} if share else {}))
        return o

    def keyed(self, bg, prof, k, o=None):
        o = self._put(bg, prof, o)
        self.add(op="key", o=o, g=prof.g, k=k)
        return o

    def dump(self, path):
        with open(path, "w") as f:
            for e in self.ev:
                f.write(json.dumps(e, separators=(",", ":")) + "\n")
