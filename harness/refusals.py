"""Rejected operations (E01): malformed states and arguments, recorded with a description
of what was offered; spec/States.tla decides whether it had to be refused."""
import copy
import pickle

import numpy as np
import randomgen as rg
from numpy.random.bit_generator import ISeedSequence

import corners
from profiles import P
from rec import SegAbort
from seeds import q_int
from shapes import BIG, can_advance, can_jump


class Boom(Exception):
    pass


class Raising(ISeedSequence):
    """a seed sequence that fails when asked the k-th time"""

    def __init__(self, k=0):
        self.k = k

    def generate_state(self, n_words, dtype=np.uint32):
        if self.k == 0:
            raise Boom("no words")
        self.k -= 1
        return np.arange(1, n_words + 1, dtype=dtype)


class BadIndex:
    def __index__(self):
        raise Boom("no index")


def number(x):
    x0 = x
    frac = not isinstance(x, (int, np.integer)) and (x != x or x in (float("inf"), -float("inf")) or x != int(x))
    if frac:
        x = 1
    x = int(x)
    return {"k": "int", "neg": x < 0, "bits": abs(x).bit_length(), "v": min(abs(x), 2**30), "frac": bool(frac or isinstance(x0, (bool, np.bool_)))}


def describe(x):
    if x is None:
        return {"k": "none"}
    if isinstance(x, str):
        return {"k": "str", "s": x}
    if isinstance(x, (int, float, np.integer, np.floating, np.bool_)):
        return number(x)
    if isinstance(x, Raising):
        return {"k": "seq", "raises": True}
    if isinstance(x, (list, tuple, np.ndarray)):
        try:
            a = np.array(x, dtype=object)
            ns = [number(y) for y in a.ravel()]
        except Exception:
            return {"k": "object"}
        return {"k": "arr", "dim": a.ndim, "n": int(a.size), "neg": any(n["neg"] for n in ns), "bits": max([n["bits"] for n in ns] + [0]), "frac": any(n["frac"] for n in ns), "v": 2**30}
    return {"k": "object"}


def paths(d, pre=()):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from paths(v, pre + (k,))
        else:
            yield pre + (k,), v


def find(d, p):
    for k in p[:-1]:
        d = d[k]
    return d


def describe_state(bg, st):
    if not isinstance(st, dict):
        return {"whole": "other", "name": "missing", "f": {"none": {"k": "none"}}}
    n = st.get("bit_generator", None)
    cls = type(bg).__name__
    f = {".".join(map(str, p)): describe(v) for p, v in paths(st) if p != ("bit_generator",)}
    f["none"] = {"k": "none"}
    return {"whole": "dict", "name": "missing" if n is None else "own" if n in (cls, f"{type(bg).__module__}.{cls}") else "other", "f": f}


def alter(st, R, path=None):
    """one entry of the dictionary made strange"""
    ps = [p for p, _ in paths(st)]
    p = path or R.choice(ps)
    d = find(st, p)
    v = d[p[-1]]
    if isinstance(v, np.ndarray):
        n = len(v)
        if v.dtype.kind == "f":
            c = [v[:-1], np.concatenate([v, v[:1]]), v[None], v[:0], 3]
        else:
            hi = 2 ** (8 * v.dtype.itemsize)
            c = [v[:-1], np.concatenate([v, v[:1]]), v[None], v.reshape(-1, 1), v[:0], v[:1], 3, [-1] * n, [hi] * n, [2**70] * n, [0] * (n - 1) + [-1], [0] * (n - 1) + [hi], ["x"] * n]
        c += [None, "bad", object()]
    elif isinstance(v, str):
        c = [None, "bad", 3, "", 1.5]
    else:
        c = [-1, 2**128, 2**64, 2**32, 2**31, 100000, 700, 17, 5, 1, 0, 1000, 313, 383, 97, 65, 35, 11, None, "bad", np.array([1, 2]), object(), -2**31, 2**63]
    x = R.choice(c + ["missing"] * 2)
    if isinstance(x, str) and x == "missing":
        del d[p[-1]]
    else:
        d[p[-1]] = x
    return p


class Trier:
    """carries out operations that may be refused; the state is looked at afterwards"""

    def __init__(self, r, prof, R, o):
        self.r, self.p, self.R, self.o = r, prof, R, o
        self.n = 0

    @property
    def bg(self):
        return self.r.bg(self.o)

    def attempt(self, what, a, f, base):
        """f: the operation; base: a state to go on from if it was accepted"""
        r, bg = self.r, self.bg
        seq = repr(bg._seed_seq) + repr(getattr(bg._seed_seq, "n_children_spawned", ""))
        try:
            f()
            ok = True
        except Exception as x:
            ok, self.exc = False, x
        r.add(op="try", o=self.o, what=what, cls=type(bg).__name__, a=a, ok=ok)
        if ok:
            r.set(self.o, base)
            r.draw(self.o, "n32", 1)
            return True
        self.n += 1
        r.get(self.o)
        r.add(op="equal", what="seed sequence", a=repr(bg._seed_seq) + repr(getattr(bg._seed_seq, "n_children_spawned", "")), b=seq)
        if self.R.randrange(3) == 0:
            r.draw(self.o, self.R.choice(["n32", "n64", "dbl", "raw"]), self.R.randrange(1, 4))
        return False


def start(r, prof, R, some_draws):
    bg = r.call("construct", prof.make, R.randrange(1, 2**40))
    o = r.new(bg, prof)
    some_draws(r, o, prof, R, R.randrange(1, 5))
    return o


def t_states(prof, n, some_draws):
    """malformed states: one or two entries spoilt in a state that differs everywhere from the current one"""
    def f(r, R):
        o = start(r, prof, R, some_draws)
        t = Trier(r, prof, R, o)
        other = prof.make(R.randrange(2**40))
        if prof.g == "lxm":
            other.state = {**other.state, "state": {**other.state["state"], "b": t.bg.state["state"]["b"]}}
        other.random_raw(R.randrange(1, 40))
        other.ctypes.next_uint32(other.ctypes.state)
        whole = [None, 5, "state", [], (), {}, [("bit_generator", "MT19937")], {"bit_generator": "MT19937" if prof.g != "mt" else "MT64"}]
        every = [p for p, _ in paths(other.state)]
        for i in range(n):
            base = t.bg.state
            st = copy.deepcopy(other.state)
            if i < len(whole):
                st = whole[i]
            elif R.randrange(12) == 0:
                st["bit_generator"] = R.choice([None, "", "Xyz", "randomgen.xyz.Xyz", 5, P["SFC64" if prof.g != "sfc" else "PCG32"].make(1).state["bit_generator"]])
            else:
                p = alter(st, R, every[(i - len(whole)) % len(every)])
                if R.randrange(4) == 0:
                    left = [q for q, _ in paths(st) if q != p]
                    alter(st, R, R.choice(left))
            bg = t.bg
            how = R.randrange(3)

            def assign():
                if how == 0:
                    rg.ExtendedGenerator(bg).state = st
                else:
                    bg.state = st
            t.attempt("state", describe_state(bg, st), assign, base)
        r.get(o)
    return f


def sizes_bad(R):
    """(argument, description)"""
    def d(x):
        if x is None:
            return {"k": "none"}
        if isinstance(x, (tuple, list)):
            return {"k": "tuple", "items": [describe(y) for y in x]}
        return describe(x)
    x = R.choice([-1, -5, (2, -3), (-1,), 1.5, (2, 2.5), "a", ("a",), (2, "3"), [1, None], object(), BadIndex(), (3, BadIndex()), 3j, {"a": 1}, -2**62,
                  None, 3, (2, 2), (), [2], (0,), 0, np.int64(2)])
    return x, d(x)


def out_for(R, dtype, size):
    """an output array, fit or unfit, and its description"""
    dt = {"float64": np.float64, "float32": np.float32, "longdouble": np.longdouble}[dtype]
    sh = (4,) if size is None else tuple(int(i) for i in size) if isinstance(size, (tuple, list)) else (int(size),)
    k = R.randrange(9)
    d = {"given": True, "array": True, "dtype": dtype, "plain": True, "fits": True}
    if k == 0:
        return np.zeros(sh, dt), d
    if k == 1:
        x = np.zeros(sh, dt)
        x.flags.writeable = False
        return x, {**d, "plain": False}
    if k == 2:
        return np.zeros((7, 2), dt)[:, :1], {**d, "plain": False, "fits": False}
    if k == 3:
        o = R.choice([t for t in ("float64", "float32", "longdouble") if t != dtype])
        return np.zeros(sh, {"float64": np.float64, "float32": np.float32, "longdouble": np.longdouble}[o]), {**d, "dtype": o}
    if k == 4:
        return R.choice([[0.0] * 4, "out", 3.0, (0.0,), b"bytes"]), {**d, "array": False}
    if k == 5:
        return np.zeros(sh + (3,), dt), {**d, "fits": False}
    if k == 6 and dtype != "longdouble":
        return np.zeros(sh, np.dtype(dt).newbyteorder()), {**d, "plain": False}
    if k == 7:
        return np.zeros(sh, np.int64), {**d, "dtype": "int64"}
    return None, {"given": False}


N2 = np.array([[1.0, 2.0], [2.0, 1.0]])


def matrix_calls():
    """(method, positional, keyword, facts that must hold)"""
    E2, E3 = np.eye(2), np.eye(3)
    c = []

    def add(m, *a, facts, **k):
        c.append((m, a, k, facts))
    for meth in ("svd", "eigh", "cholesky"):
        add("multivariate_normal", [0, 0], N2, check_valid="raise", method=meth, facts={"psd": False})
        add("wishart", 3, N2, check_valid="raise", method=meth, facts={"psd": False})
        add("wishart", [3, 1], N2, check_valid="raise", method=meth, facts={"psd": False})
        add("wishart", 1, np.array([E2, N2]), check_valid="raise", method=meth, facts={"psd": False})
        add("multivariate_complex_normal", [0, 0], N2, check_valid="raise", method=meth, facts={"psd": False})
        add("multivariate_complex_normal", [0, 0], np.array([E2, N2]), check_valid="raise", method=meth, facts={"psd": False})
    add("multivariate_normal", [0, 0], E2, facts={"psd": True})
    add("multivariate_normal", [0, 0], E3, facts={"shapes": False})
    add("multivariate_normal", 0, E2, facts={"shapes": False})
    add("multivariate_normal", [0, 0], [1, 1], facts={"shapes": False})
    add("multivariate_normal", np.zeros((3, 2)), np.array([E2, E2]), facts={"broadcast": False})
    add("multivariate_normal", np.zeros((3, 2)), E2, size=(2,), facts={"broadcast": False})
    add("multivariate_normal", np.zeros((3, 2)), E2, size=(3, 2), facts={"broadcast": False})
    add("multivariate_normal", np.zeros((2, 3, 2)), E2, size=3, facts={"broadcast": False})
    add("multivariate_normal", [0, 0], E2, size=-1, facts={"size": False})
    add("multivariate_normal", [0, 0], E2, size=(2, -1), facts={"size": False})
    add("multivariate_normal", [0, 0], E2, size=1.5, facts={"size": False})
    add("multivariate_normal", [0, 0], E2, check_valid="maybe", facts={"check": False})
    add("multivariate_normal", ["a", "b"], E2, facts={"numbers": False})
    add("multivariate_normal", [None, 0], E2, facts={"numbers": False})
    add("multivariate_normal", [0, 0], [["a", 0], [0, 1]], facts={"numbers": False})
    add("complex_normal", 0, 1, 2, facts={"feasible": False})
    add("complex_normal", 0, 1, -2, facts={"feasible": False})
    add("complex_normal", 0, 1 + 1j, 0, facts={"feasible": False})
    add("complex_normal", 0, -1, 0, facts={"feasible": False})
    add("complex_normal", 0, 1, 0.5 + 2j, facts={"feasible": False})
    add("complex_normal", 0, 1, 1 + 0.5j, facts={"feasible": False})
    add("complex_normal", [0, 0], 1, [0, 1 + 0.5j], facts={"feasible": False})
    add("complex_normal", [0, 0], [1, 1], [0, 2], facts={"feasible": False})
    add("complex_normal", [0, 0], [1, -1], facts={"feasible": False})
    add("complex_normal", [0, 0], [1, 1j], facts={"feasible": False})
    add("complex_normal", [0, 0], [1, 1, 1], facts={"broadcast": False})
    add("complex_normal", [0, 0], 1, size=3, facts={"broadcast": False})
    add("complex_normal", [0, 0], 1, size=(2, 1), facts={"broadcast": False})
    add("complex_normal", 0, 1, size=-3, facts={"size": False})
    add("complex_normal", 0, 1, size="x", facts={"size": False})
    add("complex_normal", "x", 1, facts={"numbers": False})
    add("complex_normal", [0, 1j], 1, 0.5, facts={"feasible": True})
    add("multivariate_complex_normal", [0, 0], E3, facts={"shapes": False})
    add("multivariate_complex_normal", [], None, facts={"shapes": False})
    add("multivariate_complex_normal", [0, 0], E2, E3, facts={"shapes": False})
    add("multivariate_complex_normal", [0, 0], np.array([E2] * 3), np.array([E2 * 0] * 2), facts={"broadcast": False})
    add("multivariate_complex_normal", np.zeros((3, 2)), np.array([E2] * 2), facts={"broadcast": False})
    add("multivariate_complex_normal", [0, 0], np.array([[1, 1j], [1j, 1]]), facts={"hermitian": False})
    add("multivariate_complex_normal", [0, 0], E2, np.array([[0, 0.5], [0.1, 0]]), facts={"symmetric": False})
    add("multivariate_complex_normal", [0, 0], size=-1, facts={"size": False})
    add("multivariate_complex_normal", [0, 0], size=(2,), facts={"size": True})
    add("wishart", 0, E2, facts={"df": False})
    add("wishart", [], E2, facts={"df": False})
    add("wishart", [3, -1], E2, facts={"df": False})
    add("wishart", 3, np.zeros((2, 3)), facts={"shapes": False})
    add("wishart", 3, [1.0], facts={"shapes": False})
    add("wishart", 3, np.zeros((0, 0)), facts={"shapes": False})
    add("wishart", 3, None, facts={"shapes": False})
    add("wishart", [3, 4], np.array([E2] * 3), facts={"broadcast": False})
    add("wishart", [3, 4], E2, size=3, facts={"broadcast": False})
    add("wishart", [3, 4], E2, size=(2, 1), facts={"broadcast": False})
    add("wishart", 3, E2, size=-1, facts={"size": False})
    add("wishart", 1, E2, size=-1, facts={"size": False})
    add("wishart", 1, E2, size="x", facts={"size": False})
    add("wishart", 3, E2, facts={"df": True})
    add("standard_wishart", -1, 2, facts={"df": False})
    add("standard_wishart", 3, -1, facts={"dim": False})
    add("standard_wishart", "x", 2, facts={"df": False})
    add("standard_wishart", 3, 2, size=-1, facts={"size": False})
    add("standard_wishart", 1, 2, size=(2, -1), facts={"size": False})
    add("standard_wishart", 3, 2, facts={"df": True})
    return c


def t_draws(prof, n, some_draws):
    """draws with unusable sizes, kinds, outputs and parameters"""
    calls = matrix_calls()

    def f(r, R):
        o = start(r, prof, R, some_draws)
        t = Trier(r, prof, R, o)
        off = R.randrange(len(calls))
        for i in range(n):
            bg = t.bg
            ext = rg.ExtendedGenerator(bg)
            base = bg.state
            k = R.randrange(8)
            if k < 5:
                m, a, kw, facts = calls[(off + i) % len(calls)]
                t.attempt("draw", {"what": m, "a": facts}, lambda: getattr(ext, m)(*copy.deepcopy(a), **kw), base)
                continue
            size, d = sizes_bad(R)
            if k == 5:
                t.attempt("draw", {"what": "raw", "a": {"size": d}}, lambda: bg.random_raw(size), base)
            elif k == 6:
                bits = R.choice([64, 64, 32, 16, 0, -1, 128, 8, 63])
                t.attempt("draw", {"what": "uintegers", "a": {"size": d, "bits": bits}}, lambda: ext.uintegers(size, bits), base)
            else:
                dtype = R.choice(["float64", "float32", "longdouble"])
                if R.randrange(3) == 0:
                    dt = R.choice(["int32", "uint64", "complex128", "float16", "bool"])
                    t.attempt("draw", {"what": "random", "a": {"size": d, "dtype": dt, "out": {"given": False}}}, lambda: ext.random(size, dt), base)
                elif R.randrange(2):
                    t.attempt("draw", {"what": "random", "a": {"size": d, "dtype": dtype, "out": {"given": False}}}, lambda: ext.random(size, dtype), base)
                else:
                    size = R.choice([None, 3, (2, 2), [2], (3, 1)])
                    out, od = out_for(R, dtype, size)
                    sd = {"k": "none"} if size is None else describe(size) if isinstance(size, int) else {"k": "tuple", "items": [describe(y) for y in size]}
                    t.attempt("draw", {"what": "random", "a": {"size": sd, "dtype": dtype, "out": od}}, lambda: ext.random(size, dtype, out), base)
    return f


def entropy(R):
    x = R.choice([1.5, -1, "xyz", "0xZZ", [None], [-1, 2], object(), np.array([1.5, 2.5]), 1j, [[1, "q"]], [1.5], (3, -4), Raising(), {"a": 1}, -2**70, float("nan"), [1, [2, [-3]]], b"ab",
                  None, 7, 2**70, [1, 2], (5, [6, 7])])

    def d(x):
        if isinstance(x, (list, tuple)):
            return {"k": "tuple", "items": [d(y) for y in x]}
        if isinstance(x, np.ndarray):
            return {"k": "tuple", "items": [d(y) for y in x]}
        return describe(x)
    return x, d(x)


# further arguments of seed(): (bits, may be a sequence)
def seed_args(prof):
    g, cls = prof.g, prof.cls
    if g in ("cb64", "cb32"):
        n, w = prof.kw["number"], prof.kw["width"]
        return {"key": n // 2 * w if cls is rg.Philox else n * w, "counter": n * w}
    if g == "bc":
        return {"key": 128 if cls is rg.AESCounter else 256, "counter": 128}
    if g == "chacha":
        return {"key": 256, "counter": 128}
    if g == "hc":
        return {"key": 256}
    if g in ("sq64", "sq32"):
        return {"key": 64, "counter": 64}
    if g == "pcg32":
        return {"inc": 64}
    if g == "lcg128" and not prof.kw.get("numpy_seed"):
        return {"inc": 128}
    if g in ("tyche", "tycheo"):
        return {"idx": 32}
    return {}


def t_seeds(prof, n, some_draws):
    """re-seeding with unusable seeds, keys, counters and increments; distances that are none"""
    args = seed_args(prof)

    def f(r, R):
        o = start(r, prof, R, some_draws)
        t = Trier(r, prof, R, o)
        for i in range(n):
            base = t.bg.state
            bg = t.bg
            k = R.randrange(6)
            if k == 0 and can_advance(prof):
                x = R.choice([None, object(), [1, 2], np.array([1, 2]), 3, -5, 2**40, {"a": 1}])
                t.attempt("advance", describe(x), lambda: bg.advance(x), base)
                continue
            if k == 1 and can_jump(prof) and prof.g not in BIG:
                x = R.choice([None, object(), np.array([1, 2]), {"a": 1}, 1])
                m = R.choice(["jump", "jumped"])
                t.attempt(m, describe(x), lambda: getattr(bg, m)(x), base)
                continue
            kw, more = {}, {}
            seed, sd = entropy(R)
            if args and R.randrange(3):
                seed, sd = R.choice([(None, {"k": "none"}), (5, describe(5))])
                for name in R.sample(sorted(args), R.randrange(1, len(args) + 1)):
                    b = args[name]
                    x = R.choice([-1, 2**b, 2**300, "abc", object(), [None], {"a": 1}, -2**b, 5, 2**b - 1])
                    if name == "key" and prof.g in ("sq64", "sq32") and isinstance(x, int):
                        x |= 1
                    if name in ("key", "counter"):
                        x = R.choice([x, 1.5, 3j])
                    if name in ("inc", "idx") and seed is None:
                        continue
                    kw[name] = x
                    more[name] = {"a": describe(x), "bits": b}
            more["none"] = {"a": {"k": "none"}, "bits": 0}
            if isinstance(seed, Raising):
                seed = Raising(0)
            s0 = repr(seed)
            ok = t.attempt("seed", {"seed": sd, "more": more}, lambda: bg.seed(seed, **kw), base)
            r.add(op="equal", what="argument", a=repr(seed), b=s0)
            if ok:
                bg.seed(R.randrange(2**30))
                r.set(o, base)
        r.get(o)
    return f
