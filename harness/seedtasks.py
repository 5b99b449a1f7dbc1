"""Recording for the seed sequence properties (D01, D02, D03)."""
import copy
import json
import pickle
import sys
import threading
from pathlib import Path

import numpy as np
import randomgen as rg
from randomgen._seed_sequence import SeedSequence as SS
from numpy.random import SeedSequence as NS
from numpy.random.bit_generator import ISeedSequence

import corners
from profiles import P, w32, w64, ws32, ws64
from rec import SegAbort
from seeds import cfg, words32
from shapes import BIG, SEEDS, shape


def words(x):
    """the 32-bit words an entropy value stands for"""
    if isinstance(x, str):
        return words32(int(x, 16) if x.startswith("0x") else int(x))
    if isinstance(x, (int, np.integer)):
        return words32(int(x))
    return [w for v in x for w in words(v)]


def key_of(ss):
    return [ws32(words(k)) for k in ss.spawn_key]


def q_of(ss):
    return {"ent": ws32(words(ss.entropy)), "spawn": [w for k in key_of(ss) for w in k], "pool": int(ss.pool_size)}


def facts(ss):
    return {"ent": ws32(words(ss.entropy)), "key": key_of(ss), "pool": int(ss.pool_size), "n": ws32(words(ss.n_children_spawned))[0]}


def big(R):
    k = R.randrange(9)
    if k == 0:
        return R.choice([0, 1, 2**32 - 1, 2**32, 2**64 - 1, 2**64, 2**96, 2**128 - 1, 2**128, 2**160 + 1])
    if k < 4:
        return R.getrandbits(R.choice([1, 8, 31, 32, 33]))
    if k < 6:
        return R.getrandbits(R.choice([64, 127, 128, 129])) | 1
    if k == 6:
        return R.getrandbits(32) << (32 * R.randrange(1, 5))          # low words zero
    return R.getrandbits(R.randrange(1, 400))


def spell(x, R):
    """an integer, in one of its spellings"""
    ways = [x, x, str(x), hex(x), "0x" + f"{x:X}", "0x00" + f"{x:x}", "00" + str(x)]
    for t in (np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64):
        if x <= np.iinfo(t).max:
            ways.append(t(x))
    if x <= 1:
        ways.append(bool(x))
    return R.choice(ways)


def entropy(R):
    """entropy of any admissible form"""
    k = R.randrange(12)
    if k < 4:
        return spell(big(R), R)
    n = R.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 17])
    xs = [big(R) for _ in range(n)]
    if k == 4:
        return [spell(x, R) for x in xs]
    if k == 5:
        return tuple(spell(x, R) for x in xs)
    if k == 6:
        return np.array([x % 2**32 for x in xs], dtype=np.uint32)
    if k == 7:
        t = R.choice([np.int64, np.uint64, np.int32, np.uint8, np.int16])
        return np.array([x % (int(np.iinfo(t).max) + 1) for x in xs], dtype=t)
    if k == 8:
        return np.array([x % 2**62 for x in xs + xs], dtype=np.int64).reshape(2, n) if n else []
    if k == 9:
        return [[spell(x, R) for x in xs], spell(big(R), R), np.array([big(R) % 2**32, 5], dtype=np.uint32)]
    if k == 10:
        return range(R.randrange(5), R.randrange(5, 12))
    return np.array([x % 2**32 for x in xs * 2], dtype=np.uint32)[::2]


BAD = [-1, -2**70, 1.5, np.float64(3), "abc", "0x", "-5", "1.5", [1, -1], [1, 2.5], [3, "x"], {"a": 1}, {1, 2}, np.array([1.0, 2.0]), np.array([-1, 2]), b"12", object(), 3j]


def gen(r, o, ss, n, bits):
    dt = R_dtype(bits, n)
    out = r.call("generate_state", ss.generate_state, n, dt)
    ok = isinstance(out, np.ndarray) and out.dtype == np.dtype(f"uint{bits}") and out.ndim == 1
    r.add(op="gen", o=o, n=n, bits=bits if ok else -1, out=(ws64 if bits == 64 else ws32)(out))
    r.draws += n


def R_dtype(bits, n):
    return [f"uint{bits}", np.dtype(f"uint{bits}"), getattr(np, f"uint{bits}")][n % 3]


def t_hash(n):
    def f(r, R):
        o = 0
        for _ in range(n):
            e = entropy(R)
            key = tuple(R.choice([R.randrange(4), big(R)]) for _ in range(R.choice([0, 0, 1, 2, 3, 6])))
            pool = R.choice([4, 4, 4, 5, 8, 9])
            o += 1
            before = repr(e)
            how = R.randrange(3)
            if how == 0 and not key and pool == 4:
                ss = r.call("SeedSequence", SS, e)
            else:
                ss = r.call("SeedSequence", lambda: SS(e, spawn_key=list(key) if how == 1 else key, pool_size=pool))
            # the requested values, not those the object reports
            r.add(op="mk", o=o, ent=ws32(words(e)), key=[ws32(words(k)) for k in key], pool=pool, n=ws32([0])[0])
            if repr(e) != before:
                r.add(op="error", what="entropy argument modified", exc=before)
                raise SegAbort("modified")
            for _ in range(R.randrange(1, 4)):
                gen(r, o, ss, R.choice([0, 1, 2, 3, 4, 5, 8, 17]), R.choice([32, 64]))
            r.add(op="view", o=o, **facts(ss))
            if isinstance(e, (list, np.ndarray)) and len(e):       # the caller changes its argument
                e[0] = 77
                gen(r, o, ss, 3, 32)
                k = r.call("spawn", ss.spawn, 1)[0]
                r.add(op="spawn", o=o, n=1, kids=[dict(o=1000, **facts(k))])
                gen(r, 1000, k, 3, 32)
            if R.randrange(3) == 0:
                b = R.choice(BAD)
                try:
                    s2 = SS(b)
                    s2.generate_state(1)
                    r.add(op="accepted", what=repr(b))
                except Exception:
                    r.add(op="refused")
    return f


def t_large(n):
    def f(r, R):
        ss = SS(big(R), spawn_key=(big(R),))
        r.add(op="mk", o=1, **facts(ss))
        gen(r, 1, ss, n, 32)
        gen(r, 1, ss, n // 2, 64)
        gen(r, 1, ss, n // 3, 32)
    return f


class Tree:
    def __init__(self, r, R, make):
        self.r, self.R = r, R
        ss = r.call("SeedSequence", make)
        self.n = 0
        self.ids, self.obj = {}, {}
        self.put(1, ss)
        r.add(op="mk", o=self.ids[1], **facts(ss))

    def put(self, i, ss):
        self.n += 1
        self.ids[i], self.obj[i] = self.n, ss
        return self.n

    def spawn(self, i, k):
        ss = self.obj[i]
        kids = self.r.call("spawn", ss.spawn, k)
        return self.spawned(i, k, kids)

    def spawned(self, i, k, kids):
        ev = []
        for c in kids:
            self.n += 1
            ev.append(dict(o=self.n, **facts(c)))
        self.r.add(op="spawn", o=self.ids[i], n=k, kids=ev)
        return [(e["o"], c) for e, c in zip(ev, kids)]

    def do(self, op):
        r, R = self.r, self.R
        k, i = op[0], op[1]
        ss = self.obj[i]
        if k == "spawn":
            kids = self.spawn(i, op[3])
            if kids:
                self.ids[op[2]], self.obj[op[2]] = kids[0]
                o, c = kids[-1]
                gen(r, o, c, 2, 32)
            gen(r, self.ids[i], ss, 2, 64)
        elif k == "gen":
            gen(r, self.ids[i], ss, op[2], op[3])
        elif k == "view":
            r.add(op="view", o=self.ids[i], **facts(ss))
        else:
            c = r.call(k, {"pickle": lambda s: pickle.loads(pickle.dumps(s)), "copy": copy.copy, "deepcopy": copy.deepcopy,
                           "rebuild": lambda s: type(s)(**s.state)}[k], ss)
            src = self.ids[i]
            o = self.put(op[2], c)
            r.add(op="copy", o=o, src=src)
            r.add(op="view", o=o, **facts(c))


# counts of children at the edges of the integer types they pass through
STARTS = [0, 0, 0, 0, 7, 2**8 - 1, 2**15 - 2, 2**16 - 2, 2**31 - 3, 2**31 - 1, 2**31 + 5, 2**32 - 64]
NOCOUNT = [2**32, 2**70, 2.5, "2", None, [1], np.float64(1.5), -1, -2**40]


def t_tree(walk):
    def f(r, R):
        n0 = R.choice(STARTS)
        e, key, pool = entropy(R), tuple(big(R) for _ in range(R.choice([0, 0, 1, 2]))), R.choice([4, 4, 8])
        t = Tree(r, R, lambda: SS(e, spawn_key=key, pool_size=pool, n_children_spawned=n0))
        for op in walk:
            if op[0] == "spawn" and R.randrange(6) == 0:
                try:
                    t.obj[op[1]].spawn(-R.randrange(1, 4))
                    r.add(op="accepted", what="spawn negative")
                except ValueError:
                    r.add(op="refused")
            t.do(op)
            if op[0] == "spawn" and R.randrange(4) == 0:
                try:
                    t.obj[op[1]].spawn(R.choice(NOCOUNT))
                    raise SegAbort("a count of children of another kind was accepted")
                except (TypeError, ValueError, OverflowError):
                    r.add(op="refused")
                r.add(op="view", o=t.ids[op[1]], **facts(t.obj[op[1]]))
        for i in t.ids:
            r.add(op="view", o=t.ids[i], **facts(t.obj[i]))
    return f


def t_threads(n):
    """several threads spawn from one sequence; the calls in the order of the keys they got"""
    def f(r, R):
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            for _ in range(n):
                ent = [str(big(R)) for _ in range(3)]
                t = Tree(r, R, lambda: SS(ent))
                ss = t.obj[1]
                plans = [[R.choice([0, 1, 2, 5]) for _ in range(6)] for _ in range(4)]
                got = [[] for _ in plans]
                bar = threading.Barrier(len(plans))

                def run(j):
                    bar.wait()
                    for k in plans[j]:
                        got[j].append((k, ss.spawn(k)))
                ths = [threading.Thread(target=run, args=(j,)) for j in range(len(plans))]
                for th in ths:
                    th.start()
                for th in ths:
                    th.join(60)
                if any(th.is_alive() for th in ths):
                    r.add(op="error", what="threads", exc="hang")
                    raise SegAbort("hang")
                calls = [c for g in got for c in g]
                calls.sort(key=lambda c: int(c[1][0].spawn_key[-1]) if c[1] else -1)
                for k, kids in calls:
                    t.spawned(1, k, kids)
                r.add(op="view", o=t.ids[1], **facts(ss))
        finally:
            sys.setswitchinterval(old)
    return f


def walks(out, name):
    return json.loads((Path(out) / f"walks-{name}.json").read_text())


class Own(ISeedSequence):
    """a seed sequence of the user's own, with words at the edges"""

    def __init__(self, R, n=1600):
        k = R.randrange(4)
        self.w = [corners.word(R, 32) if k else R.choice([0, 2**32 - 1, 2**31]) for _ in range(n)]
        if k == 1:
            self.w[:64] = [0] * 64
            self.w[R.randrange(8)] = 1 << R.randrange(32)
        if not any(self.w[:8]):
            self.w[0] = 1        # LXM waits for a non-zero word

    def generate_state(self, n_words, dtype=np.uint32):
        if np.dtype(dtype) == np.uint64:
            return np.array([self.w[2 * i] | self.w[2 * i + 1] << 32 for i in range(n_words)], dtype=np.uint64)
        return np.array(self.w[:n_words], dtype=np.uint32)


NWORDS = {"mt": 624, "mt64": 624, "sfmt": 624, "dsfmt": 764}


# ---- D01
def seq_of(R, g=None):
    """a seed argument and the sequence it stands for"""
    k = R.randrange(10)
    if k > 7:
        if g in ("sq64", "sq32"):       # rejection sampling: any words will not do
            k = 0
        else:
            s = Own(R)
            s.q = {"raw": ws32(s.w[:NWORDS.get(g, 64)])}
            return s, s
    if k < 3:
        s = R.choice(SEEDS + [big(R), big(R)])
        return s, NS(s)
    if k == 3:
        s = [big(R) for _ in range(R.choice([1, 2, 5, 8]))]
        return s, NS(s)
    if k == 4:
        s = np.array([big(R) % 2**32 for _ in range(R.choice([1, 4, 6]))], dtype=R.choice([np.uint32, np.uint64]))
        return s, NS(s)
    cls = R.choice([NS, rg.SeedSequence])
    s = cls(big(R), spawn_key=tuple(R.randrange(9) for _ in range(R.randrange(3))), pool_size=R.choice([4, 4, 8]))
    if k == 7:
        s = s.spawn(2)[1]
    return s, s


def q_for(ss):
    return ss.q if isinstance(ss, Own) else q_of(ss)


def extras(prof, R):
    """optional seeding arguments: (keyword arguments, configuration)"""
    g = prof.g
    if R.randrange(2):
        return {}, cfg(prof)
    if g in ("cb64", "cb32"):
        n, w = prof.kw["number"], prof.kw["width"]
        c = corners.counter_value(R, n * w, w)
        return {"counter": c}, cfg(prof, counter=c)
    if g in ("bc", "chacha"):
        c = corners.counter_value(R, 128, 64)
        return {"counter": c}, cfg(prof, counter=c)
    if g in ("sq64", "sq32"):
        c = corners.counter_value(R, 64, 64)
        return {"counter": c}, cfg(prof, counter=c)
    if g == "pcg32":
        c = corners.word(R)
        return {"inc": c}, cfg(prof, inc=c)
    if g == "lcg128" and not prof.kw.get("numpy_seed"):
        c = corners.word(R, 128)
        return {"inc": c}, cfg(prof, inc=c)
    if g in ("tyche", "tycheo"):
        c = corners.word(R, 32)
        return {"idx": c}, cfg(prof, idx=c)
    return {}, cfg(prof)


def t_seeding(prof, n, some_draws, corner_object):
    def f(r, R):
        for _ in range(n):
            s, ss = seq_of(R, prof.g)
            kw, k = extras(prof, R)
            bg = r.call("construct", prof.make, s, **kw)
            o = r.seeded(bg, prof, q_for(ss), k)
            r.get(o)
            some_draws(r, o, prof, R, 3)
            # any history, then a seed: as if new
            o2 = corner_object(r, prof, R)
            some_draws(r, o2, prof, R, R.randrange(4))
            if R.randrange(3) == 0:
                o3 = r.copy(o2, "copy")
                o2 = R.choice([o2, o3])
            s, ss = seq_of(R, prof.g)
            kw, k = extras(prof, R)
            r.call("seed", r.bg(o2).seed, s, **kw)
            r.seeded(r.bg(o2), prof, q_for(ss), k, o2)
            r.get(o2)
            some_draws(r, o2, prof, R, 4)
            r.get(o2)
    return f
