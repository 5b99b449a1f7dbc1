"""What is recorded for each property: a list of named segments."""
import json
from pathlib import Path

import numpy as np
import randomgen as rg

import access as AC
import corners
import enttasks as ET
import keytasks as KT
import locktasks as LT
import mattasks as MT
import movetasks as MV
import rdtasks as RD
import refusals as RF
import seedtasks as S
import usertasks as UT
from profiles import P, Profile, VIEWS, M64, n_jsf, n_lcg, n_speck, n_lxm, n_chacha, w64, w32, w128
from rec import Rec, SegAbort
from seeds import cfg, q_int, q_of
from shapes import BIG, SEEDS, Walker, abstract, can_advance, can_jump, shape, tour, JUMP_SPEC


class Task:
    def __init__(self, name, fn, cost=1.0, module="StreamTrace"):
        self.name, self.fn, self.cost, self.module = name, fn, cost, module


def shape_key(prof):
    b, w, keep = abstract(prof)
    raw = 2 if w == 2 and prof.g not in ("pcg32", "jsf32", "cb32", "mt") else 1
    return f"{b}-{w}-{raw}-{int(keep)}"


class Sched:
    """schedules generated by TLC from BitGen.tla (see schedules.py)"""

    def __init__(self, out):
        self.d = json.loads((Path(out) / "sched.json").read_text())
        self.tours = {}

    def tour(self, kind, prof):
        k = f"{kind}:{shape_key(prof)}"
        if k not in self.tours:
            e = [(json.dumps(a), b, json.dumps(c)) for a, b, c in self.d["edges"][k]]
            self.tours[k] = tour(e, json.dumps(self.d["start"][k]))
        return self.tours[k]

    def walks(self, kind, prof):
        return self.d["walks"][f"{kind}:{shape_key(prof)}"]


BLOCKS = ("bc", "cb64", "cb32")


def everyn(prof):
    return 12 if prof.g in BIG else 4 if prof.g in ("bc", "efiix", "xs1024", "chacha") else 1


G = {
    "G01": {"cb64", "cb32", "bc", "chacha", "hc", "sq64", "sq32"},
    "G02": {"xo256", "xo512", "xorop", "xoropp", "xs1024", "lxm", "mt", "mt64", "sfmt", "dsfmt"},
    "G03": {"pcg32", "lcg128", "sfc", "jsf64", "jsf32", "romuq", "romut", "tyche", "tycheo", "efiix"},
}


def t_corner(prof, n, draws):
    """n states at the edges, each followed by enough draws to see the whole update"""
    def f(r, R):
        bg = r.call("construct", prof.make, 4711)
        o = r.new(bg, prof)
        for _ in range(n):
            st = corners.randomise(prof, bg, R)
            if prof.name.startswith("LCG128Mix"):
                st["state"]["multiplier"] = bg.state["state"]["multiplier"]
            r.set(o, st)
            if prof.g not in BIG:
                r.get(o)
            k = draws
            while k > 0:
                m = min(k, R.choice([1, 2, 3, 7, draws]))
                r.draw(o, R.choice(["raw", "n64", "n64", "dbl", "n32"]), m)
                k -= m
            r.get(o)
    return f


def t_long(prof, blocks, seed):
    """a run through several blocks of a seeded generator"""
    def f(r, R):
        b, w, _ = shape(prof)
        bg = r.call("construct", prof.make, seed)
        o = r.new(bg, prof)
        total = blocks * b
        while total > 0:
            m = min(total, R.choice([1, 5, 33, 400]))
            r.draw(o, R.choice(["raw", "n64", "dbl"]), m)
            total -= m
        r.get(o)
    return f


def t_random_config(group, n):
    """configurations drawn at random: rotation sets, multipliers, rounds, addends"""
    def f(r, R):
        for _ in range(n):
            if group == "G03":
                kind = R.randrange(3)
                if kind == 0:
                    p = Profile("JSF*", "jsf64", rg.JSF, n_jsf, seed_size=R.choice([1, 2, 3]), p=R.randrange(1, 64), q=R.randrange(1, 64), r=R.randrange(0, 64))
                elif kind == 1:
                    p = Profile("JSF32*", "jsf32", rg.JSF, n_jsf, size=32, seed_size=R.choice([1, 2, 3]), p=R.randrange(1, 32), q=R.randrange(1, 32), r=R.randrange(0, 32))
                else:
                    p = Profile("LCG128Mix*", "lcg128", rg.LCG128Mix, n_lcg, output=R.choice(["xsl-rr", "dxsm", "murmur3", "upper", "lower"]),
                                post=R.choice([True, False]), multiplier=corners.word(R, 128) // 8 * 8 + 5, dxsm_multiplier=corners.word(R) | 1)
            elif group == "G02":
                p = Profile("LXM*", "lxm", rg.LXM, n_lxm, b=corners.word(R) | 1)
            else:
                if R.randrange(2):
                    p = Profile("SPECK*", "bc", rg.SPECK128, n_speck, rounds=R.randrange(1, 35))
                else:
                    p = Profile("ChaCha*", "chacha", rg.ChaCha, n_chacha, rounds=2 * R.randrange(1, 17))
            s = R.choice(SEEDS)
            bg = r.call("construct", p.make, s)
            o = r.seeded(bg, p, q_int(s), cfg(p))
            r.get(o)
            r.draw(o, R.choice(["raw", "n64", "dbl", "n32"]), 40)
            r.get(o)
    return f


def g_tasks(prop, tier, seed, out):
    deep = tier == "thorough"
    ts = []
    for name, p in P.items():
        if p.g not in G[prop]:
            continue
        b = shape(p)[0]
        big = p.g in BIG
        nc = (6 if big else 16) * (8 if deep else 1)
        draws = 12 if big else min(2 * b + 4, 28)
        for j in range(2 if big else 3):
            ts.append(Task(f"corner-{name}-{j}", t_corner(p, nc // (2 if big else 3) + 1, draws), 20 if big else 6))
        if big:
            blocks = {"hc": 140, "mt": 5, "mt64": 4, "sfmt": 4, "dsfmt": 4}[p.g]
            if deep:
                blocks *= 6
            ts.append(Task(f"long-{name}", t_long(p, blocks, 20 + seed), 12))
        else:
            ts.append(Task(f"long-{name}", t_long(p, (4000 if deep else 400) // b, 20 + seed), 5))
    for j in range(8 if deep else 2):
        ts.append(Task(f"config-{j}", t_random_config(prop, 20 if deep else 8), 4))
    return ts


def t_walk(prof, walk, every=None, corner=False, paths=("ctypes",)):
    def f(r, R):
        w = Walker(r, prof, R, everyn(prof) if every is None else every, paths)
        if corner and not w.extra:
            r.set(w.ids[1], corners.randomise(prof, r.bg(w.ids[1]), R, consistent=prof.g in BLOCKS))
        w.run(walk)
    return f


def some_draws(r, o, prof, R, n):
    for _ in range(n):
        r.draw(o, R.choice(["raw", "n64", "dbl", "n32", "n32"]), R.choice([1, 1, 2, 3]))


def corner_object(r, prof, R, moves=False):
    """an object in a state at an edge; moves: one whose buffer is the block its counter names, part of it used
    (what an advance within a block makes of any other buffer is left open)"""
    bg = r.call("construct", prof.make, R.choice(SEEDS))
    o = r.new(bg, prof)
    if R.randrange(4):
        st = corners.randomise(prof, bg, R, consistent=moves and prof.g in BLOCKS or prof.g in BIG and R.randrange(2) == 0)
        if prof.g == "lxm":
            st["state"]["b"] = bg.state["state"]["b"]        # the addend is configuration: re-seeding keeps it
        r.set(o, st)
        if moves and prof.g in BLOCKS and R.randrange(3):
            r.draw(o, "raw", R.randrange(1, 2 * shape(prof)[0]))
    else:
        some_draws(r, o, prof, R, R.randrange(4))
    return o


# the public routes by which a state is read and assigned
SAVE = ["state", "state", "ext", "ext-getstate", "reduce"]
RESTORE = ["state", "state", "ext", "ext-setstate", "setstate", "setstate-pair"]


def t_restore(prof, n):
    """from a state at an edge: save, go on, restore into another instance with a history"""
    def f(r, R):
        for _ in range(n):
            o = corner_object(r, prof, R)
            some_draws(r, o, prof, R, R.randrange(4))
            r.save(o, 1, R.choice(SAVE))
            o2 = corner_object(r, prof, R)
            some_draws(r, o2, prof, R, 1 + R.randrange(3))
            r.restore(o2, 1, R.choice(RESTORE))
            r.get(o2)
            some_draws(r, o, prof, R, 3)
            r.reread(1)
            some_draws(r, o2, prof, R, 6)
            r.get(o2)
            r.restore(o, 1, R.choice(RESTORE))
            some_draws(r, o, prof, R, 6)
            r.get(o)
            r.save(o, 2, R.choice(SAVE))
            r.restore(o, 2, R.choice(RESTORE))
            some_draws(r, o, prof, R, 2)
            r.get(o)
    return f


def t_copies(prof, n):
    """from a state at an edge: copies of every kind, the original and the copies going on"""
    def f(r, R):
        for _ in range(n):
            o = corner_object(r, prof, R, True)
            some_draws(r, o, prof, R, R.randrange(4))
            cs = []
            ks = ["pickle", "copy", "deepcopy", "ext-pickle", "ext-copy", "ext-deepcopy"] + ([] if prof.kw and prof.name not in ("Philox4x64", "ThreeFry4x64") else ["named", "ext-named"])
            R.shuffle(ks)
            for k in ks[:3] if prof.g in BIG else ks:
                c = r.copy(o, k, protocol=R.choice([0, 1, 2, 3, 4, 5] + ([] if "named" in k else [None])))
                r.get(c)
                cs.append(c)
                some_draws(r, o, prof, R, 2)
                if k.startswith("ext-"):
                    r.via_ext(c, R.choice(["n64", "n32", "dbl"]), R.choice([1, 2]))
                    some_draws(r, c, prof, R, 1)
                    r.get(o)
            r.get(o)
            for c in cs:
                some_draws(r, c, prof, R, 5)
                r.get(c)
            c = R.choice(cs)
            if can_advance(prof):
                r.adv(c, R.randrange(1, 40))
                r.get(c)
                some_draws(r, c, prof, R, 1)
            if prof.g in JUMP_SPEC and can_jump(prof):
                r.jump(c, 1)
                r.get(c)
                some_draws(r, c, prof, R, 1)
            if prof.g not in BIG:
                s = R.choice(SEEDS)
                r.call("seed", r.bg(c).seed, s)
                r.seeded(r.bg(c), prof, q_int(s), cfg(prof), c)
                r.get(c)
            some_draws(r, o, prof, R, 3)
            r.get(o)
    return f


def default_of(prof):
    kw = {"number": 4, "width": 64} if prof.g in ("cb64", "cb32") else {}
    return next(p for p in P.values() if p.cls is prof.cls and p.kw == kw)


def child_alts(prof):
    """the configurations a spawned child may have: the parent's or the class's own"""
    ps = [default_of(prof), prof]
    return [(p, cfg(p)) for p in ps]


def t_spawn(prof, n):
    """children spawned by an object, its copies and its jumped successor, between other operations"""
    def f(r, R):
        for _ in range(n):
            s, ss = S.seq_of(R, prof.g)
            if isinstance(ss, S.Own):
                s = ss = S.NS(S.big(R))
            n0 = 0
            if not isinstance(s, int) and hasattr(s, "spawn") and R.randrange(2):
                n0 = R.choice([1, 3])
                s.spawn(n0)
            bg = r.call("construct", prof.make, s)
            o = r.seeded(bg, prof, q_of(ss), cfg(prof), n=n0)
            live = [o]
            if not isinstance(s, int) and hasattr(s, "spawn") and R.randrange(3) == 0:
                live.append(r.seeded(r.call("construct", prof.make, s), prof, q_of(ss), cfg(prof), share=o))
            for _ in range(8):
                o = R.choice(live)
                k = R.randrange(12)
                if k < 5:
                    m = R.choice([0, 1, 1, 2])
                    via = None
                    if k == 0:
                        via = np.random.Generator(r.bg(o))
                    for c in r.spawn(o, m, child_alts, via):
                        if R.randrange(2):
                            some_draws(r, c, r.prof(c), R, 2)
                    r.get(o)
                elif k < 9 and len(live) < 5:
                    live.append(r.copy(o, R.choice(["pickle", "copy", "deepcopy", "ext-pickle", "ext-copy", "ext-deepcopy"])))
                elif k == 9:
                    t = R.choice(SEEDS)
                    r.call("seed", r.bg(o).seed, t)
                    r.seeded(r.bg(o), prof, q_int(t), cfg(prof), o)
                elif k == 10:
                    r.save(o, 1)
                    r.restore(R.choice(live), 1)
                elif prof.g in JUMP_SPEC and hasattr(prof.cls, "jumped") and len(live) < 5:
                    live.append(r.jumped(o, 1))
                some_draws(r, o, prof, R, 1)
    return f


def with_corners(base, mk, quick, thorough):
    def f(prop, tier, seed, out):
        ts = base(prop, tier, seed, out)
        n = thorough if tier == "thorough" else quick
        for name, p in P.items():
            k = max(2, n // 4) if p.g in BIG else n
            parts = 2 if tier == "thorough" or p.g in BIG else 1
            for j in range(parts):
                ts.append(Task(f"edge-{name}-{j}", mk(p, k // parts), 8 if p.g in BIG else 2))
        return ts
    return f


def wcost(prof, n):
    return n * (0.02 + (0.2 if prof.g in BIG else 0.03))


def v_tasks(prop, tier, seed, out):
    sch = Sched(out)
    ts = []
    for name, p in P.items():
        t = sch.tour("views", p)
        ts.append(Task(f"tour-{name}", t_walk(p, t), wcost(p, len(t))))
        ws = sch.walks("views", p)
        n = 12 if tier == "thorough" else 2
        for j, w in enumerate(ws[:n]):
            ts.append(Task(f"walk-{name}-{j}", t_walk(p, w, corner=j % 2 == 0), wcost(p, len(w))))
    return ts


def usable(prof, walk):
    """the walk without the operations the family does not offer, and without uses of
    objects that therefore never come to be"""
    out, live, saved = [], {1}, set()
    for op in walk:
        k, i = op[0], op[1]
        if k == "new":
            live.add(i)
        elif i not in live:
            continue
        elif k == "adv" and not can_advance(prof):
            continue
        elif k in ("jump", "jumped") and (prof.g not in JUMP_SPEC or k not in MV.kinds(prof)):
            continue
        elif k in ("copy", "deepcopy", "pickle", "jumped"):
            live.add(op[2])
        elif k == "save":
            saved.add(op[2])
        elif k == "restore" and op[2] not in saved:
            continue
        out.append(op)
    return out


def multi(kind, quick, thorough):
    def mk(prop, tier, seed, out):
        sch = Sched(out)
        ts = []
        for name, p in P.items():
            n = thorough if tier == "thorough" else quick
            k = 0
            ws = sch.walks(kind, p)
            off = sum(map(ord, name)) % max(1, len(ws))
            for w in ws[off:] + ws[:off]:
                w = usable(p, w)
                ts.append(Task(f"walk-{name}-{k}", t_walk(p, w), wcost(p, len(w))))
                k += 1
                if k == n:
                    break
        return ts
    return mk


def arrays_in(x):
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, dict):
        for v in x.values():
            yield from arrays_in(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from arrays_in(v)


def scribble(x, R):
    """overwrite everything that can be overwritten in a state, and the entries of its dictionaries"""
    for a in arrays_in(x):
        if a.flags.writeable and a.size:
            a[...] = R.choice([0, 1, 7])
    if isinstance(x, dict):
        for k, v in list(x.items()):
            if isinstance(v, dict):
                scribble(v, R)
                if R.randrange(2):
                    v.clear()
            elif isinstance(v, int) and R.randrange(2):
                x[k] = v ^ 1


def t_bystand(prof, n):
    """several related objects, one operation on one of them, then all of them are read back;
    dictionaries and arrays that went in or came out are overwritten"""
    def f(r, R):
        ks = MV.kinds(prof)
        for _ in range(n):
            o = corner_object(r, prof, R, True)
            some_draws(r, o, prof, R, R.randrange(4))
            if R.randrange(3):
                r.draw(o, "n32", 1)
            os = [o, r.copy(o, R.choice(["copy", "deepcopy", "pickle"]))]
            if R.randrange(2):
                os.append(corner_object(r, prof, R, True))
            for _ in range(2 if prof.g in BIG else 5):
                i = R.choice(os)
                bg = r.bg(i)
                k = R.choice(["draw", "draw", "get", "set", "seed", "jumped", "jumped", "jump", "adv", "bulk", "ext", "spawn", "lock", "raw", "copy"])
                if k == "draw":
                    some_draws(r, i, prof, R, R.randrange(1, 4))
                elif k == "get":
                    scribble(r.call("state", lambda: bg.state), R)
                elif k == "set":
                    j = R.choice(os)
                    st = r.call("state", lambda: r.bg(j).state)
                    r.call("state=", lambda: setattr(bg, "state", st))
                    r.add(op="copy", o=i, src=j, kind="state")
                    scribble(st, R)
                elif k == "seed":
                    s, a = R.choice(SEEDS), None
                    if R.randrange(2):
                        a = np.array([s & (2**32 - 1), s >> 32 & (2**32 - 1), R.getrandbits(32)], dtype=np.uint32)
                    r.call("seed", bg.seed, s if a is None else a)
                    q = q_int(s if a is None else [int(x) for x in a])
                    r.seeded(bg, prof, q, cfg(prof), i)
                    if a is not None:
                        a[:] = 5
                elif k == "jumped" and k in ks:
                    m = R.choice([1, 2, 3])
                    if prof.g in MV.RING:
                        b2 = r.call("jumped", bg.jumped, m)
                        os.append(r.new(b2, prof))
                    else:
                        os.append(r.jumped(i, m))
                elif k == "jump" and k in ks:
                    if prof.g in MV.RING:
                        r.call("jump", bg.jump, 1)
                        r.add(op="new", o=i, **r.norm(bg, prof))
                    else:
                        r.jump(i, R.choice([1, 2]))
                elif k == "adv" and can_advance(prof):
                    r.adv(i, R.choice([0, 1, 3, 17, 2**33]), *((False,) if prof.g in ("cb64", "cb32") else ()))
                elif k == "bulk":
                    eg = rg.ExtendedGenerator(bg)
                    m = R.randrange(1, 9)
                    xs = r.call("uintegers", eg.uintegers, m, bits=64)
                    r.got(i, "n64", [int(x) for x in xs])
                    xs[:] = 0
                elif k == "ext":
                    eg = rg.ExtendedGenerator(bg)
                    st = r.call("state", lambda: eg.state)
                    r.call("state=", lambda: setattr(eg, "state", st))
                    scribble(st, R)
                elif k == "spawn" and not isinstance(bg.seed_seq, type(None)):
                    r.call("spawn", bg.spawn, 2)
                elif k == "lock":
                    if len({id(r.bg(x).lock) for x in os}) != len(os):
                        r.add(op="error", what="lock", exc="shared by two objects")
                        raise SegAbort("lock")
                elif k == "raw":
                    xs = r.call("random_raw", bg.random_raw, 3)
                    r.got(i, "raw", [int(x) for x in xs])
                    xs[:] = 0
                elif k == "copy":
                    os.append(r.copy(i, R.choice(["copy", "deepcopy", "pickle"])))
                for x in (os if prof.g not in BIG else [R.choice(os), i]):
                    r.get(x)
                if len(os) > 5:
                    os = os[-4:]
            for x in os:
                r.draw(x, "n32", 1)
                r.get(x)
    return f


def i01_tasks(prop, tier, seed, out):
    ts = multi("all", 8, 40)(prop, tier, seed, out)
    deep = tier == "thorough"
    for name, p in P.items():
        big = p.g in BIG
        for j in range(24 if deep else 4):
            ts.append(Task(f"others-{name}-{j}", t_bystand(p, 3 if big else 8), 10 if big else 3))
    return ts


def d01_tasks(prop, tier, seed, out):
    ts = []
    deep = tier == "thorough"
    for name, p in P.items():
        heavy = p.g in BIG
        n = (4 if heavy else 10) * (8 if deep else 1)
        parts = (2 if heavy else 1) * (4 if deep else 1)
        for j in range(parts):
            ts.append(Task(f"seed-{name}-{j}", S.t_seeding(p, max(1, n // parts), some_draws, corner_object), 14 if heavy else 4))
    return ts


def d02_tasks(prop, tier, seed, out):
    n = 80 if tier == "thorough" else 12
    return [Task(f"hash-{j}", S.t_hash(30), 4, "SeedTrace") for j in range(n)] + [Task("large", S.t_large(2000), 8, "SeedTrace")]


def d03_tasks(prop, tier, seed, out):
    ws = S.walks(out, "tree")
    ts = [Task(f"tree-{j}", S.t_tree(w), 2, "SeedTrace") for j, w in enumerate(ws)]
    return ts + [Task(f"threads-{j}", S.t_threads(5), 1, "SeedTrace") for j in range(32 if tier == "thorough" else 8)]


def j01_tasks(prop, tier, seed, out):
    sch = Sched(out)
    deep = tier == "thorough"
    ts = []
    for name, p in P.items():
        if not can_advance(p):
            continue
        t = sch.tour("moves", p)
        ts.append(Task(f"tour-{name}", t_walk(p, t), wcost(p, len(t))))
        for j, w in enumerate(sch.walks("moves", p)[:(10 if deep else 1)]):
            ts.append(Task(f"walk-{name}-{j}", t_walk(p, usable(p, w), corner=j % 2 == 0), wcost(p, len(w))))
        for j in range(6 if deep else 1):
            ts.append(Task(f"far-{name}-{j}", MV.t_advance(p, 40 if deep else 16, some_draws, corner_object), 3))
            ts.append(Task(f"sum-{name}-{j}", MV.t_additive(p, 20 if deep else 6, some_draws, corner_object), 2))
    return ts


def j02_tasks(prop, tier, seed, out):
    sch = Sched(out)
    deep = tier == "thorough"
    ts = [Task("mt19937-words-after-jump", MV.t_mt_stream, 8, "RingTrace")]
    for name, p in P.items():
        if not MV.kinds(p):
            continue
        if p.g in MV.RING:
            for j in range(6 if deep else 2):
                ts.append(Task(f"ring-{name}-{j}", MV.t_ring(p, 3 if deep else 2, 24 if deep else 8, [1, 1, 16, 256, 4096, 65536], some_draws, corner_object), 12, "RingTrace"))
            ts.append(Task(f"sum-{name}", MV.t_ring_add(p, 2 if deep else 1, [1, 1, 16, 1, 256] + ([16, 4096, 65536, 1] if deep else []), 4), 12, "RingTrace"))
            if deep:
                ts.append(Task(f"full-{name}", MV.t_ring(p, 1, 1000, [1], some_draws, corner_object), 60, "RingTrace"))
            continue
        heavy = p.g in ("xo512", "xs1024")
        n = (30 if deep else 8) // (3 if heavy else 1)
        for j in range(4 if deep else 1):
            ts.append(Task(f"jump-{name}-{j}", MV.t_jump(p, n, some_draws, corner_object), 8 if heavy else 4))
        if p.g in JUMP_SPEC and can_jump(p):
            for j, w in enumerate(sch.walks("jumps", p)[:(8 if deep else 1)]):
                ts.append(Task(f"walk-{name}-{j}", t_walk(p, usable(p, w), corner=j % 2 == 0), wcost(p, len(w)) + 2))
    return ts


def k01_tasks(prop, tier, seed, out):
    deep = tier == "thorough"
    ts = []
    for name, p in P.items():
        if p.g not in KT.KEYED:
            continue
        heavy = p.g in BIG
        for j in range(6 if deep else 2 if heavy else 1):
            ts.append(Task(f"key-{name}-{j}", KT.t_keys(p, (6 if heavy else 30) * (2 if deep else 1), some_draws, corner_object), 12 if heavy else 4))
            ts.append(Task(f"misfit-{name}-{j}", KT.t_misfit(p, 60), 1))
            if p.g != "hc":
                ts.append(Task(f"counter-{name}-{j}", KT.t_counter_with_seed(p, 14, some_draws), 3))
    return ts


def k02_tasks(prop, tier, seed, out):
    deep = tier == "thorough"
    ts = [Task("squares-key-zero-digit", KT.t_zero_digit, 1, "KeyTrace")]
    ts += [Task(f"keys-{j}", KT.t_batches(12), 4, "KeyTrace") for j in range(80 if deep else 12)]
    return ts + [Task(f"weyl-{j}", KT.t_weyl(10, some_draws, corner_object), 4, "KeyTrace") for j in range(60 if deep else 10)]


def c01_tasks(prop, tier, seed, out):
    sch = Sched(out)
    deep = tier == "thorough"
    ts = [Task(f"variant-change-{a}", AC.t_variant(a, b), 1) for a, b in AC.VARIANTS]
    for name, p in P.items():
        for j, w in enumerate(sch.walks("paths", p)[:(24 if deep else 10)]):
            w = usable(p, w)
            ts.append(Task(f"walk-{name}-{j}", AC.t_paths(p, w, everyn(p), j % 2 == 0), wcost(p, len(w))))
        ts.append(Task(f"raw-{name}", AC.t_raw_sizes(p, 60 if deep else 12), 2))
    return ts


def x01_tasks(prop, tier, seed, out):
    sch = Sched(out)
    deep = tier == "thorough"
    ts = []
    for name, p in P.items():
        for j, w in enumerate(sch.walks("bulk", p)[:(24 if deep else 2)]):
            ts.append(Task(f"walk-{name}-{j}", AC.t_bulk_walk(p, usable(p, w), everyn(p)), wcost(p, len(w))))
        for j in range(6 if deep else 1):
            ts.append(Task(f"bulk-{name}-{j}", AC.t_bulk(p, 60 if deep else 24, 300 if deep else 60), 3))
        ts.append(Task(f"large-{name}", AC.t_large(p, [1000, 4096, 10000, 65536] + ([300000] if deep else [])), 0.3))
    return ts


def p01_tasks(prop, tier, seed, out):
    sch = Sched(out)
    deep = tier == "thorough"
    ts = []
    for name, p in P.items():
        if p.cls not in AC.TOGGLE:
            continue
        for j, w in enumerate(sch.walks("toggle", p)[:(120 if deep else 30)]):
            w = usable(p, w)
            ts.append(Task(f"walk-{name}-{j}", AC.t_toggle(p, w, 2, j % 2 == 0), wcost(p, len(w))))
        for j in range(24 if deep else 10):
            ts.append(Task(f"blocks-{name}-{j}", AC.t_toggle_blocks(p, 20 if deep else 6), 3))
    return ts


# families whose code depends on the target the library is built for
PORTABLE = ("AESCounter", "ChaCha", "SPECK128", "SFMT", "DSFMT", "PCG64", "PCG64DXSM", "LCG128Mix", "Philox")


def p02_tasks(prop, tier, seed, out):
    sch = Sched(out)
    deep = tier == "thorough"
    ts = []
    for name, p in P.items():
        big = p.g in BIG
        k = (8 if deep else 2) if p.cls.__name__ in PORTABLE else (4 if deep else 1)
        b = shape(p)[0]
        for j in range(k):
            ts.append(Task(f"corner-{name}-{j}", t_corner(p, 3 if big else 6, 12 if big else min(2 * b + 4, 28)), 16 if big else 4))
            ts.append(Task(f"seed-{name}-{j}", S.t_seeding(p, 1 if big else 3, some_draws, corner_object), 8 if big else 3))
            ts.append(Task(f"edge-{name}-{j}", t_restore(p, 4 if big else 10), 8 if big else 2))
            if can_advance(p):
                ts.append(Task(f"far-{name}-{j}", MV.t_advance(p, 12, some_draws, corner_object), 3))
            if p.cls.__name__ in PORTABLE and MV.kinds(p):
                if p.g in MV.RING:
                    ts.append(Task(f"ring-{name}-{j}", MV.t_ring(p, 2, 8, [1, 1, 16, 256, 4096, 65536], some_draws, corner_object), 12, "RingTrace"))
                else:
                    ts.append(Task(f"jump-{name}-{j}", MV.t_jump(p, 6, some_draws, corner_object), 4))
        blocks = {"hc": 40, "mt": 2, "mt64": 2, "sfmt": 3, "dsfmt": 3}.get(p.g)
        ts.append(Task(f"long-{name}", t_long(p, blocks or 400 // b, 20 + seed), 8 if big else 4))
        if p.cls.__name__ in PORTABLE:
            for j, w in enumerate(sch.walks("all", p)[:(20 if deep else 3)]):
                ts.append(Task(f"walk-{name}-{j}", t_walk(p, usable(p, w)), wcost(p, len(w))))
    for g in ("G01", "G03"):
        for j in range(8 if deep else 2):
            ts.append(Task(f"config-{g}-{j}", t_random_config(g, 20 if deep else 8), 4))
    return ts


def u01_tasks(prop, tier, seed, out):
    deep = tier == "thorough"
    ts = [Task("refused", UT.t_user_bad, 1, "UserTrace")]
    for b, g, k in UT.CONFIGS:
        for j in range(24 if deep else 3):
            ts.append(Task(f"{k}-{b}-{'-'.join(g)}-{j}", UT.t_user(b, g, k, 60), 1, "UserTrace"))
    return ts


def e01_tasks(prop, tier, seed, out):
    deep = tier == "thorough"
    ts = []
    for name, p in P.items():
        big = p.g in BIG
        for j in range(60 if deep else 3):
            ts.append(Task(f"states-{name}-{j}", RF.t_states(p, 24 if big else 60, some_draws), 12 if big else 2))
            ts.append(Task(f"draws-{name}-{j}", RF.t_draws(p, 8 if big else 30, some_draws), 4 if big else 1))
            ts.append(Task(f"seeds-{name}-{j}", RF.t_seeds(p, 8 if big else 30, some_draws), 4 if big else 1))
    return ts


def l01_tasks(prop, tier, seed, out):
    deep = tier == "thorough"
    ts = [Task(f"walk-{i}", LT.t_walk(w), 0.3, "LockTrace") for i, w in enumerate(LT.walks(out))]
    ts += [Task(f"each-{j}", LT.t_each(), 1, "LockTrace") for j in range(20 if deep else 4)]
    for name, p in P.items():
        big = p.g in BIG
        for j in range(20 if deep else 1):
            ts.append(Task(f"between-{name}-{j}", LT.t_between(p, 10 if big else 25), 3 if big else 1))
            ts.append(Task(f"threads-{name}-{j}", LT.t_threads(p, 4, 6 if big else 12), 4 if big else 1.5, "ThreadTrace"))
            if not big or deep:
                ts.append(Task(f"blocks-{name}-{j}", LT.t_blocks(p, 8 if j % 2 else 4, 4, 50000 if deep else 20000), 0.2, "ThreadTrace"))
    return ts


def l02_tasks(prop, tier, seed, out):
    deep = tier == "thorough"
    ts = [Task(f"walk-{i}", LT.t_walk(w), 0.3, "LockTrace") for i, w in enumerate(LT.walks(out))]
    ts += [Task(f"each-{j}", LT.t_each(), 1, "LockTrace") for j in range(20 if deep else 4)]
    for name, p in P.items():
        for j in range(20 if deep else 1):
            ts.append(Task(f"watch-{name}-{j}", LT.t_watch(p, 60), 0.3, "LockTrace"))
    for j in range(20 if deep else 3):
        ts.append(Task(f"rdrand-{j}", LT.t_rdrand(40), 0.2, "LockTrace"))
    return ts


def x02_tasks(prop, tier, seed, out):
    k = 3000 if tier == "thorough" else 50
    return [Task(f"misfit-{j}", MT.t_misfit(60), 0.5, "MatTrace") for j in range(k // 6)] + \
        [Task(f"{w}-{j}", MT.t_shapes(w, 10), 1.0, "MatTrace") for w in ("mvn", "cn", "mcn", "wish", "sw") for j in range(k)]


def x03_tasks(prop, tier, seed, out):
    k = 3000 if tier == "thorough" else 50
    ts = [Task(f"{w}-{j}", MT.t_values(w, 12), 1.0, "MatTrace") for w in ("mvn", "cn", "mcn", "wish", "rank") for j in range(k)]
    return ts + [Task(f"valid-{j}", MT.t_valid(40), 0.5, "MatTrace") for j in range(k // 4)] + \
        [Task(f"validc-{j}", MT.t_validc(40), 0.5, "MatTrace") for j in range(k // 4)]


def f01_tasks(prop, tier, seed, out):
    k = 1000 if tier == "thorough" else 24
    return [Task(f"cpu-{j}", RD.t_rd(40), 1.0, "RdTrace") for j in range(k)] + [Task(f"place-{j}", RD.t_single(8), 1.0, "RdTrace") for j in range(k)]


def r02_tasks(prop, tier, seed, out):
    ts = with_corners(multi("copy", 8, 40), t_copies, 20, 100)(prop, tier, seed, out)
    deep = tier == "thorough"
    for name, p in P.items():
        for j in range(12 if deep else 1):
            ts.append(Task(f"spawn-{name}-{j}", t_spawn(p, 2 if p.g in BIG else 6), 6 if p.g in BIG else 2))
    return ts


def s01_tasks(prop, tier, seed, out):
    k = 600 if tier == "thorough" else 16
    return [Task(f"source-{j}", ET.t_entropy(60), 1.0, "EntTrace") for j in range(k)] + [Task(f"split-{j}", ET.t_split(60), 1.0, "EntTrace") for j in range(k)]


REG = {"S01": s01_tasks, "F01": f01_tasks, "X02": x02_tasks, "X03": x03_tasks, "L01": l01_tasks, "L02": l02_tasks, "E01": e01_tasks, "U01": u01_tasks, "C01": c01_tasks, "X01": x01_tasks, "P01": p01_tasks, "P02": p02_tasks, "K01": k01_tasks, "K02": k02_tasks, "J01": j01_tasks, "J02": j02_tasks, "D01": d01_tasks, "D02": d02_tasks, "D03": d03_tasks,
       "G01": g_tasks, "G02": g_tasks, "G03": g_tasks, "V01": v_tasks,
       "R01": with_corners(multi("state", 8, 40), t_restore, 24, 120),
       "R02": r02_tasks, "I01": i01_tasks}


def tasks(prop, tier, seed, out):
    return REG[prop](prop, tier, seed, out)
