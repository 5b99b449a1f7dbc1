"""Block lengths of the engines, and how abstract walks of spec/BitGen.tla are carried
out on real generators."""
import json
import randomgen as rg
from profiles import P, HALF_CACHED
from seeds import cfg, q_int


def shape(prof):
    """(block length in native words, native words per 64-bit draw, keeps halves)"""
    g = prof.g
    if g in ("cb64", "cb32"):
        return prof.kw["number"], (1 if g == "cb64" else 2), g == "cb64"
    if g == "bc":
        return (8 if prof.cls is rg.AESCounter else 12), 1, True
    if g in ("chacha", "hc"):
        return 16, 2, False
    if g == "mt":
        return 624, 2, False
    if g in ("mt64", "sfmt"):
        return 312, 1, True
    if g == "dsfmt":
        return 382, 1, False
    if g == "xs1024":
        return 16, 1, True
    if g in HALF_CACHED:
        return 2, 1, True
    return 2, 2, False


BIG = {"mt", "mt64", "sfmt", "dsfmt", "hc"}
ABS = 6          # abstract block length of the long-block engines


def abstract(prof):
    b, w, half = shape(prof)
    return (ABS if prof.g in BIG else b), w, half


def can_advance(prof):
    return hasattr(prof.cls, "advance")


def can_jump(prof):
    return hasattr(prof.cls, "jump") and prof.name not in ("PCG64DXSM",)


# families whose jump is given by the specification as a function of the state
JUMP_SPEC = {"xo256", "xo512", "xorop", "xoropp", "xs1024", "lxm", "pcg32", "lcg128", "sq64", "sq32", "cb64", "cb32", "bc"}


def tour(edges, start):
    """a walk covering every edge: greedy, with shortest detours"""
    from collections import defaultdict, deque
    out = defaultdict(list)
    for f, op, t in edges:
        out[f].append((json.dumps(op), op, t))
    todo = {(f, k) for f in out for k, _, _ in out[f]}
    cur, walk = start, []
    while todo:
        nxt = next(((k, op, t) for k, op, t in out[cur] if (cur, k) in todo), None)
        if nxt is None:
            prev, dq, hit = {cur: None}, deque([cur]), None
            while dq and hit is None:
                s = dq.popleft()
                for k, op, t in out[s]:
                    if t not in prev:
                        prev[t] = (s, op)
                        if any((t, k2) in todo for k2, _, _ in out[t]):
                            hit = t
                            break
                        dq.append(t)
            if hit is None:
                break
            path = []
            s = hit
            while prev[s] is not None:
                path.append(prev[s][1])
                s = prev[s][0]
            walk += path[::-1]
            cur = hit
            continue
        k, op, t = nxt
        todo.discard((cur, k))
        walk.append(op)
        cur = t
    return walk


SEEDS = [0, 1, 12345, 2**32 - 1, 2**32, 2**64 - 1, 2**64 + 3, 987654321987654321, 2**128 - 1, 2**200 + 17]


class Walker:
    """carries out abstract operations on real objects.  Positions: abstract position j of
    a block of a long-block engine is the real position j (j <= 3) or j + (real - abstract);
    the words in between are skipped when an operation crosses from 3 to 4."""

    def __init__(self, rec, prof, R, get_every=1, paths=("ctypes",), seed=None):
        self.r, self.p, self.R = rec, prof, R
        self.b, self.w, self.keep = shape(prof)
        self.a = abstract(prof)[0]
        self.half = {1: False}
        self.shalf = {}
        self.extra = self.b - self.a
        self.rawn = 2 if self.w == 2 and prof.g not in ("pcg32", "jsf32", "cb32", "mt") else 1
        self.pos = {}
        self.spos = {}
        self.get_every = get_every
        self.n = 0
        self.paths = paths
        self.ids = {}
        bg = rec.call("construct", prof.make, R.choice(SEEDS) if seed is None else seed)
        self.ids[1] = rec.new(bg, prof)
        self.pos[1] = self.a
        self.seeds = 0

    def draw(self, o, v, n, path):
        self.r.draw(o, v, n, path)

    def moved(self, i, n):
        """object i consumed n words (abstractly)"""
        if self.extra:
            p = self.pos[i]
            for _ in range((p + n - 4) // self.a - (p - 4) // self.a):
                self.r.skip(self.ids[i], self.extra // self.rawn)
        self.pos[i] = (self.pos[i] + n - 1) % self.a + 1

    def do(self, op):
        r, R = self.r, self.R
        k, i = op[0], op[1]
        o = self.ids.get(i)
        path = R.choice(self.paths)
        if k in ("n32", "n64", "dbl", "raw"):
            self.draw(o, k, 1, path)
            n = self.rawn if k == "raw" else self.w
            if k == "n32":
                n = 0 if self.half[i] else 1
                self.half[i] = self.keep and not self.half[i]
            if n:
                self.moved(i, n)
        elif k == "bulk":
            n = op[2]
            if n:
                self.draw(o, "n64", n, path)
                self.moved(i, n * self.w)
        elif k == "adv":
            self.advance(i, o, op[2])
        elif k == "jump":
            r.jump(o, R.choice([1, 1, 2, 3]))
            self.pos[i], self.half[i] = self.a, False
        elif k == "seed":
            s = R.choice(SEEDS)
            r.call("seed", r.bg(o).seed, s)
            r.seeded(r.bg(o), self.p, q_int(s), cfg(self.p), o)
            self.pos[i], self.half[i] = self.a, False
        elif k == "get":
            r.get(o)
        elif k in ("copy", "deepcopy", "pickle"):
            j = op[2]
            self.ids[j] = r.copy(o, k, self.ids.get(j))
            self.pos[j], self.half[j] = self.pos[i], self.half[i]
        elif k == "jumped":
            j = op[2]
            self.ids[j] = r.jumped(o, R.choice([1, 1, 2, 3]), self.ids.get(j))
            self.pos[j], self.half[j] = self.a, False
        elif k == "new":
            bg = r.call("construct", self.p.make, R.choice(SEEDS))
            if o is None:
                self.ids[i] = r.new(bg, self.p)
            else:
                r.objs[o] = (bg, self.p)
                r.add(op="new", o=o, **r.norm(bg, self.p))
            self.pos[i], self.half[i] = self.a, False
        elif k == "save":
            r.save(o, op[2])
            self.spos[op[2]], self.shalf[op[2]] = self.pos[i], self.half[i]
        elif k == "restore":
            r.restore(o, op[2])
            self.pos[i], self.half[i] = self.spos[op[2]], self.shalf[op[2]]
        else:
            raise ValueError(op)
        self.n += 1
        if self.get_every and self.n % self.get_every == 0 and k not in ("get", "save"):
            tgt = self.ids[op[2]] if k in ("copy", "deepcopy", "pickle", "jumped") else self.ids[i]
            r.get(tgt)

    def advance(self, i, o, d):
        g = self.p.g
        if g in ("cb64", "cb32"):
            self.r.adv(o, d, False)
        else:
            self.r.adv(o, d)
        self.pos[i], self.half[i] = (self.pos[i] + d - 1) % self.a + 1, False

    def run(self, walk):
        for op in walk:
            self.do(op)
        for i, o in self.ids.items():
            self.r.get(o)
