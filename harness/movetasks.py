"""Recording for advance and jump (J01, J02)."""
import numpy as np
import randomgen as rg

import corners
from profiles import P, w32
from rec import SegAbort
from shapes import SEEDS, shape, can_advance, can_jump, JUMP_SPEC

RING = {"mt": 624, "sfmt": 156, "dsfmt": 191}


def period(prof):
    g = prof.g
    if g in ("pcg32", "sq64", "sq32"):
        return 2**64
    if g == "lcg128":
        return 2**128
    if g == "bc":
        return 2**129
    n, w = prof.kw["number"], prof.kw["width"]
    return n * 2**(n * w)


def delta(prof, R):
    """distances at every scale: within a block, around carries of each word, the ends of the period, beyond it, backwards"""
    per = period(prof)
    b = shape(prof)[0]
    k = R.randrange(10)
    if k < 3:
        d = R.randrange(0, 3 * b + 2)
    elif k == 3:
        d = 2**R.randrange(1, per.bit_length()) + R.randrange(-3, 4)
    elif k == 4:
        d = per - R.randrange(1, 3 * b)
    elif k == 5:
        d = per + R.randrange(0, 3 * b)
    elif k == 6:
        d = R.choice([2, 3, -2, -5]) * per + R.randrange(-40, 40)
    elif k == 7:
        d = -R.randrange(1, 3 * b)
    elif k == 8:
        d = -R.getrandbits(per.bit_length())
    else:
        d = R.getrandbits(R.randrange(1, per.bit_length() + 6))
    if prof.g in ("sq64", "sq32"):      # takes distances in [0, 2**64) only
        d %= 2**64
    return d


def t_advance(prof, n, some_draws, corner_object):
    def f(r, R):
        for _ in range(n):
            o = corner_object(r, prof, R, True)
            some_draws(r, o, prof, R, R.randrange(4))
            for _ in range(R.choice([1, 1, 2, 4])):
                d = delta(prof, R)
                if prof.g in ("cb64", "cb32"):
                    r.adv(o, d, R.choice([True, False, False, False, None]))
                else:
                    r.adv(o, d)
                r.get(o)
            some_draws(r, o, prof, R, 2 + shape(prof)[0] // 4)
            r.get(o)
    return f


def t_additive(prof, n, some_draws, corner_object):
    """the same distance at once, in parts, there and back: all end in the same stream"""
    def f(r, R):
        ctr = (False,) if prof.g in ("cb64", "cb32") else ()
        for _ in range(n):
            o = corner_object(r, prof, R, True)
            some_draws(r, o, prof, R, R.randrange(3))
            a, b = delta(prof, R), delta(prof, R)
            p = r.copy(o, "copy")
            q = r.copy(o, "pickle")
            r.adv(o, (a + b) % 2**64 if prof.g in ("sq64", "sq32") else a + b, *ctr)
            r.adv(p, a, *ctr)
            r.adv(p, b, *ctr)
            if prof.g not in ("sq64", "sq32"):
                r.adv(q, a, *ctr)
                r.adv(q, -a, *ctr)
            for x in (o, p, q):
                some_draws(r, x, prof, R, 3)
                r.get(x)
    return f


def kinds(prof):
    ks = []
    if hasattr(prof.cls, "jumped"):
        ks.append("jumped")
    if can_jump(prof):
        ks.append("jump")
    return ks


def t_jump(prof, n, some_draws, corner_object):
    def f(r, R):
        for _ in range(n):
            o = corner_object(r, prof, R)
            some_draws(r, o, prof, R, R.randrange(4))
            cheap = prof.g in ("pcg32", "lcg128", "sq64", "sq32", "cb64", "cb32", "bc")
            for _ in range(R.choice([1, 2])):
                k = R.choice(kinds(prof))
                m = R.choice([1, 1, 2, 3, 5] + ([17, 40] if cheap else []))
                if cheap and R.randrange(3) == 0:       # counts of every size (Squares counts them off one at a time)
                    m = R.getrandbits(R.randrange(7, 20 if prof.g in ("sq64", "sq32") else 62)) + 65
                elif prof.g in ("xo256", "xorop", "xoropp", "lxm") and R.randrange(10) == 0:
                    m = R.choice([16, 17, 33])
                if k == "jump":
                    r.jump(o, m)
                    r.get(o)
                else:
                    p = r.jumped(o, m)
                    r.get(o)
                    r.get(p)
                    some_draws(r, p, prof, R, 2)
                    some_draws(r, o, prof, R, 1)
                    r.get(o)
                    if R.randrange(2):
                        o = p
            some_draws(r, o, prof, R, 2 + shape(prof)[0] // 6)
            r.get(o)
            if R.randrange(2):      # what a re-seed or a copy of a jumped generator does
                p = r.copy(r.jumped(o, 1) if "jumped" in kinds(prof) else o, R.choice(["copy", "pickle"]))
                some_draws(r, p, prof, R, 2)
                r.get(p)
    return f


def positions(g, R, k):
    n = RING[g]
    edge = {"mt": [0, 1, 226, 227, 396, 397, 622, 623], "sfmt": [0, 1, 33, 34, 121, 122, 154, 155], "dsfmt": [0, 73, 74, 116, 117, 190]}[g]
    if k >= n:
        return list(range(n))
    return sorted(set(R.sample(edge, min(len(edge), max(2, k // 3))) + R.sample(range(n), k)))


def ring_event(r, o, src, prof, bg, n, at):
    r.add(op="rjump", o=o, src=src, n=n, at=at, **r.norm(bg, prof))


def ring_object(r, prof, R):
    bg = r.call("construct", prof.make, R.choice(SEEDS))
    o = r.new(bg, prof)
    return o


def t_ring(prof, n, k, counts, some_draws, corner_object):
    """jumps of ring engines against the recurrence"""
    def f(r, R):
        for _ in range(n):
            o = corner_object(r, prof, R)
            if R.randrange(2):
                some_draws(r, o, prof, R, R.randrange(1, 4))
            r.add(op="root", o=o)
            c = R.choice(counts)
            bg = r.bg(o)
            if R.randrange(2):
                b2 = r.call("jumped", bg.jumped, c)
                o2 = r._id(b2, prof)
                ring_event(r, o2, o, prof, b2, c, positions(prof.g, R, k))
                r.get(o)
            else:
                r.call("jump", bg.jump, c)
                ring_event(r, o, o, prof, bg, c, positions(prof.g, R, k))
                o2 = o
            some_draws(r, o2, prof, R, 3)
            r.get(o2)
    return f


def t_ring_add(prof, n, steps, k):
    """jumped(a) then jumped(b) is jumped(a + b), for counts that the library decomposes"""
    def f(r, R):
        for _ in range(n):
            o = ring_object(r, prof, R)
            r.add(op="root", o=o)
            chain, total, cur = [(o, 0)], 0, o
            for c in steps:
                b2 = r.call("jumped", r.bg(cur).jumped, c)
                o2 = r._id(b2, prof)
                ring_event(r, o2, cur, prof, b2, c, positions(prof.g, R, k))
                total += c
                chain.append((o2, total))
                cur = o2
            for _ in range(min(8, len(chain) * 2)):
                (a, ta), (b, tb) = sorted(R.sample(chain, 2), key=lambda x: x[1])
                src = r.bg(a)
                b3 = r.call("jumped", src.jumped, tb - ta)
                o3 = r._id(b3, prof)
                r.add(op="rsame", o=o3, src=a, same=b, n=tb - ta, **r.norm(b3, prof))
                r.get(a)
    return f


def t_mt_stream(r, R):
    """what a jumped MT19937 returns (known finding)"""
    p = P["MT19937"]
    bg = r.call("construct", p.make, 12345)
    o = r.new(bg, p)
    xs = [int(x) for x in bg.jumped().random_raw(700)]
    at = [1, 20, 40, 300, 640, 699]
    r.add(op="rwords", src=o, at=at, out=[w32(xs[j]) for j in at])
