"""Recording for explicit keys and counters (K01) and for generated keys (K02)."""
import numpy as np
import randomgen as rg
from randomgen.squares import generate_keys

import corners
import seedtasks as S
from profiles import P, w32, w64, w128, ws32, ws64
from rec import SegAbort
from seeds import cfg, cut, q_int
from shapes import SEEDS

KEYED = ("cb64", "cb32", "bc", "chacha", "sq64", "sq32", "hc")


def sizes(prof):
    """(bits of the key, bits of the counter)"""
    g = prof.g
    if g in ("cb64", "cb32"):
        n, w = prof.kw["number"], prof.kw["width"]
        return (n // 2 * w if prof.cls is rg.Philox else n * w), n * w
    if g == "bc":
        return (128 if prof.cls is rg.AESCounter else 256), 128
    if g == "chacha":
        return 256, 128
    if g == "hc":
        return 256, 0
    return 64, 64


def kcfg(prof, key, ctr):
    k = cfg(prof, counter=ctr)
    g = prof.g
    kb = sizes(prof)[0]
    if g in ("cb64", "cb32"):
        w = prof.kw["width"]
        k["key"] = cut(key, kb // w, w)
    elif g == "bc":
        k["key"] = cut(key, kb // 64, 64)
    elif g == "chacha":
        k["key"] = cut(key, 4, 64)
    elif g == "hc":
        k = {"key": cut(key, 8, 32)}
    else:
        k["key"] = w64(key)
    return k


def value(R, bits):
    if bits == 0:
        return 0
    k = R.randrange(5)
    if k == 0:
        return corners.counter_value(R, bits, 32 if bits == 32 else min(64, bits))
    if k == 1:
        return R.choice([0, 1, 2**bits - 1, 2**(bits - 1), 2**min(bits, 64) - 1, 2**(min(bits, 64) - 1) + 1])
    n = max(1, bits // 64)
    return sum(corners.word(R) << (64 * i) for i in range(n)) % 2**bits


def spell(x, bits, R):
    """an integer in one of its admissible spellings, as (argument, how)"""
    n = max(1, bits // 64)
    ws = [(x >> (64 * i)) & (2**64 - 1) for i in range(n)]
    short = ws[:max(1, (x.bit_length() + 63) // 64)]
    ways = [(x, "int"), (list(ws), "list"), (tuple(ws), "tuple"), (np.array(ws, dtype=np.uint64), "array"),
            (np.array([[w, 7] for w in ws], dtype=np.uint64)[:, 0], "strided"), (list(short), "short list"),
            (np.array(short, dtype=np.uint64), "short array"), (ws + [0], "long list"), ([np.uint64(w) for w in ws], "list of uint64"),
            ([ws[0]] + [np.uint64(w) for w in ws[1:]], "mixed list")]
    for t in (np.int64, np.uint64, np.int32, np.uint8):
        if x <= np.iinfo(t).max:
            ways.append((t(x), t.__name__))
    if x < 2**64:
        ways.append((np.array(x, dtype=np.uint64), "0-d array"))
    if x < 2**53:
        ways.append((float(x), "float"))
    if all(w < 2**31 for w in ws):
        ways.append((ws, "list of small"))
    return R.choice(ways)


def too_big(bits, R):
    n = max(1, bits // 64)
    ways = [2**bits, 2**bits + R.getrandbits(70), -1, -2**bits, -R.getrandbits(30) - 1, 1.5, 2.0**bits, float("nan"), float("inf"), -1.0, "five", "0x1z", [1] * (n + 1), [2**64] + [0] * (n - 1),
            [-1] + [0] * (n - 1), [0.5] + [0] * (n - 1), [2.0**64], np.array([1] * (n + 1), dtype=np.uint64), np.array([[1]], dtype=np.uint64)[:, :0], [[1, 2], [3, 4]],
            np.array([1.5]), 3j, object(), {"a": 1}]
    if bits == 32:
        ways = [w for w in ways if not (isinstance(w, list) and len(w) == 2 and w[1:] == [0])] + [2**32, [2**32]]
    return R.choice(ways)


def t_keys(prof, n, some_draws, corner_object):
    """an explicit key and counter, in any spelling, new and after a history"""
    def f(r, R):
        kb, cb = sizes(prof)
        sq = prof.g in ("sq64", "sq32")
        for _ in range(n):
            key, ctr = value(R, kb), value(R, cb)
            if sq:
                key |= 1
            sp = (lambda x, b: (x, "int")) if sq else (lambda x, b: spell(x, b, R))
            ka, how = sp(key, kb)
            kw = {"key": ka}
            if cb and R.randrange(4):
                kw["counter"], how2 = sp(ctr, cb)
            else:
                ctr = 0
            before = repr(kw)
            if R.randrange(2):
                bg = r.call(f"construct from {before}", prof.make, None, **kw)
                o = r.keyed(bg, prof, kcfg(prof, key, ctr))
            else:
                o = corner_object(r, prof, R)
                some_draws(r, o, prof, R, R.randrange(4))
                bg = r.bg(o)
                r.call(f"seed from {before}", lambda: bg.seed(**kw))
                r.keyed(bg, prof, kcfg(prof, key, ctr), o)
            if repr(kw) != before:
                r.add(op="error", what="argument modified", exc=before)
                raise SegAbort("modified")
            r.get(o)
            for a in kw.values():               # the caller reuses its arrays
                if isinstance(a, np.ndarray) and a.ndim:
                    a[:] = 3
            some_draws(r, o, prof, R, 3)
            r.get(o)
            # the same place reached through the state
            o2 = corner_object(r, prof, R)
            r.call("state=", lambda: setattr(r.bg(o2), "state", r.bg(o).state))
            r.add(op="copy", o=o2, src=o, kind="state")
            some_draws(r, o2, prof, R, 2)
    return f


def t_counter_with_seed(prof, n, some_draws):
    def f(r, R):
        kb, cb = sizes(prof)
        for _ in range(n):
            s, ss = S.seq_of(R, prof.g)
            ctr = value(R, cb)
            arg = ctr if prof.g in ("sq64", "sq32") else spell(ctr, cb, R)[0]
            if R.randrange(2):
                bg = r.call(f"construct with counter {arg!r}", prof.make, s, counter=arg)
            else:
                bg = r.call("construct", prof.make, 1)
                bg.random_raw(3)
                r.call(f"seed with counter {arg!r}", lambda: bg.seed(s, counter=arg))
            o = r.seeded(bg, prof, S.q_for(ss), cfg(prof, counter=ctr))
            r.get(o)
            some_draws(r, o, prof, R, 2)
    return f


def t_misfit(prof, n):
    """keys and counters that do not fit are rejected"""
    def f(r, R):
        kb, cb = sizes(prof)
        sq = prof.g in ("sq64", "sq32")
        good = r.call("construct", prof.make, 5)
        o = r.new(good, prof)
        for _ in range(n):
            if cb and R.randrange(2):
                bad = too_big(cb, R)
                kw = {"counter": bad}
                if R.randrange(2):
                    kw["key"] = 1
                else:
                    kw["seed"] = 3
            else:
                bad = too_big(kb, R)
                if sq and R.randrange(3) == 0:
                    bad = 2 * R.getrandbits(63)
                kw = {"key": bad}
            if sq and isinstance(list(kw.values())[0], np.ndarray):
                continue
            try:
                kk = dict(prof.kw)
                kk.update(kw)
                with np.errstate(all="ignore"):
                    prof.cls(**kk)
                r.add(op="accepted", what=repr(kw))
            except (ValueError, TypeError, OverflowError):
                r.add(op="refused")
        r.get(o)
    return f


# ---- K02
class Words(S.ISeedSequence):
    """64-bit words given by a function, with repetitions"""

    def __init__(self, R, n):
        self.w = []
        kind = R.randrange(4)
        chunk = [R.getrandbits(64) for _ in range(R.choice([3, 4, 5, 6]))]
        while kind < 2 and len(self.w) < n // 4:        # the same keys again
            self.w += chunk
        while len(self.w) < n:                          # rejected zeros use up the words of the first request
            self.w.append(0 if kind == 2 and R.randrange(16) else R.getrandbits(64))

    def generate_state(self, n_words, dtype=np.uint32):
        assert np.dtype(dtype) == np.uint64
        while len(self.w) < n_words:
            self.w.append(12345 + 0x9E3779B97F4A7C15 * len(self.w) % 2**64)
        return np.array(self.w[:n_words], dtype=np.uint64)


class Nosy(Words):
    """makes other keys while it is being asked, as another thread might in between"""

    def generate_state(self, n_words, dtype=np.uint32):
        out = Words.generate_state(self, n_words, dtype)
        if self.on:
            self.on = False
            if n_words % 3:
                generate_keys(n_words, 1 + n_words % 4)
            else:
                rg.Squares(n_words)
            self.on = True
        return out


def t_batches(n):
    def f(r, R):
        for _ in range(n):
            k = R.choice([1, 1, 2, 3, 5, 12, 30])
            unique = bool(R.randrange(2))
            if R.randrange(3):
                s = R.choice(SEEDS + [S.big(R)])
                q = q_int(s)
                if R.randrange(2):
                    s = rg.SeedSequence(s)
                many = 0
            else:
                s = (Words if R.randrange(2) else Nosy)(R, 80 * k + 400)
                s.on = False
                s.generate_state(80 * k + 400, np.uint64)
                q = {"raw": [x for w in s.w for x in (w32(w & 0xFFFFFFFF), w32(w >> 32))]}
            if isinstance(s, Nosy):
                s.on = True
            ks = r.call("generate_keys", lambda: generate_keys(s, k, unique))
            ok = isinstance(ks, np.ndarray) and ks.dtype == np.uint64 and ks.shape == (k,)
            r.add(op="keys", q=q, n=k if ok else -1, words=80 * k + 300, unique=unique, out=ws64(ks))
            r.draws += k
            for bad in (0, -3):
                if R.randrange(8) == 0:
                    try:
                        generate_keys(1, bad)
                        r.add(op="accepted", what=f"generate_keys(1, {bad})")
                    except ValueError:
                        r.add(op="refused")
    return f


def t_zero_digit(r, R):
    """documented: digits 1 to 7 are drawn from 1..15 (known finding)"""
    ks = r.call("generate_keys", lambda: generate_keys(1234, 5))
    r.add(op="keyrule", out=ws64(ks))


def t_weyl(n, some_draws, corner_object):
    def f(r, R):
        import warnings
        prof = P["SFC64"]
        for _ in range(n):
            o = corner_object(r, prof, R)
            some_draws(r, o, prof, R, R.randrange(3))
            bg = r.bg(o)
            twin = r.copy(o, "copy")
            hi = R.choice([32, 32, 1, 2, 3, 33, 40, 62, 63, 64, R.randrange(1, 65)])
            lo = R.choice([None, hi, 1, max(1, hi - 1), max(1, hi - 5), R.randrange(1, hi + 1)])
            k = R.choice([1, 2, 5, 20, 60])
            room = sum(comb(i) for i in range(lo or hi, hi + 1))
            k = min(k, room)
            kw = {"max_bits": hi}
            if lo is not None:
                kw["min_bits"] = lo
            st = bg.state
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                a = r.call("weyl_increments", lambda: bg.weyl_increments(k, **kw))
                b = r.call("weyl_increments", lambda: r.bg(twin).weyl_increments(k, **kw))
            for x, y in ((o, a), (twin, b)):
                used = words_used(r, r.bg(x), prof, st)
                r.add(op="weyl", o=x, n=k if y.shape == (k,) and y.dtype == np.uint64 else -1, lo=lo or hi, hi=hi, out=ws64(y), **r.norm(r.bg(x), prof), used=used)
            r.add(op="equal", a=ws64(a), b=ws64(b))
            some_draws(r, o, prof, R, 2)
            r.get(o)
            if R.randrange(3) == 0:
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        args = R.choice([(0,), (-1,), (1, 0), (1, 65), (1, 3, 4), (1, 3, 0), (2, 1, 1), (64, 2, 2), (2, 64, 64)])
                        bg.weyl_increments(*args)
                    r.add(op="accepted", what=f"weyl_increments{args}")
                except ValueError:
                    r.add(op="refused")
                r.get(o)
    return f


def comb(i):
    from math import comb as c
    return c(63, i - 1)


def words_used(r, bg, prof, before):
    """how many words the call took from the stream (searched; the specification replays them)"""
    want = str(bg.state["state"])
    c = prof.make(1)
    c.state = before
    for k in range(20000):
        if str(c.state["state"]) == want:
            return k
        c.random_raw()
    r.add(op="error", what="weyl_increments", exc="the state is not further along its stream")
    raise SegAbort("weyl")
