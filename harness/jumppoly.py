"""Derives the jump polynomials x^(2^k) mod (minimal polynomial) of the linear engines from
their recurrences alone (Berlekamp-Massey), writes those of the ring engines to
spec/RingPoly.json and compares those of the small ones with spec/Linear.tla.
Run by hand (about two minutes): python3 harness/jumppoly.py"""
import json
import random
import re
from pathlib import Path

SPEC = Path(__file__).resolve().parent.parent / "spec"
M64, M128 = 2**64 - 1, 2**128 - 1


def minpoly(bits):
    n = len(bits)
    s = int("".join(map(str, bits)), 2)
    c = b = m = 1
    length = 0
    for i in range(n):
        if ((s >> (n - 1 - i)) & c).bit_count() & 1:
            t = c
            c ^= b << m
            if 2 * length <= i:
                length, b, m = i + 1 - length, t, 1
                continue
        m += 1
    assert 2 * length + 8 < n
    return int(bin(c)[2:].zfill(length + 1)[::-1], 2)


SPREAD = [sum(1 << (2 * k) for k in range(8) if i >> k & 1).to_bytes(2, "little") for i in range(256)]


def powers(p, k, m):
    """p^(2^k) mod m"""
    d = m.bit_length() - 1
    for _ in range(k):
        p = int.from_bytes(b"".join(SPREAD[x] for x in p.to_bytes((p.bit_length() + 7) // 8 or 1, "little")), "little")
        while p.bit_length() > d:
            p ^= m << (p.bit_length() - 1 - d)
    return p


def divmod2(a, b):
    q, d = 0, b.bit_length()
    while a.bit_length() >= d:
        s = a.bit_length() - d
        a ^= b << s
        q |= 1 << s
    return q, a


def gcd2(a, b):
    while b:
        a, b = b, divmod2(a, b)[1]
    return a


def mul(a, b):
    out = 0
    while b:
        if b & 1:
            out ^= a
        a <<= 1
        b >>= 1
    return out


def rotl(x, k):
    return ((x << k) | (x >> (64 - k))) & M64


def xo256(s):
    t = (s[1] << 17) & M64
    s = list(s)
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45)
    return s


def xo512(s):
    t = (s[1] << 11) & M64
    s = list(s)
    s[2] ^= s[0]; s[5] ^= s[1]; s[1] ^= s[2]; s[7] ^= s[3]; s[3] ^= s[4]; s[4] ^= s[5]; s[0] ^= s[6]; s[6] ^= s[7]; s[6] ^= t; s[7] = rotl(s[7], 21)
    return s


def xoro(a, b, c):
    def f(s):
        x = s[0] ^ s[1]
        return [rotl(s[0], a) ^ x ^ ((x << b) & M64), rotl(x, c)]
    return f


def xs1024(w):      # window: w[0] = s[p], w[1] = s[p+1], ...
    s1 = w[1] ^ ((w[1] << 31) & M64)
    n = s1 ^ w[0] ^ (s1 >> 11) ^ (w[0] >> 30)
    return [n] + w[2:] + [w[0]]


def mt(n, R):
    w = [R.getrandbits(32) for _ in range(624)]
    while len(w) < n:
        i = len(w) - 624
        y = (w[i] & 0x80000000) | (w[i + 1] & 0x7FFFFFFF)
        w.append(w[i + 397] ^ (y >> 1) ^ (0x9908B0DF if y & 1 else 0))
    return [[x >> 31 for x in w]]


def lanes(x, f):
    return sum((f((x >> (32 * j)) & 0xFFFFFFFF) & 0xFFFFFFFF) << (32 * j) for j in range(4))


def sfmt(n, R):
    mask = 0xBFFFFFF6 << 96 | 0xBFFAFFFF << 64 | 0xDDFECB7F << 32 | 0xDFFFFFEF
    w = [R.getrandbits(128) for _ in range(156)]
    while len(w) < n:
        a, b, c, d = w[-156], w[-34], w[-2], w[-1]
        w.append(a ^ ((a << 8) & M128) ^ (lanes(b, lambda x: x >> 11) & mask) ^ (c >> 8) ^ lanes(d, lambda x: x << 18))
    return [[(x >> k) & 1 for x in w] for k in (0, 37, 70, 101)]


def dsfmt(n, R):
    def sw(x):
        return (x >> 32) | ((x << 32) & M64)
    w = [(0x3FF << 52 | R.getrandbits(52), 0x3FF << 52 | R.getrandbits(52)) for _ in range(191)]
    u = (R.getrandbits(64), R.getrandbits(64))
    while len(w) < n:
        t, b = w[-191], w[-74]
        u = (((t[0] << 19) & M64) ^ sw(u[1]) ^ b[0], ((t[1] << 19) & M64) ^ sw(u[0]) ^ b[1])
        w.append(((u[0] >> 12) ^ (u[0] & 0x000FFAFFFFFFFB3F) ^ t[0], (u[1] >> 12) ^ (u[1] & 0x000FFDFFFC90FFFD) ^ t[1]))
    return [[(x[h] >> k) & 1 for x in w] for h, k in ((0, 0), (1, 33), (0, 51), (1, 7))]


def small():
    text = (SPEC / "Linear.tla").read_text()
    for name, step, words, k in [("Xo256Poly", xo256, 4, 128), ("Xo512Poly", xo512, 8, 256), ("XoroPPoly", xoro(24, 16, 37), 2, 64),
                                 ("XoroPPPoly", xoro(49, 21, 28), 2, 64), ("XsPoly", xs1024, 16, 512)]:
        R = random.Random(name)
        s, bits = [R.getrandbits(64) for _ in range(words)], []
        for _ in range(128 * words + 64):
            bits.append(s[0] & 1)
            s = step(s)
        m = minpoly(bits)
        p = powers(2, k, m)
        body = re.search(name + r"\s*==\s*<<(.*?)>> >>", text, re.S)[1] + ">>"
        ws = [[int(x) for x in g.split(",")] for g in re.findall(r"<<([^<>]*)>>", body)]
        q = sum(sum(x << (16 * i) for i, x in enumerate(w)) << (64 * j) for j, w in enumerate(ws))
        print(name, "degree", m.bit_length() - 1, "x^(2^%d)" % k, "equal" if p == q else "DIFFERENT")


def rings():
    out = {}
    for name, seq in (("mt", mt), ("sfmt", sfmt), ("dsfmt", dsfmt)):
        m = 1
        for k in range(3):          # the least common multiple over several bits and starts
            for bits in seq(40800, random.Random(name + str(k))):
                q = minpoly(bits)
                m = mul(m, divmod2(q, gcd2(m, q))[0])
                print(name, "degree", q.bit_length() - 1, "->", m.bit_length() - 1, flush=True)
        p = powers(2, 128, m)
        out[name] = []
        for k in (128, 132, 136, 140, 144):
            if k > 128:
                p = powers(p, 4, m)
            out[name].append([(p >> (16 * i)) & 0xFFFF for i in range(1250)])
    (SPEC / "RingPoly.json").write_text("[" + ",\n".join(json.dumps({"g": k, "p": v}, separators=(",", ":")) for k, v in out.items()) + "]\n")


if __name__ == "__main__":
    small()
    rings()
