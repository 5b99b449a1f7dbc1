"""The generator families: constructors, and the projection of `.state` on the
specification's engine state (spec/Gen.tla)."""
import numpy as np
import randomgen as rg

M64 = 2**64 - 1
M32 = 2**32 - 1


def w64(x):
    x = int(x)
    return [x & 0xFFFF, (x >> 16) & 0xFFFF, (x >> 32) & 0xFFFF, (x >> 48) & 0xFFFF]


def w32(x):
    x = int(x)
    return [x & 0xFFFF, (x >> 16) & 0xFFFF]


def w128(x):
    x = int(x)
    return {"hi": w64(x >> 64), "lo": w64(x & M64)}


def ws64(a):
    return [w64(x) for x in a]


def ws32(a):
    return [w32(x) for x in a]


def u64(w):
    return w[0] | w[1] << 16 | w[2] << 32 | w[3] << 48


def blank(words, k, conv, zero):
    return [zero if i < k else conv(x) for i, x in enumerate(words)]


PHI_BAD = {"bad": True}


class Profile:
    """name: unique; g: family in Gen.tla; cls, kw: the constructor."""

    def __init__(self, name, g, cls, norm, **kw):
        self.name, self.g, self.cls, self.kw, self._norm = name, g, cls, kw, norm
        self.native64 = True

    def make(self, seed=None, **over):
        kw = dict(self.kw)
        kw.update(over)
        return self.cls(seed, **kw) if seed is not None else self.cls(**kw)

    def core(self, st):
        return self._norm(st)

    def cache(self, st):
        has = int(st.get("has_uint32", 0))
        ui = int(st.get("uinteger", 0)) if has else 0
        return has, w32(ui)

    def norm(self, st):
        has, ui = self.cache(st)
        return {"g": self.g, "core": self.core(st), "has": has, "ui": ui}


def n_s(st):
    return ws64(st["s"])


def n_xs(st):
    s = st["state"]
    return {"s": ws64(s["s"]), "p": int(s["p"])}


def n_lxm(st):
    s = st["state"]
    return {"x": ws64(s["x"]), "l": w64(s["lcg_state"]), "b": w64(s["b"])}


def n_pcg32(st):
    s = st["state"]
    return {"s": w64(s["state"]), "inc": w64(s["inc"])}


PCG_DEFAULT = 47026247687942121848144207491837523525
CHEAP = 0xDA942042E4DD58B5


def n_pcg64(st):
    s = st["state"]
    v = st.get("variant", "dxsm")
    post, mult, out = {
        "xsl-rr": (True, PCG_DEFAULT, "xsl-rr"),
        "dxsm-128": (True, PCG_DEFAULT, "dxsm"),
        "dxsm": (False, CHEAP, "dxsm"),
        "cm-dxsm": (False, CHEAP, "dxsm"),
    }[v]
    return {"s": w128(s["state"]), "inc": w128(s["inc"]), "mult": w128(mult), "dm": w64(CHEAP), "post": post, "out": out}


def n_lcg(st):
    s = st["state"]
    return {"s": w128(s["state"]), "inc": w128(s["inc"]), "mult": w128(s["multiplier"]), "dm": w64(s["dxsm_multiplier"]),
            "post": bool(s["post"]), "out": s["output_func"]}


def n_sfc(st):
    s = st["state"]
    return {k: w64(s[k]) for k in "abcwk"}


def n_jsf(st):
    s = st["state"]
    w = w64 if st["size"] == 64 else w32
    d = {k: w(s[k]) for k in "abcd"}
    d.update({k: int(s[k]) for k in "pqr"})
    return d


def n_romu(st):
    s = st["state"]
    return {k: w64(s[k]) for k in "wxyz"}


def n_tyche(st):
    s = st["state"]
    return {k: w32(s[k]) for k in "abcd"}


def n_efiix(st):
    s = st["state"]
    return {"ind": ws64(s["indirection_table"]), "it": ws64(s["iteration_table"]),
            "i": w64(s["i"]), "a": w64(s["a"]), "b": w64(s["b"]), "c": w64(s["c"])}


def n_cb(kind):
    def f(st):
        s = st["state"]
        n, w = int(st["number"]), int(st["width"])
        W = w64 if w == 64 else w32
        pos = min(int(st["buffer_pos"]), n)
        buf = [int(x) for x in st["buffer"]][:n]
        return {"kind": kind, "n": n, "w": w, "key": [W(x) for x in s["key"]], "ctr": [W(x) for x in s["counter"]],
                "buf": blank(buf, pos, W, W(0)), "pos": pos}
    return f


def ctr128(words, k):
    """k consecutive 128-bit counters stored as pairs: the first, if consistent"""
    c = [int(words[2 * i]) | int(words[2 * i + 1]) << 64 for i in range(k)]
    ok = all(c[i] == (c[0] + i) % 2**128 for i in range(k))
    return w128(c[0]) if ok else {"inconsistent": [w128(x) for x in c]}


def n_aes(st):
    s = st["s"]
    off = int(s["offset"])
    buf = np.asarray(s["state"]).view(np.uint64)
    if off % 8:
        return {"bad": off}
    return {"kind": "aes", "rk": ws64(s["seed"]), "ctr": ctr128(s["counter"], 4), "buf": blank(buf, off // 8, w64, w64(0)), "off": off // 8}


def n_speck(st):
    s = st["state"]
    off = int(s["offset"])
    buf = np.asarray(s["buffer"]).view(np.uint64)
    rk = [int(x) for x in s["round_key"]]
    c = {"kind": "speck", "rounds": int(s["rounds"]), "rk": ws64(rk[::2]), "ctr": ctr128(s["ctr"], 6),
         "buf": blank(buf, off // 8, w64, w64(0)), "off": off // 8}
    if rk[::2] != rk[1::2] or off % 8:
        c["bad"] = off
    return c


def n_chacha(st):
    s = st["state"]
    ctr = int(s["ctr"][0]) | int(s["ctr"][1]) << 64
    i = ctr % 16
    blk = [w32(0)] * 16 if i == 0 else blank(s["block"], i, w32, w32(0))
    return {"key": ws32(s["keysetup"]), "ctr": w128(ctr), "rounds": int(s["rounds"]), "block": blk}


def n_squares(st):
    s = st["state"]
    return {"key": w64(s["key"]), "ctr": w64(s["counter"]), "v": int(st["variant"])}


def n_mt(st):
    s = st["state"]
    return {"key": ws32(s["key"]), "pos": int(s["pos"])}


def n_mt64(st):
    s = st["state"]
    return {"key": ws64(s["key"]), "pos": int(s["pos"])}


def n_sfmt(st):
    s = st["state"]
    a = [int(x) for x in s["state"]]
    blocks = [sum((w32(a[4 * i + j]) for j in range(4)), []) for i in range(156)]
    loc = int(st["buffer_loc"])
    return {"s": blocks, "buf": blank(st["buffered_uint64"], loc, w64, w64(0)), "loc": loc}


def n_dsfmt(st):
    s = st["state"]
    a = [int(x) for x in s["state"]]
    loc = int(st["buffer_loc"])
    buf = np.asarray(st["buffered_uniforms"]).view(np.uint64)
    return {"s": [[w64(a[2 * i]), w64(a[2 * i + 1])] for i in range(191)], "u": [w64(a[382]), w64(a[383])],
            "buf": blank(buf, loc, w64, w64(0)), "loc": loc}


def n_hc(st):
    s = st["state"]
    bi = int(s["buffer_idx"]) or 16
    return {"p": ws32(s["p"]), "q": ws32(s["q"]), "i": int(s["hc_idx"]) % 1024, "buf": blank(s["buffer"], bi, w32, w32(0)), "bi": bi}


P = {}


def add(name, g, cls, norm, **kw):
    P[name] = Profile(name, g, cls, norm, **kw)


add("Xoshiro256", "xo256", rg.Xoshiro256, n_s)
add("Xoshiro512", "xo512", rg.Xoshiro512, n_s)
add("Xoroshiro128", "xorop", rg.Xoroshiro128, n_s)
add("Xoroshiro128++", "xoropp", rg.Xoroshiro128, n_s, plusplus=True)
add("Xorshift1024", "xs1024", rg.Xorshift1024, n_xs)
add("LXM", "lxm", rg.LXM, n_lxm)
add("LXM-b", "lxm", rg.LXM, n_lxm, b=0x9E3779B97F4A7C15)
add("PCG32", "pcg32", rg.PCG32, n_pcg32)
add("PCG64", "lcg128", rg.PCG64, n_pcg64)
add("PCG64-dxsm128", "lcg128", rg.PCG64, n_pcg64, variant="dxsm-128")
add("PCG64-dxsm", "lcg128", rg.PCG64, n_pcg64, variant="dxsm")
add("PCG64-cm", "lcg128", rg.PCG64, n_pcg64, variant="cm-dxsm")
add("PCG64DXSM", "lcg128", rg.PCG64DXSM, n_pcg64)
add("LCG128Mix", "lcg128", rg.LCG128Mix, n_lcg)
add("LCG128Mix-dxsm", "lcg128", rg.LCG128Mix, n_lcg, output="dxsm", post=False, multiplier=CHEAP)
add("LCG128Mix-dm", "lcg128", rg.LCG128Mix, n_lcg, output="dxsm", dxsm_multiplier=0xD1342543DE82EF95)
add("LCG128Mix-murmur", "lcg128", rg.LCG128Mix, n_lcg, output="murmur3", post=False)
add("LCG128Mix-upper", "lcg128", rg.LCG128Mix, n_lcg, output="upper", multiplier=0x2360ED051FC65DA44385DF649FCCF645 + 4)
add("LCG128Mix-lower", "lcg128", rg.LCG128Mix, n_lcg, output="lower", post=False)
add("SFC64", "sfc", rg.SFC64, n_sfc)
add("SFC64-kn", "sfc", rg.SFC64, n_sfc, k=None, w=None)
add("SFC64-kw", "sfc", rg.SFC64, n_sfc, k=0x8B5A_D4CE_9AC7_3F01, w=0xFFFFFFFFFFFFFFFB)
add("JSF", "jsf64", rg.JSF, n_jsf)
add("JSF-s3", "jsf64", rg.JSF, n_jsf, seed_size=3)
add("JSF-pqr", "jsf64", rg.JSF, n_jsf, seed_size=2, p=39, q=11, r=0)
add("JSF32", "jsf32", rg.JSF, n_jsf, size=32)
add("JSF32-pqr", "jsf32", rg.JSF, n_jsf, size=32, seed_size=3, p=9, q=16, r=0)
add("Romu", "romuq", rg.Romu, n_romu)
add("Romu-trio", "romut", rg.Romu, n_romu, variant="trio")
add("Tyche", "tyche", rg.Tyche, n_tyche)
add("Tyche-open", "tycheo", rg.Tyche, n_tyche, original=False)
add("EFIIX64", "efiix", rg.EFIIX64, n_efiix)
for n in (4, 2):
    for w in (64, 32):
        add(f"Philox{n}x{w}", f"cb{w}", rg.Philox, n_cb("philox"), number=n, width=w)
        add(f"ThreeFry{n}x{w}", f"cb{w}", rg.ThreeFry, n_cb("threefry"), number=n, width=w)
add("AESCounter", "bc", rg.AESCounter, n_aes)
add("SPECK128", "bc", rg.SPECK128, n_speck)
add("SPECK128-r7", "bc", rg.SPECK128, n_speck, rounds=7)
add("ChaCha", "chacha", rg.ChaCha, n_chacha)
add("ChaCha8", "chacha", rg.ChaCha, n_chacha, rounds=8)
add("ChaCha2", "chacha", rg.ChaCha, n_chacha, rounds=2)
add("ChaCha26", "chacha", rg.ChaCha, n_chacha, rounds=26)
add("Squares", "sq64", rg.Squares, n_squares)
add("Squares32", "sq32", rg.Squares, n_squares, variant=32)
add("HC128", "hc", rg.HC128, n_hc)
add("MT19937", "mt", rg.MT19937, n_mt)
add("MT64", "mt64", rg.MT64, n_mt64)
add("SFMT", "sfmt", rg.SFMT, n_sfmt)
add("DSFMT", "dsfmt", rg.DSFMT, n_dsfmt)
add("MT19937-np", "mt", rg.MT19937, n_mt, numpy_seed=True)
add("PCG64-np", "lcg128", rg.PCG64, n_pcg64, numpy_seed=True)
add("SFC64-np", "sfc", rg.SFC64, n_sfc, numpy_seed=True)
add("Philox4x64-np", "cb64", rg.Philox, n_cb("philox"), number=4, width=64, numpy_seed=True)

HALF_CACHED = {"xo256", "xo512", "xorop", "xoropp", "xs1024", "lxm", "lcg128", "sfc", "jsf64", "romuq", "romut", "efiix",
               "cb64", "bc", "sq64", "mt64", "sfmt"}
VIEWS = ("n64", "n32", "dbl", "raw")
