"""Seed sequences and constructor configurations in the specification's terms."""
import numpy as np
import randomgen as rg
from profiles import w64, w32, w128, ws64, ws32, PCG_DEFAULT, CHEAP


def words32(x):
    """an entropy value as the word sequence that enters the hash"""
    if isinstance(x, (int, np.integer)):
        x = int(x)
        if x == 0:
            return [0]
        out = []
        while x:
            out.append(x & 0xFFFFFFFF)
            x >>= 32
        return out
    out = []
    for v in x:
        out += words32(v)
    return out


def q_of(ss):
    """the spec's view of a SeedSequence object (randomgen's or numpy's)"""
    return {"ent": ws32(words32(ss.entropy)), "spawn": ws32(words32(ss.spawn_key)), "pool": int(ss.pool_size)}


def q_int(seed, spawn=(), pool=4):
    return {"ent": ws32(words32(seed)), "spawn": ws32(words32(spawn)), "pool": pool}


def cut(x, n, w):
    W = w64 if w == 64 else w32
    return [W((int(x) >> (w * i)) & (2**w - 1)) for i in range(n)]


def cfg(prof, counter=0, inc=None, idx=None):
    """k: the configuration record of the specification's SeedCore"""
    g, kw = prof.g, prof.kw
    if g == "lxm":
        return {"b": w64(kw.get("b", 3037000493))}
    if g == "pcg32":
        return {"incset": inc is not None, "inc": w64(inc or 0)}
    if g == "lcg128":
        n = prof.name
        if n.startswith("LCG"):
            post, mult = kw.get("post", True), kw.get("multiplier", PCG_DEFAULT)
            out, dm = kw.get("output", "xsl-rr"), kw.get("dxsm_multiplier", CHEAP)
        else:
            v = "dxsm" if n == "PCG64DXSM" else kw.get("variant", "xsl-rr")
            post, mult, out = {"xsl-rr": (True, PCG_DEFAULT, "xsl-rr"), "dxsm-128": (True, PCG_DEFAULT, "dxsm"),
                               "dxsm": (False, CHEAP, "dxsm"), "cm-dxsm": (False, CHEAP, "dxsm")}[v]
            dm = CHEAP
        return {"incset": inc is not None, "inc": w128(inc or 0), "mult": w128(mult), "dm": w64(dm), "post": post, "out": out}
    if g == "sfc":
        w, k = kw.get("w", 1), kw.get("k", 1)
        return {"wset": w is not None, "w": w64(w or 0), "kset": k is not None, "k": w64(k or 0)}
    if g in ("jsf64", "jsf32"):
        n = kw.get("seed_size", 1)
        d = (7, 13, 37) if g == "jsf64" else (27, 17, 0)
        return {"n": n, "p": kw.get("p", d[0]), "q": kw.get("q", d[1]), "r": kw.get("r", d[2])}
    if g in ("tyche", "tycheo"):
        return {"idxset": idx is not None, "idx": w32(idx or 0)}
    if g in ("cb64", "cb32"):
        n, w = kw["number"], kw["width"]
        kind = "philox" if prof.cls is rg.Philox else "threefry"
        return {"kind": kind, "n": n, "w": w, "ctr": cut(counter, n, w)}
    if g == "bc":
        if prof.cls is rg.AESCounter:
            return {"kind": "aes", "rounds": 0, "ctr": w128(counter)}
        return {"kind": "speck", "rounds": kw.get("rounds", 34), "ctr": w128(counter)}
    if g == "chacha":
        return {"rounds": kw.get("rounds", 20), "ctr": w128(counter)}
    if g in ("sq64", "sq32"):
        return {"ctr": w64(counter)}
    if g == "mt":
        return {"numpy": bool(kw.get("numpy_seed", False))}
    return {"none": True}
