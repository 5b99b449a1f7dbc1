"""States at the edges of what can be set: all-zero and all-one words, single bits,
counters about to carry through any number of words, every buffer position."""
import copy
import numpy as np
from profiles import P, M64, M32
from shapes import shape


def word(R, bits=64):
    m = (1 << bits) - 1
    k = R.randrange(8)
    if k == 0:
        return 0
    if k == 1:
        return m
    if k == 2:
        return 1 << R.randrange(bits)
    if k == 3:
        return m ^ (1 << R.randrange(bits))
    if k == 4:
        return R.getrandbits(bits) & R.getrandbits(bits) & R.getrandbits(bits)
    if k == 5:
        return (m << R.randrange(bits)) & m
    if k == 6:
        return m >> R.randrange(bits)
    return R.getrandbits(bits)


def nonzero(ws):
    return ws if any(ws) else [1] + ws[1:]


def u64a(ws):
    return np.array(ws, dtype=np.uint64)


def u32a(ws):
    return np.array(ws, dtype=np.uint32)


def counter_value(R, bits, w):
    """counters near a carry into word 1, 2, ... or near the end of the period"""
    k = R.randrange(6)
    top = 1 << bits
    if k == 0:
        return (top - 1 - R.randrange(3)) % top
    if k == 1:
        j = R.randrange(1, bits // w + 1)
        hi = R.getrandbits(bits) >> (w * j) << (w * j)
        return (hi + (1 << (w * j)) - 1 - R.randrange(3)) % top
    if k == 2:
        return R.randrange(3)
    if k == 3:
        return (1 << R.randrange(bits))
    return R.getrandbits(bits)


def split(x, n, w):
    return [(x >> (w * i)) & ((1 << w) - 1) for i in range(n)]


def randomise(prof, bg, R, consistent=False):
    """a fresh state dictionary for prof, at an edge.  consistent: buffers left empty,
    so that the state is one that draws could have produced."""
    st = copy.deepcopy(bg.state)
    g = prof.g
    s = st.get("state", st.get("s"))
    if g in ("xo256", "xo512", "xorop", "xoropp"):
        st["s"] = u64a(nonzero([word(R) for _ in st["s"]]))
    elif g == "xs1024":
        s["s"] = u64a(nonzero([word(R) for _ in range(16)]))
        s["p"] = R.randrange(16)
    elif g == "lxm":
        s["x"] = u64a(nonzero([word(R) for _ in range(4)]))
        s["lcg_state"] = word(R)
        s["b"] = word(R) | 1
    elif g == "pcg32":
        s["state"], s["inc"] = word(R), word(R) | 1
    elif g == "lcg128":
        s["state"], s["inc"] = word(R, 128), word(R, 128) | 1
    elif g == "sfc":
        for k in "abcw":
            s[k] = word(R)
        s["k"] = word(R) | 1
    elif g in ("jsf64", "jsf32"):
        for k in "abcd":
            s[k] = word(R, 64 if g == "jsf64" else 32)
    elif g in ("romuq", "romut"):
        ws = nonzero([word(R) for _ in range(4)])
        for k, x in zip("wxyz", ws):
            s[k] = x
    elif g in ("tyche", "tycheo"):
        for k in "abcd":
            s[k] = word(R, 32)
    elif g == "efiix":
        s["indirection_table"] = u64a([word(R) for _ in range(16)])
        s["iteration_table"] = u64a([word(R) for _ in range(32)])
        for k in "iabc":
            s[k] = word(R)
    elif g in ("cb64", "cb32"):
        n, w = st["number"], st["width"]
        dt = np.uint64 if w == 64 else np.uint32
        s["counter"] = np.array(split(counter_value(R, n * w, w), n, w), dtype=dt)
        s["key"] = np.array([word(R, w) for _ in s["key"]], dtype=dt)
        st["buffer_pos"] = n if consistent else R.randrange(n + 1)
        st["buffer"] = np.array([word(R, w) for _ in range(n)] + [0] * (len(st["buffer"]) - n), dtype=st["buffer"].dtype)
    elif g == "bc":
        if "seed" in s:
            c = counter_value(R, 128, 64)
            s["counter"] = u64a([x for i in range(4) for x in split((c + i) % 2**128, 2, 64)])
            s["seed"] = u64a([word(R) for _ in range(22)])
            s["offset"] = 64 if consistent else 8 * R.randrange(9)
            s["state"] = u64a([word(R) for _ in range(8)]).view(np.uint8)
        else:
            c = counter_value(R, 128, 64)
            s["ctr"] = u64a([x for i in range(6) for x in split((c + i) % 2**128, 2, 64)])
            s["round_key"] = u64a([x for k in [word(R) for _ in range(34)] for x in (k, k)])
            s["offset"] = 96 if consistent else 8 * R.randrange(13)
            s["buffer"] = u64a([word(R) for _ in range(12)]).view(np.asarray(s["buffer"]).dtype)
    elif g == "chacha":
        c = counter_value(R, 128, 64)
        if consistent:
            c = c // 16 * 16
        s["ctr"] = u64a(split(c, 2, 64))
        s["keysetup"] = u32a([word(R, 32) for _ in range(8)])
        s["block"] = u32a([word(R, 32) for _ in range(16)])
    elif g in ("sq64", "sq32"):
        s["key"] = word(R) | 1
        s["counter"] = counter_value(R, 64, 64)
    elif g == "mt":
        s["key"] = u32a(nonzero([word(R, 32) for _ in range(624)]))
        s["pos"] = R.choice([0, 1, 226, 227, 228, 396, 397, 398, 622, 623, 624, R.randrange(625)])
    elif g == "mt64":
        s["key"] = u64a(nonzero([word(R) for _ in range(312)]))
        s["pos"] = R.choice([0, 1, 155, 156, 157, 310, 311, 312, R.randrange(313)])
    elif g == "sfmt":
        s["state"] = u32a([word(R, 32) for _ in range(624)])
        st["buffered_uint64"] = u64a([word(R) for _ in range(312)])
        st["buffer_loc"] = R.choice([0, 1, 310, 311, 312, R.randrange(313)])
    elif g == "dsfmt":
        s["state"] = u64a([(word(R) & (2**52 - 1)) | (0x3FF << 52) for _ in range(382)] + [word(R), word(R)])
        st["buffered_uniforms"] = u64a([(word(R) & (2**52 - 1)) | (0x3FF << 52) for _ in range(382)]).view(np.float64)
        st["buffer_loc"] = R.choice([0, 1, 380, 381, 382, R.randrange(383)])
    elif g == "hc":
        s["p"] = u32a([word(R, 32) for _ in range(512)])
        s["q"] = u32a([word(R, 32) for _ in range(512)])
        s["buffer"] = u32a([word(R, 32) for _ in range(16)])
        s["hc_idx"] = 16 * R.choice([0, 1, 30, 31, 32, 33, 62, 63, R.randrange(64)])
        s["buffer_idx"] = R.randrange(1, 17)
    else:
        raise ValueError(g)
    if "has_uint32" in st:
        if R.randrange(2) and shape(prof)[2]:
            st["has_uint32"], st["uinteger"] = 1, word(R, 32)
        else:
            st["has_uint32"], st["uinteger"] = 0, 0
    return st
