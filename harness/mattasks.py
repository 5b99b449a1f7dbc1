"""Matrix and complex draws (spec/MatTrace.tla): argument arrays of every shape and spelling,
the variates on the stream found by a twin numpy Generator, and the results."""
import copy
import itertools
import warnings

import numpy as np
import randomgen as rg
from randomgen.generator import ExtendedGenerator

S = 16384
BGS = [lambda s: rg.PCG64(s), lambda s: rg.MT19937(s), lambda s: rg.DSFMT(s), lambda s: rg.Philox(s), lambda s: rg.ThreeFry(s, number=2, width=32),
       lambda s: rg.PCG32(s), lambda s: rg.JSF(s, size=32), lambda s: rg.Xoshiro256(s), lambda s: rg.ChaCha(s), lambda s: rg.SFC64(s), lambda s: rg.HC128(s)]


def fx(x):
    x = np.asarray(x)
    if np.iscomplexobj(x):
        x = np.stack([x.real, x.imag], -1)
    d = []
    for v in np.asarray(x, dtype=float).ravel():
        d.append(int(np.rint(v * S)) if abs(v) < 60000 else 2**30 + (0 if np.isfinite(v) else 1))
    return d


def arr(x):
    x = np.asarray(x)
    return {"s": list(map(int, x.shape)), "d": fx(x)}


def same_state(a, b):
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same_state(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        return np.array_equal(a, b)
    return a == b


def tape_of(bg, kinds):
    """the variates the stream holds next; moves bg"""
    g = np.random.Generator(bg)
    return np.array([g.standard_normal() if k == 0 else np.sqrt(g.chisquare(k)) for k in kinds])


def bgen(R):
    bg = R.choice(BGS)(R.randrange(2**40))
    for _ in range(R.choice([0, 0, 1, 3, 17, 700])):
        bg.random_raw()
    if R.random() < 0.3:
        bg.ctypes.next_uint32(bg.ctypes.state)
    return bg


# ---------------------------------------------------------------- the shapes, as the specification has them
def size_rule(size, base):
    if size is None:
        return base
    if len(size) < len(base):
        return None
    pad = (1,) * (len(size) - len(base)) + tuple(base)
    if any(s != b and s != 1 and b != 1 for s, b in zip(size, pad)):
        return None
    return tuple(s if b == 1 else b for s, b in zip(size, pad))


def bshape(*shapes):
    try:
        return np.broadcast_shapes(*shapes)
    except ValueError:
        return None


def wish_kinds(df, n):
    if df < n:
        return [0] * (df * n)
    return [k for i in range(n) for k in [df - i] + [0] * (n - 1 - i)]


# ---------------------------------------------------------------- the linear map of a scalar call
def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def fit(draw, dim):
    """F with draw = z F, from one scalar call for many values at a known place of a stream"""
    k = 3 * dim + 3
    bg = rg.PCG64(99)
    z = tape_of(copy.deepcopy(bg), [0] * (k * dim)).reshape(k, dim)
    out = quiet(lambda: draw(ExtendedGenerator(bg), k))
    out = np.ascontiguousarray(out)
    if np.iscomplexobj(out):
        out = out.view(float).reshape(k, -1)
    return np.linalg.lstsq(z, out.reshape(k, dim), rcond=None)[0]


def factor_mvn(cov, method):
    n = cov.shape[-1]
    return fit(lambda g, k: g.multivariate_normal(np.zeros(n), cov, k, "ignore", method=method), n)


def factor_cn(g, r):
    return fit(lambda e, k: e.complex_normal(0.0, g, r, k), 2)


def factor_mcn(g, r, method):
    n = g.shape[-1]
    return fit(lambda e, k: e.multivariate_complex_normal(np.zeros(n, complex), g, r, k, check_valid="ignore", method=method), 2 * n)


def factor_wish(scale, method, rank):
    """the factor of a Wishart draw: that of the normal draw, reduced to the rank, up to signs"""
    n = scale.shape[-1]
    bg = rg.PCG64(98)
    df = n + 2
    tape = tape_of(copy.deepcopy(bg), wish_kinds(df, n) * 3).reshape(3, -1)
    out = quiet(lambda: ExtendedGenerator(bg).wishart(df, scale, 3, check_valid="ignore", method=method, rank=rank))
    U = np.zeros((3, n, n))
    U[:, np.triu_indices(n)[0], np.triu_indices(n)[1]] = tape
    cands = []
    try:
        f = factor_mvn(scale, method)
        cands.append(f)
        if rank is not None and rank < n:
            o = np.argsort((f**2).sum(1))
            f = f.copy()
            f[o[:n - rank]] = 0
            cands.insert(0, f)
    except np.linalg.LinAlgError:
        pass
    if method == "cholesky":
        for perm in itertools.permutations(range(n)):
            a = scale[np.ix_(perm, perm)].copy()
            L = np.zeros((n, n))
            for j in range(rank or n):
                d = a[j, j] - (L[j, :j]**2).sum()
                if d <= 1e-9:
                    break
                L[j, j] = np.sqrt(d)
                for i in range(j + 1, n):
                    L[i, j] = (a[i, j] - (L[i, :j] * L[j, :j]).sum()) / L[j, j]
            f = np.zeros((n, n))
            f[:, list(perm)] = L.T
            if np.allclose(f.T @ f, scale, atol=1e-6):
                cands.append(f)
    if not cands:
        cands = [np.zeros((n, n))]
    for f in cands:
        for sg in itertools.product([1, -1], repeat=n):
            g = np.diag(sg) @ f
            y = U @ g
            if np.allclose(np.swapaxes(y, 1, 2) @ y, out, atol=1e-6):
                return g
    return cands[0]


# ---------------------------------------------------------------- arguments
def covmat(R, n, kind=None):
    kind = kind or R.choice(["full", "full", "full", "diag", "int", "eye", "strong"])
    A = np.array([[R.randrange(-6, 7) / 4 for _ in range(n)] for _ in range(n)])
    if kind == "diag":
        return np.diag([R.randrange(1, 12) / 4 for _ in range(n)])
    if kind == "eye":
        return np.eye(n)
    if kind == "int":
        B = np.array([[R.randrange(-1, 2) for _ in range(n)] for _ in range(n)])
        return (B @ B.T + np.eye(n)).astype(float)
    if kind == "strong":
        return np.full((n, n), 1.75) + np.eye(n) * 0.25
    if kind == "singular":
        k = R.randrange(0, n) if n > 1 else 0
        B = A[:, :max(k, 1)] if n > 1 else A * 0
        return B @ B.T
    return A @ A.T + np.eye(n) * 0.5


def stack(shape, f):
    out = np.empty(shape, dtype=object)
    vals = [f() for _ in range(int(np.prod(shape, dtype=int)))]
    if not vals:
        v = np.asarray(f())
        return np.zeros(tuple(shape) + v.shape, dtype=v.dtype)
    del out
    return np.array(vals).reshape(tuple(shape) + np.asarray(vals[0]).shape)


def leading(R, zero=False):
    """a full shape and parameter shapes that broadcast to (at most) it"""
    full = tuple(R.choice([1, 2, 2, 3]) for _ in range(R.choice([0, 0, 1, 1, 2, 2, 3])))
    if zero and full and R.random() < 0.1:
        full = full[:-1] + (0,)
    while np.prod(full, dtype=int) > 12:
        full = full[1:]

    def part():
        s = tuple(1 if R.random() < 0.3 else d for d in full)
        return s[R.choice([0, 0, 0, len(s) // 2, len(s)]):]
    return full, part


def spoil(R, shape):
    if shape and R.random() < 0.06:
        i = R.randrange(len(shape))
        return shape[:i] + (shape[i] + 3,) + shape[i + 1:]
    return shape


def pick_size(R, base, exact=False, suffix=False):
    c = R.random()
    if base is None:
        return R.choice([None, (2,)])
    if c < 0.3:
        return None
    if c < 0.5:
        return tuple(base)
    pre = tuple(R.choice([1, 2, 3]) for _ in range(R.choice([1, 1, 2])))
    if c < 0.75:
        return pre + tuple(base)
    if c < 0.85:
        return pre + tuple(1 if R.random() < 0.5 else b for b in base)
    if c < 0.89:
        return tuple(base)[1:]
    if c < 0.93:
        return (0,) + tuple(base)
    return spoil(R, tuple(b + R.choice([0, 0, 1]) for b in base) or (3,))


def dress_size(R, size):
    if size is None:
        return None
    if len(size) == 1 and R.random() < 0.5:
        return R.choice([int, np.int64, np.int32])(size[0])
    return R.choice([tuple, tuple, list])(size)


def spelled(R, x, integral=False):
    """the same values, spelled differently"""
    x = np.asarray(x)
    w = ["list", "fortran", "strided", "negative", "big", "readonly", "tuple", "view"]
    if not np.iscomplexobj(x) and np.all(x == np.rint(x)):
        w += ["int64", "int32", "int8", "object"]
    if x.dtype == np.int64:
        w = [k for k in w if k not in ("big", "object")] + ["uint16"]
    elif np.all(x * 4 == np.rint(x * 4)):
        w += ["single"]
    if np.iscomplexobj(x) and np.all(x.imag == 0):
        w += ["real"]
    if x.size == 0:
        w = ["fortran", "readonly", "strided"]
    k = R.choice(w)
    if k == "list":
        return k, x.tolist()
    if k == "tuple":
        def tup(v):
            return tuple(map(tup, v)) if isinstance(v, list) else v
        return k, tup(x.tolist())
    if k == "fortran":
        return k, np.asfortranarray(x) if x.ndim else x.copy()
    if k == "strided":
        if x.ndim == 0:
            return k, x.copy()
        b = np.full(tuple(2 * d + 1 for d in x.shape), 17, dtype=x.dtype)
        v = b[tuple(slice(0, 2 * d, 2) for d in x.shape)]
        v[...] = x
        return k, v
    if k == "negative":
        sl = (slice(None, None, -1),) * x.ndim
        return k, x[sl].copy()[sl]
    if k == "big":
        return k, x.astype(x.dtype.newbyteorder(">"))
    if k == "readonly":
        y = np.broadcast_to(x, x.shape) if R.random() < 0.5 or x.ndim == 0 else x.copy()
        y.flags.writeable = False
        return k, y
    if k == "view":
        b = np.zeros(x.size * x.dtype.itemsize + 1, dtype=np.uint8)
        v = b[1:].view(x.dtype).reshape(x.shape)      # not aligned
        v[...] = x
        return k, v
    if k == "single":
        return k, x.astype(np.complex64 if np.iscomplexobj(x) else np.float32)
    if k == "real":
        return k, x.real.copy()
    return k, x.astype(k)


def frozen(x):
    if isinstance(x, np.ndarray):
        return (x.dtype, x.shape, x.strides, x.tobytes(), x.flags.writeable)
    return repr(x)


# ---------------------------------------------------------------- one call
def call(bg, f, args, kw):
    before = {k: frozen(v) for k, v in list(args.items()) + list(kw.items())}
    try:
        out = quiet(lambda: f(ExtendedGenerator(bg))(**args, **kw))
        ok = True
    except (ValueError, TypeError, np.linalg.LinAlgError) as x:
        out, ok = x, False
    after = {k: frozen(v) for k, v in list(args.items()) + list(kw.items())}
    return ok, out, before == after


def perform(r, R, ev, method, args, kw, kinds, times=1, sizearg="size"):
    """the call with the arguments as contiguous arrays, then spelled differently from the same point"""
    bg = bgen(R)
    start = copy.deepcopy(bg)
    name = method
    f = lambda g: getattr(g, name)
    size = kw.get(sizearg)
    kw1 = dict(kw)
    if sizearg in kw1:
        kw1[sizearg] = dress_size(R, size)
    ok, out, unmod = call(bg, f, {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in args.items()}, kw1)
    twin = copy.deepcopy(start)
    tape = tape_of(twin, kinds) if ok else []
    ev.update(ok=ok, hs=size is not None, size=list(size) if size is not None else [],
              shape=list(np.shape(out)) if ok else [], out=fx(out) if ok else [], tape=fx(tape) if ok else [],
              same=same_state(bg.state, twin.state))
    if not ok:
        ev["why"] = repr(out)[:200]
    r.add(**ev)
    r.draws += len(ev["tape"])
    if not ok:
        return
    for _ in range(times):
        how, a2 = {}, {}
        for k, v in args.items():
            if isinstance(v, np.ndarray) or isinstance(v, (float, complex)):
                how[k], a2[k] = spelled(R, v)
            else:
                a2[k] = v
        kw2 = dict(kw)
        if sizearg in kw2:
            kw2[sizearg] = dress_size(R, size)
        b2 = copy.deepcopy(start)
        ok2, out2, unmod2 = call(b2, f, a2, kw2)
        r.add(op="spell", how=how, call=name, ok=ok2, unmodified=unmod2, same=same_state(b2.state, bg.state),
              shape=list(np.shape(out2)) if ok2 else [-1], oshape=ev["shape"], out=fx(out2) if ok2 else [], was=ev["out"],
              why="" if ok2 else repr(out2)[:200])


def vec(R, cplx=False):
    def f():
        v = R.randrange(-12, 13) / 4
        if R.random() < 0.5:
            v = float(round(v))
        return complex(v, R.randrange(-12, 13) / 4) if cplx else v
    return f


def batch(lead, mats, dims):
    return np.array(mats).reshape(tuple(lead) + dims) if len(mats) else np.zeros(tuple(lead) + dims)


def count(shape):
    return int(np.prod(shape, dtype=int))


def mvn_once(r, R, spell, methods=("svd", "eigh", "cholesky", "factor"), kind=None, nmax=3):
    n = R.choice([1, 2, 2, 3, 3, 4][:nmax + 2])
    full, part = leading(R, zero=True)
    ms, cs = spoil(R, part()), part()
    method = R.choice(methods)
    mean = stack(ms, lambda: np.array([vec(R)() for _ in range(n)]))
    if method == "factor":
        cov = stack(cs, lambda: np.array([[R.randrange(-6, 7) / 4 for _ in range(n)] for _ in range(n)]))
        fac = np.swapaxes(cov, -1, -2)
    else:
        cov = stack(cs, lambda: covmat(R, n, kind if kind != "singular" or method != "cholesky" else None))
        fac = batch(cs, [factor_mvn(cov[i], method) for i in np.ndindex(*cs)], (n, n))
    base = bshape(ms, cs)
    size = pick_size(R, base)
    shape = size_rule(size, base) if base is not None else None
    kw = {"method": method}
    if method == "svd" and R.random() < 0.5:
        kw = {}
    if size is not None:
        kw["size"] = size
    kinds = [0] * (count(shape) * n) if shape is not None else []
    perform(r, R, dict(op="mvn", given=method == "factor", valid=True, mean=arr(mean), cov=arr(cov), fac=fx(fac)),
            "multivariate_normal", {"mean": mean, "cov": cov}, kw, kinds, spell)


def cn_pair(R):
    """a variance and a feasible relation"""
    g = R.choice([0.25, 1, 1, 2, 3.5])
    k = R.random()
    if k < 0.2:
        return g, 0
    if k < 0.3:
        return g, R.choice([g, -g])
    if k < 0.35:
        return 0.0, 0.0
    re = g * R.choice([-0.75, -0.5, 0, 0.25, 0.5])
    im = R.choice([-1, -0.5, 0, 0.25, 0.5, 0.999]) * np.sqrt(g * g - re * re)
    return g, complex(re, im)


def cn_once(r, R, spell):
    full, part = leading(R, zero=True)
    ls, gs = spoil(R, part()), part()
    same = R.random() < 0.5
    if same:
        gr = [cn_pair(R) for _ in range(count(gs))]
        gamma = np.array([p[0] for p in gr], complex).reshape(gs)
        rel = np.array([p[1] for p in gr], complex).reshape(gs)
        rs = gs
    else:       # independent shapes: relations feasible for every variance used
        rs = part()
        gamma = stack(gs, lambda: complex(R.choice([2.0, 3.0, 2.5])))
        rel = stack(rs, lambda: complex(R.choice([-1.25, 0, 0.5, 1.5]), R.choice([-1.25, 0, 0.5, 1.25])))
    loc = stack(ls, vec(R, True))
    crs = bshape(gs, rs)
    if crs is None:
        return
    base = bshape(ls, crs)
    gb, rb = np.broadcast_to(gamma, crs), np.broadcast_to(rel, crs)
    fac = batch(crs, [factor_cn(complex(gb[i]), complex(rb[i])) for i in np.ndindex(*crs)], (2, 2))
    size = pick_size(R, base)
    if base is None:
        shape = None
    elif size is None:
        shape = base
    else:
        shape = size if bshape(size, base) == tuple(size) else None
    kw = {} if size is None else {"size": size}
    args = {"loc": loc, "gamma": gamma, "relation": rel}
    if all(x.ndim == 0 for x in args.values()):
        args = {k: complex(v) for k, v in args.items()}
        spell = 0 if R.random() < 0.5 else spell
    kinds = [0] * (2 * count(shape)) if shape is not None else []
    perform(r, R, dict(op="cn", loc=arr(loc), gamma=arr(gamma), rel=arr(rel), fac=fx(fac)), "complex_normal", args, kw, kinds, spell)


def mcn_pair(R, n):
    """gamma and relation of A w + B conj(w) for random A, B, plus noise"""
    q = lambda: np.array([[complex(R.randrange(-3, 4) / 4, R.randrange(-3, 4) / 4) for _ in range(n)] for _ in range(n)])
    A, B = q(), q() if R.random() < 0.7 else np.zeros((n, n))
    # z = A w + B conj(w), w standard circular: E zz^H = AA^H + BB^H, E zz^T = AB^T + BA^T
    return A @ A.conj().T + B @ B.conj().T + 0.5 * np.eye(n), A @ B.T + B @ A.T


def mcn_once(r, R, spell):
    n = R.choice([1, 2, 2, 3])
    full, part = leading(R)
    ls, gs = spoil(R, part()), part()
    method = R.choice(["svd", "eigh", "cholesky"])
    nog, nor = R.random() < 0.15, R.random() < 0.25
    pairs = [mcn_pair(R, n) for _ in range(max(count(gs), 1))]
    if nog:
        gs = ()
        gamma = np.eye(n).astype(complex)
        rs = () if nor else part()
        rel = np.zeros((n, n), complex) if nor else stack(rs, lambda: np.diag([R.choice([0.5, -0.25, 0.0, 0.5j]) for _ in range(n)]).astype(complex))
    else:
        gamma = np.array([p[0] for p in pairs]).reshape(gs + (n, n))
        if nor:
            rs, rel = (), np.zeros((n, n), complex)
        elif R.random() < 0.6 or count(gs) == 0:
            rs, rel = gs, np.array([p[1] for p in pairs]).reshape(gs + (n, n))
        else:
            rs = part()
            gamma = gamma + 2 * np.eye(n)
            rel = stack(rs, lambda: mcn_pair(R, n)[1] * 0.25)
    crs = bshape(gs, rs)
    if crs is None:
        return
    loc = stack(ls, lambda: np.array([vec(R, True)() for _ in range(n)]))
    gb, rb = np.broadcast_to(gamma, crs + (n, n)), np.broadcast_to(rel, crs + (n, n))
    fac = batch(crs, [factor_mcn(gb[i], rb[i], method) for i in np.ndindex(*crs)], (2 * n, 2 * n))
    base = bshape(ls, crs)
    size = pick_size(R, base)
    shape = size_rule(size, base) if base is not None else None
    kw = {"method": method}
    if size is not None:
        kw["size"] = size
    args = {"loc": loc}
    if not nog:
        args["gamma"] = gamma
    if not nor:
        args["relation"] = rel
    kinds = [0] * (2 * n * count(shape)) if shape is not None else []
    perform(r, R, dict(op="mcn", loc=arr(loc), gamma=arr(gamma), rel=arr(rel), fac=fx(fac)), "multivariate_complex_normal", args, kw, kinds, spell)


def wish_once(r, R, spell, kind=None):
    n = R.choice([1, 2, 2, 3, 3])
    full, part = leading(R)
    ds, ss = spoil(R, part()), part()
    method = R.choice(["svd", "eigh", "cholesky", "factor"])
    df = stack(ds, lambda: np.int64(R.choice([1, 2, 3, 4, 5, n, n - 1 or 1, 12, 30])))
    rank = None
    if method == "factor":
        scale = stack(ss, lambda: np.array([[R.randrange(-4, 5) / 4 for _ in range(n)] for _ in range(n)]))
        fac = np.swapaxes(scale, -1, -2)
    elif kind == "rank":
        rank = R.randrange(1, n + 1)

        def low():
            while True:
                B = np.array([[R.randrange(-4, 5) / 4 for _ in range(rank)] for _ in range(n)])
                if np.linalg.svd(B)[1].min() > 0.3:
                    return B @ B.T
        scale = stack(ss, low)
        fac = batch(ss, [factor_wish(scale[i], method, rank) for i in np.ndindex(*ss)], (n, n))
    else:
        scale = stack(ss, lambda: covmat(R, n, kind) * 0.5)
        fac = batch(ss, [factor_wish(scale[i], method, None) for i in np.ndindex(*ss)], (n, n))
    base = bshape(ds, ss)
    size = pick_size(R, base)
    shape = None
    if base is not None:
        shape = base if size is None else size if len(size) >= len(base) and tuple(size[len(size) - len(base):]) == tuple(base) else None
    kw = {"method": method}
    if rank is not None:
        kw["rank"] = rank
    if size is not None:
        kw["size"] = size
    kinds = []
    if shape is not None and count(base):
        reps = count(shape) // count(base)
        kinds = [k for d in np.broadcast_to(df, base).ravel() for _ in range(reps) for k in wish_kinds(int(d), n)]
    dfa = df if np.ndim(df) else int(df)
    perform(r, R, dict(op="wish", given=method == "factor", df={"s": list(df.shape), "d": [int(x) for x in df.ravel()]}, scale=arr(scale), fac=fx(fac), kinds=kinds),
            "wishart", {"df": dfa, "scale": scale}, kw, kinds, spell)


def sw_once(r, R):
    n = R.choice([1, 2, 3, 4])
    df = R.choice([1, 2, 3, 4, 5, n, 12, 30])
    size = R.choice([None, (), (1,), (2,), (3, 2), (0,), (2, 0), (1, 1, 2), (4,)])
    kw = {}
    if size is not None:
        kw["size"] = size
    rescale = R.random() < 0.6
    if not rescale or R.random() < 0.3:
        kw["rescale"] = rescale
    kinds = wish_kinds(df, n) * (count(size) if size is not None else 1)
    perform(r, R, dict(op="sw", df=df, n=n, rescale=rescale, kinds=kinds), "standard_wishart", {"df": df, "dim": n}, kw, kinds, 0)


def t_shapes(which, n, spell=1):
    once = {"mvn": mvn_once, "cn": cn_once, "mcn": mcn_once, "wish": wish_once}

    def f(r, R):
        for _ in range(n):
            if which == "sw":
                sw_once(r, R)
            else:
                once[which](r, R, spell if R.random() < 0.7 else 0)
    return f


def t_values(which, n):
    def f(r, R):
        for _ in range(n):
            if which == "mvn":
                mvn_once(r, R, 0, kind=R.choice(["full", "singular", "strong", "int"]), nmax=4)
            elif which == "rank":
                wish_once(r, R, 0, "rank")
            elif which == "wish":
                wish_once(r, R, 0, R.choice(["full", "strong", "int"]))
            elif which == "cn":
                cn_once(r, R, 0)
            else:
                mcn_once(r, R, 0)
    return f


def t_validc(n):
    """Gaussian integers as gamma and relation, possible or not, with every reaction"""
    def f(r, R):
        for _ in range(n):
            which = R.choice(["cn", "cn", "mcn", "mcn", "mcnb"])
            d = 1 if which == "cn" else R.choice([1, 2, 2])
            z = lambda k: np.array([[complex(R.randrange(-k, k + 1), R.randrange(-k, k + 1)) for _ in range(d)] for _ in range(d)])
            c = R.random()
            if c < 0.45:      # a possible pair
                A, B = z(1), z(1)
                ga, re = A @ A.conj().T + B @ B.conj().T, A @ B.T + B @ A.T
            else:
                A = z(1)
                ga, re = A @ A.conj().T + R.choice([0, 1, 1, 2]) * np.eye(d), z(1)
                re = np.triu(re) + np.triu(re, 1).T
            if R.random() < 0.3:      # one entry off
                i, j = R.randrange(d), R.randrange(d)
                x = R.choice([1, -1, 1j, -1j, 2j])
                if R.randrange(2):
                    ga[i, j] += x
                else:
                    re[i, j] += x
            T = 0.5 * np.block([[(ga + re).real, -(ga - re).imag], [(ga + re).imag, (ga - re).real]])
            ev = np.linalg.eigvalsh((T + T.T) / 2)
            if np.any((np.abs(ev) < 1e-2) & (np.abs(ev) > 1e-12)):
                continue
            method, check = R.choice(["svd", "eigh", "cholesky"]), R.randrange(3)
            bg = bgen(R)
            st = copy.deepcopy(bg.state)
            g = ExtendedGenerator(bg)
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                try:
                    if which == "cn":
                        a, b = complex(ga[0, 0]), complex(re[0, 0])
                        how = R.randrange(4)
                        if how == 1:
                            a, b = np.array([a, 5.0]), np.array([b, 0.0])
                        elif how == 2:
                            a, b = np.array([[a]]), b
                        g.complex_normal(R.choice([0.0, 1j]) if R.randrange(2) else np.zeros((2, 1)), a, b, *((R.choice([None, (2, 2)]),) if how in (0, 3) else ()))
                    else:
                        kw = dict(method=method, check_valid=["ignore", "warn", "raise"][check])
                        if which == "mcnb":
                            one = np.eye(d) * (1 + 0j)
                            ga2, re2 = (np.array([ga, one]), np.array([re, 0 * one])) if R.randrange(2) else (np.array([one, ga]), np.array([0 * one, re]))
                        else:
                            ga2, re2 = ga, re
                        g.multivariate_complex_normal(np.zeros(d, complex), ga2, re2, **kw)
                    res = 1 if any(issubclass(x.category, RuntimeWarning) for x in w) else 0
                except (ValueError, np.linalg.LinAlgError):
                    res = 2
            fl = lambda m: [int(v) for x in m.ravel() for v in (x.real, x.imag)]
            r.add(op="validc", which=which, n=d, g=fl(ga), r=fl(re), method=method, check=check, res=[res], same=same_state(bg.state, st))
    return f


def t_misfit(n):
    """identity matrices of shapes that may or may not go together"""
    def f(r, R):
        def eye(shape, x=1.0):
            return np.broadcast_to(np.eye(*shape[-2:]), shape) * x if len(shape) >= 2 else np.full(shape, x)
        for _ in range(n):
            which = R.choice(["mvn", "mcn", "mcn", "wish"])
            d = R.choice([1, 2, 2, 3])
            lead = lambda: R.choice([(), (), (), (2,), (1,), (3, 2), (2, 1), (3,)])
            wrong = R.choice(["", "a", "b", "c", "lead"])

            def mat(bad):
                o = R.choice([x for x in (1, 2, 3, 4) if x != d])
                t = R.choice([(d, o), (o, d), (o, o), (d,), ()]) if bad else (d, d)
                return (lead() if wrong == "lead" else ()) + t if len(t) == 2 else t
            b, c = mat(wrong == "b"), mat(wrong == "c")
            a = (lead() if wrong == "lead" else ()) + (d,)
            if wrong == "a":
                a = R.choice([(), (d + 1,), (2, d + 1)])
            if which == "wish":
                a = lead() if wrong in ("a", "lead") else ()
            bg = bgen(R)
            st = copy.deepcopy(bg.state)
            g = ExtendedGenerator(bg)
            kw = {} if R.random() < 0.5 else {"method": R.choice(["svd", "eigh", "cholesky"])}
            try:
                if which == "mvn":
                    c = ()
                    quiet(lambda: g.multivariate_normal(np.zeros(a), eye(b), **kw))
                elif which == "mcn":
                    quiet(lambda: g.multivariate_complex_normal(np.zeros(a, complex), eye(b, 1.0 + 0j), eye(c, 0.25), **kw))
                else:
                    c = ()
                    quiet(lambda: g.wishart(np.full(a, 4) if a else 4, eye(b), **kw))
                res = 1
            except (ValueError, TypeError, np.linalg.LinAlgError):
                res = 0
            r.add(op="misfit", which=which, a=list(a), b=list(b), c=list(c), res=[res], same=same_state(bg.state, st))
    return f


def t_valid(n):
    """small integer matrices, valid or not, with every reaction"""
    def f(r, R):
        for _ in range(n):
            d = R.choice([1, 2, 2, 3, 3])
            if R.random() < 0.4:
                m = R.choice([d, max(d - 1, 1)])
                B = np.array([[R.randrange(-2, 3) for _ in range(m)] for _ in range(d)])
                c = B @ B.T
            else:
                c = np.array([[R.randrange(-3, 5) for _ in range(d)] for _ in range(d)])
                c = np.triu(c) + np.triu(c, 1).T
            ev = np.linalg.eigvalsh(c)
            if np.any((np.abs(ev) < 1e-2) & (np.abs(ev) > 1e-12)):
                continue
            method, check = R.choice(["svd", "eigh", "cholesky"]), R.randrange(3)
            bg = bgen(R)
            st = copy.deepcopy(bg.state)
            g = ExtendedGenerator(bg)
            how = R.choice(["mvn", "mvnb", "wish", "wishb"])
            kw = dict(method=method, check_valid=["ignore", "warn", "raise"][check])
            if how == "mvnb" or how == "wishb":     # one of several matrices
                cc = np.array([np.eye(d)] * 2 + [c]) if R.random() < 0.5 else np.array([c, np.eye(d)])
            else:
                cc = c
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                try:
                    if how[0] == "m":
                        g.multivariate_normal(np.zeros(d), cc, **kw)
                    else:
                        g.wishart(d + 1, cc, **kw)
                    res = 1 if any(issubclass(x.category, RuntimeWarning) for x in w) else 0
                except (ValueError, np.linalg.LinAlgError):
                    res = 2
            r.add(op="valid", how=how, n=d, cov=[int(x) for x in c.ravel()], method=method, check=check, res=[res], same=same_state(bg.state, st))
    return f
