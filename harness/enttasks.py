"""random_entropy on a scripted source (/repo's entropy module compiled with
c/entropy_shim.h) and seed_by_array, recorded for spec/EntTrace.tla."""
import ctypes
import fcntl
import importlib.machinery
import importlib.util
import os
import subprocess
import sysconfig
import warnings
from pathlib import Path

import numpy as np
import randomgen as rg

import corners
from profiles import ws64

HERE = Path(__file__).resolve().parent
_mod = None


def module():
    global _mod
    if _mod:
        return _mod
    pkg = Path(rg.__file__).parent
    dst = pkg.parent / ".entshim"
    so = dst / ("entropy" + sysconfig.get_config_var("EXT_SUFFIX"))
    with open(pkg.parent / ".entshim.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        shim = HERE / "c" / "entropy_shim.h"
        if not so.exists() or so.stat().st_mtime < shim.stat().st_mtime:
            dst.mkdir(exist_ok=True)
            inc = [pkg, np.get_include(), Path(np.get_include()) / "numpy" / "random", Path(np.get_include()) / "random", sysconfig.get_paths()["include"]]
            base = ["gcc", "-fPIC", "-O1", "-w", "-D_GNU_SOURCE", "-DNDEBUG", "-std=gnu99", "-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION"] + [f"-I{i}" for i in inc]
            objs = []
            for s, extra in [(pkg / "entropy.c", [])] + [(s, ["-include", str(shim)]) for s in sorted((pkg / "src" / "entropy").glob("*.c"))]:
                objs.append(str(dst / (s.parent.name + "-" + s.stem + ".o")))
                subprocess.run(base + extra + ["-c", str(s), "-o", objs[-1]], check=True, cwd=pkg.parent)
            subprocess.run(["gcc", "-shared", "-o", str(so) + ".tmp"] + objs, check=True)
            os.replace(str(so) + ".tmp", so)
    ld = importlib.machinery.ExtensionFileLoader("randomgen.entropy", str(so))
    m = importlib.util.module_from_spec(importlib.util.spec_from_file_location("randomgen.entropy", str(so), loader=ld))
    ld.exec_module(m)
    lib = ctypes.CDLL(str(so))
    m.vp = {k: ctypes.c_int.in_dll(lib, "vp_" + k) for k in ("next", "faults", "used", "pos", "open", "bad")}
    m.script = (ctypes.c_int * 4096).in_dll(lib, "vp_script")
    _mod = m
    return m


def t_entropy(steps):
    def f(r, R):
        m = module()
        vp = m.vp
        ctypes.memset(m.script, 0, 4 * 4096)
        for k in vp:
            vp[k].value = 0
        for _ in range(steps):
            src = R.choice(["system", "system", "auto", "auto", "fallback"])
            n = R.choice([1, 1, 2, 3, 7, 8, 64, 100])
            size = R.choice([n, n, (n,), (n, 1), (1, n, 1), np.int64(n)])
            if R.randrange(5) == 0:
                size, n = R.choice([(None, 1), ((), 1), (0, 0), ((0,), 0), ((3, 0), 0), ((2, 3), 6), ((2, 2, 2), 8), ((np.int32(2), 3), 6)])
            want = () if size is None else tuple(size) if isinstance(size, tuple) else (int(size),)
            nx = vp["next"].value
            for k in range(3):
                m.script[nx + k] = 0
            if R.randrange(2):
                k = R.randrange(3)
                m.script[nx + k] = 1 if k != 1 else R.choice([1, 2, 3, 5, 2 + 4 * n - 1, 2 + 4 * n // 2])
            vp["used"].value = vp["faults"].value = 0
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                try:
                    if R.randrange(3) == 0 and src == "system":
                        v = m.random_entropy(size)
                    elif R.randrange(2):
                        v = m.random_entropy(size=size, source=src)
                    else:
                        v = m.random_entropy(size, src)
                    ok = True
                except (RuntimeError, OSError):
                    v, ok = np.zeros(0, np.uint32), False
            warned = bool(ws)
            shape = isinstance(v, int) if size is None and ok else isinstance(v, np.ndarray) and v.shape == want and v.dtype == np.uint32
            words = np.asarray(v, dtype=np.uint32).ravel()
            hashed = src == "fallback" or warned
            r.add(op="entropy", src=src, n=n, ok=ok, warned=warned, faults=vp["faults"].value, used=vp["used"].value, pos=vp["pos"].value, open=vp["open"].value,
                  bad=vp["bad"].value, shape=bool(shape), set=bool((words != 0).all()), out=[] if hashed or not ok else list(words.astype("<u4").tobytes()))
            r.draws += n
            if R.randrange(6) == 0:
                vp["used"].value = 0
                bad = R.choice([lambda: m.random_entropy(3, "systems"), lambda: m.random_entropy(3, None), lambda: m.random_entropy(-1), lambda: m.random_entropy((2, -1)), lambda: m.random_entropy(2.5),
                                lambda: m.random_entropy("3"), lambda: m.random_entropy(2, source=1), lambda: m.random_entropy((2.0, 1))])
                try:
                    bad()
                    ok = True
                except Exception:
                    ok = False
                r.add(op="refused", ok=ok, used=vp["used"].value)
    return f


BAD = [-1, [-1], [1, -1], 2**64, [1, 2**64], 1.5, [1.5], [1, 2.5], "12", ["a"], b"1", [[1, 2], [3, 4]], np.array([[1, 2], [3, 4]]), np.array([1.5]), np.array([-1]), None, [None],
       3j, [1, 3j], float("nan"), [float("nan")], float("inf"), np.array(["1"]), np.array([2.0**64]), np.array([[-5]]), {"a": 1}, object()]


def t_split(n):
    def f(r, R):
        m = module()
        for _ in range(n):
            if R.randrange(8) == 0:
                b, k = R.choice(BAD), R.randrange(1, 5)
                bad, xs = True, []
            else:
                bad, k = False, R.choice([1, 1, 2, 3, 4, 5, 9])
                xs = [corners.word(R) for _ in range(R.choice([0, 1, 1, 2, 3, 4, 5, 8, 12]))]
                w = R.randrange(8)
                if w == 0 and xs:
                    xs = xs[:1]
                    b = R.choice([xs[0], np.uint64(xs[0]), np.array(xs[0], dtype=np.uint64), np.array([[xs[0]]], dtype=np.uint64), [xs[0]]])
                elif w == 1:
                    xs = [x % 2**31 for x in xs]
                    b = np.array(xs, dtype=R.choice([np.int64, np.int32, np.uint32, np.uint64, np.float64]))
                elif w == 2:
                    xs = [x % 2**53 for x in xs]
                    b = R.choice([np.array(xs, dtype=np.float64), [float(x) for x in xs], [x if j % 2 else float(x) for j, x in enumerate(xs)]])
                elif w == 3:
                    b = np.array([y for x in xs for y in (x, 7)], dtype=np.uint64)[::2]
                elif w == 4:
                    b = np.array(xs, dtype=object)
                elif w == 5:
                    b = np.array(xs, dtype=">u8")
                elif w == 6:
                    b = tuple(xs)
                else:
                    b = list(xs)
            before = repr(b)
            try:
                v = m.seed_by_array(b, k)
                ok = isinstance(v, np.ndarray) and v.dtype == np.uint64 and v.ndim == 1 and v.flags.owndata and repr(b) == before
            except Exception:
                v, ok = [], False
            r.add(op="split", bad=bad, seeds=ws64(xs), n=k, ok=bool(ok), out=ws64(v))
            r.draws += k
    return f
