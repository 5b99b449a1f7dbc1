"""RDRAND on a scripted processor: /repo's rdrand module compiled with an instruction
stand-in (c/rdrand_shim.h), driven through every path, recorded for spec/RdTrace.tla."""
import copy
import ctypes
import fcntl
import importlib.machinery
import importlib.util
import os
import pickle
import subprocess
import sys
import sysconfig
from pathlib import Path

import numpy as np
import randomgen as rg

HERE = Path(__file__).resolve().parent
_mod = None


def module():
    """the rdrand extension of the current tree, with the stand-in"""
    global _mod
    if _mod:
        return _mod
    pkg = Path(rg.__file__).parent
    dst = pkg.parent / ".rdshim"
    so = dst / ("rdrand" + sysconfig.get_config_var("EXT_SUFFIX"))
    with open(pkg.parent / ".rdshim.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = (HERE / "c" / "rdrand_shim.h").stat().st_mtime
        if not so.exists() or so.stat().st_mtime < stamp:
            dst.mkdir(exist_ok=True)
            src = [pkg / "rdrand.c"] + sorted((pkg / "src" / "rdrand").glob("*.c")) + [pkg / "src" / "common" / "cpu_features.c"]
            inc = [pkg, np.get_include(), Path(np.get_include()) / "numpy" / "random", Path(np.get_include()) / "random", sysconfig.get_paths()["include"]]
            cmd = (["gcc", "-shared", "-fPIC", "-O1", "-w", "-D_GNU_SOURCE", "-DNDEBUG", "-std=gnu99", "-msse2", "-mrdrnd", "-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION",
                    "-include", str(HERE / "c" / "rdrand_shim.h"), "-o", str(so) + ".tmp"]
                   + [f"-I{i}" for i in inc] + [str(s) for s in src])
            subprocess.run(cmd, check=True, cwd=pkg.parent)
            os.replace(str(so) + ".tmp", so)
    ld = importlib.machinery.ExtensionFileLoader("randomgen.rdrand", str(so))
    spec = importlib.util.spec_from_file_location("randomgen.rdrand", str(so), loader=ld)
    m = importlib.util.module_from_spec(spec)
    ld.exec_module(m)
    rg.rdrand = m
    sys.modules["randomgen.rdrand"] = m        # pickles name the class by its module
    lib = ctypes.CDLL(str(so))
    m.vp_pos = ctypes.c_uint.in_dll(lib, "vp_pos")
    m.vp_fail = (ctypes.c_ubyte * 65536).in_dll(lib, "vp_fail")
    _mod = m
    return m


def n64(x):
    x = int(x)
    k = x & 0xFFFF
    return k if x == k * 0x0001000100010001 else 0


def n32(x):
    x = int(x)
    k = x & 0xFFFF
    return k if x == k * 0x00010001 else 0


def nd(x):
    y = float(x) * 2.0**53
    k = int(y) >> 37
    return k if y == int(y) and int(y) == (k * 0x0001000100010001) >> 11 else 0


def flat(x):
    return np.asarray(x).ravel().tolist() if not isinstance(x, (int, float)) else [x]


def held(st):
    """the buffer, where it holds anything"""
    return [n64(x) for x in st["buffer"]] if st["status"] == 1 and st["buffer_loc"] < 256 else []


def draws(bg):
    """(name, words wanted -> result, decoder or None) through the function table"""
    gen, ext = np.random.Generator(bg), rg.ExtendedGenerator(bg)
    return [
        ("integers64", lambda n: gen.integers(0, 2**64, dtype=np.uint64, size=n), n64),
        ("integers32", lambda n: gen.integers(0, 2**32, dtype=np.uint32, size=n), n32),
        ("random", lambda n: gen.random(n), nd),
        ("random1", lambda n: [gen.random() for _ in range(1)], nd),
        ("uintegers64", lambda n: ext.uintegers(n, bits=64), n64),
        ("uintegers32", lambda n: ext.uintegers(n, bits=32), n32),
        ("extrandom", lambda n: ext.random(n), nd),
        ("uinteger1", lambda n: [ext.uintegers(bits=64)], n64),
        ("bytes", lambda n: gen.bytes(4 * n), "bytes"),
        ("uniform", lambda n: gen.uniform(0, 1, size=n), nd),
    ]


def t_rd(steps):
    def f(r, R):
        m = module()
        m.vp_pos.value = 1
        ctypes.memset(m.vp_fail, 0, 65536)
        objs = {}
        n_obj = [0]

        def pos():
            return int(m.vp_pos.value)

        def add(bg, **e):
            n_obj[0] += 1
            objs[n_obj[0]] = bg
            r.add(o=n_obj[0], **e)
            return n_obj[0]

        def get(o):
            st = objs[o].state
            r.add(op="get", o=o, up=st["status"] == 1, success=bool(objs[o].success), retries=int(st["retries"]), loc=int(st["buffer_loc"]),
                  out=held(st), p=pos())

        def call(o, op, n, fn, dec):
            bg = objs[o]
            try:
                v = fn(n)
                ok = True
            except (RuntimeError, SystemError) as x:
                v, ok = x, False
            shown = ok and dec is not None
            out = []
            if shown:
                out = [n32(x) for x in np.frombuffer(v, dtype=np.uint32)] if dec == "bytes" else [dec(x) for x in flat(v)]
            r.add(op=op, o=o, n=n, ok=ok, shown=shown, out=out, p=pos())
            r.draws += n

        retries = R.choice([0, 1, 2, 3, 10, 10])
        add(m.RDRAND(retries=retries) if R.random() < 0.7 or retries != 10 else m.RDRAND(), op="new", retries=retries)
        for _ in range(steps):
            if pos() > 60000:
                break
            o = R.choice(list(objs))
            bg = objs[o]
            c = R.random()
            if c < 0.2:     # trouble ahead
                rt = int(bg.state["retries"])
                at = pos() + R.choice([0, 0, 1, 2, 5, 100, 254, 255, 256, 257, R.randrange(1, 600)])
                ln = R.choice([1, max(rt, 1), max(rt, 1), rt + 1, rt + 1, rt + 2, 2 * rt + 2, 40, 300])
                fl = [k for k in range(at, min(at + max(ln, 1), 65535))]
                if R.random() < 0.3:
                    fl = [k for k in fl if k == at or R.random() < 0.6]
                for k in fl:
                    m.vp_fail[k] = 1
                r.add(op="cpu", fail=fl)
            elif c < 0.4:
                k = R.randrange(4)
                n = R.choice([1, 2, 7, 50])
                if k == 0:
                    call(o, "raw", 1, lambda n: bg.random_raw(), n64)
                elif k == 1:
                    call(o, "raw", n, lambda n: bg.random_raw(n), n64)
                elif k == 2:
                    call(o, "raw", n, lambda n: bg.random_raw(n, output=False), None)
                else:
                    call(o, "raw", 2 * n, lambda n: bg.random_raw((2, n // 2)), n64)
            elif c < 0.75:
                name, fn, dec = R.choice(draws(bg))
                n = 1 if name.endswith("1") else R.choice([1, 1, 2, 3, 60, 255, 256, 257, 300, 520])
                call(o, "draw", n, fn, dec)
            elif c < 0.82:
                get(o)
            elif c < 0.9:
                bg._reset()
                r.add(op="resetobj", o=o)
            elif c < 0.93:
                n = R.choice([-1, 0, 1, 2, 10])
                st = bg.state
                st["retries"] = n
                if R.random() < 0.3:
                    st["status"] = 1
                    st["buffer_loc"] = R.choice([0, 5, 256])
                    st["buffer"] = np.arange(256, dtype=np.uint64)
                bg.state = st
                r.add(op="retries", o=o, n=n)
            elif c < 0.97 and len(objs) < 5:
                k = R.randrange(4)
                new = [lambda: bg.jumped(), lambda: copy.copy(bg), lambda: copy.deepcopy(bg), lambda: pickle.loads(pickle.dumps(bg))][k]()
                add(new, op="derived", src=o)
                get(n_obj[0])
            else:
                bad = R.choice([lambda: bg.seed(1), lambda: m.RDRAND(retries=-1), lambda: m.RDRAND(3), lambda: bg.random_raw(-1), lambda: bg.random_raw("x"),
                                lambda: setattr(bg, "state", {"bit_generator": "RDRAND"}), lambda: setattr(bg, "state", 3)])
                try:
                    bad()
                    ok = True
                except Exception:
                    ok = False
                r.add(op="refused", o=o, ok=ok, p=pos())
        for o in objs:
            get(o)
    return f


def t_single(steps):
    """every place of a failure relative to the buffer, for every number of retries"""
    def f(r, R):
        m = module()
        for retries in R.sample([0, 1, 2, 10], 2):
            for place in R.sample([0, 1, 128, 254, 255], 3):
                for extra in (0, 1):
                    r.add(op="reset")
                    m.vp_pos.value = 1
                    ctypes.memset(m.vp_fail, 0, 65536)
                    bg = m.RDRAND(retries=retries)
                    r.add(op="new", o=1, retries=retries)
                    start = 1 + R.choice([0, 256])
                    fl = list(range(start + place, start + place + retries + extra))
                    for k in fl:
                        m.vp_fail[k] = 1
                    r.add(op="cpu", fail=fl)
                    for _ in range(steps):
                        name, fn, dec = R.choice(draws(bg)[:8])
                        n = 1 if name.endswith("1") else R.choice([1, 40, 130])
                        try:
                            v = fn(n)
                            ok = True
                        except (RuntimeError, SystemError):
                            ok = False
                        r.add(op="draw", o=1, n=n, ok=ok, shown=ok, out=[dec(x) for x in flat(v)] if ok else [], p=int(m.vp_pos.value))
                        r.draws += n
                    st = bg.state
                    r.add(op="get", o=1, up=st["status"] == 1, success=bool(bg.success), retries=int(st["retries"]), loc=int(st["buffer_loc"]),
                          out=held(st), p=int(m.vp_pos.value))
    return f
