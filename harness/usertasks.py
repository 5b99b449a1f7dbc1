"""Bit generators made from callbacks (U01)."""
import ctypes as ct
import gc
import subprocess
import tempfile
from pathlib import Path

import numpy as np
import randomgen as rg

import corners
from access import Handle, flat, ints
from profiles import w32, w64
from rec import enc

NAMES = ("raw", "f64", "f32", "fdbl")
LEN = 400


def scripts(R, bits):
    def u(b):
        return corners.word(R, b)
    return {"raw": [u(bits) for _ in range(LEN)], "f64": [u(64) for _ in range(LEN)], "f32": [u(32) for _ in range(LEN)],
            "fdbl": [u(53) for _ in range(LEN)]}


class User:
    """one user generator with its log"""

    def __init__(self, r, R, bits, given, kind):
        self.r, self.R, self.bits, self.given = r, R, bits, given
        self.sc = scripts(R, bits)
        self.log = []
        self.asked = 0
        self.box = {"st": R.randrange(1000)}
        getter, setter = bool(R.randrange(4)), bool(R.randrange(4))
        buf = (ct.c_uint64 * 4)()
        self.keep = buf
        ptr = None
        if kind != "python" or R.randrange(2):
            ptr = ct.c_void_p(ct.addressof(buf))
        self.ptr = str(ptr.value if ptr is not None else None)
        pos = dict.fromkeys(NAMES, 0)

        def cb(name):
            def f(p):
                self.log.append([name, str(p)])
                x = self.sc[name][pos[name]]
                pos[name] += 1
                return x / 2.0**53 if name == "fdbl" else x
            return f

        def get():
            self.asked += 1
            return self.box["st"]

        def set_(v):
            self.asked += 1
            self.box["st"] = v
        opt = dict(state_getter=get if getter else None, state_setter=set_ if setter else None)
        if kind == "python":
            kw = {"next_64": "f64", "next_32": "f32", "next_double": "fdbl"}
            kw = {k: cb(v) for k, v in kw.items() if v in given}
            self.bg = r.call("UserBitGenerator", rg.UserBitGenerator, cb("raw"), bits, state=ptr, **kw, **opt)
        else:
            U64, U32, DBL = ct.CFUNCTYPE(ct.c_uint64, ct.c_void_p), ct.CFUNCTYPE(ct.c_uint32, ct.c_void_p), ct.CFUNCTYPE(ct.c_double, ct.c_void_p)
            if kind == "ctypes":
                fs = [U64(cb("raw")), U64(cb("f64")), U32(cb("f32")), DBL(cb("fdbl"))]
            else:
                lib = self.compiled()
                fs = [lib.next_raw, lib.next_64, lib.next_32, lib.next_dbl]
                for f, t in zip(fs, (ct.c_uint64, ct.c_uint64, ct.c_uint32, ct.c_double)):
                    f.restype, f.argtypes = t, [ct.c_void_p]
                ptr = ct.cast(ct.pointer(self.cs), ct.c_void_p)
                self.ptr = str(ptr.value)
            self.bg = r.call("from_ctypes", rg.UserBitGenerator.from_ctypes, *fs, ptr, **opt)
            del fs
        self.kind = kind
        self.o = r._id(self.bg, None)
        enc_ = {"raw": w64, "f64": w64, "f32": w32, "fdbl": w64}
        r.add(op="user", o=self.o, bits=bits, given=sorted(given), ptr=self.ptr, st=self.box["st"], getter=getter, setter=setter,
              script={k: [enc_[k](x) for x in v] for k, v in self.sc.items()})
        if R.randrange(2):
            gc.collect()

    def compiled(self):
        d = tempfile.mkdtemp()
        src = Path(__file__).parent / "c" / "usergen.c"
        so = Path(d) / "usergen.so"
        subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", str(so), str(src)], check=True)
        lib = ct.CDLL(str(so))
        so.unlink()
        Path(d).rmdir()

        class S(ct.Structure):
            _fields_ = [("raw", ct.POINTER(ct.c_uint64)), ("f64", ct.POINTER(ct.c_uint64)), ("f32", ct.POINTER(ct.c_uint64)),
                        ("fdbl", ct.POINTER(ct.c_double)), ("pos", ct.c_long * 4), ("log", ct.c_char * (1 << 16)), ("n", ct.c_long)]
        arr = [(ct.c_uint64 * LEN)(*self.sc[k]) for k in ("raw", "f64", "f32")] + [(ct.c_double * LEN)(*[x / 2.0**53 for x in self.sc["fdbl"]])]
        self.keep = arr
        self.cs = S(*[ct.cast(a, t) for a, t in zip(arr, (ct.POINTER(ct.c_uint64),) * 3 + (ct.POINTER(ct.c_double),))])
        return lib

    def calls(self):
        if self.kind == "compiled":
            raw = ct.string_at(ct.addressof(self.cs) + type(self.cs).log.offset, self.cs.n)
            out = [[NAMES[b], self.ptr] for b in raw]
            self.cs.n = 0
            return out
        out, self.log = self.log, []
        return out


CONFIGS = [(b, g, "python") for b in (64, 32) for m in range(8) for g in [[n for i, n in enumerate(NAMES[1:]) if m >> i & 1]]] \
    + [(64, list(NAMES[1:]), "ctypes"), (64, list(NAMES[1:]), "compiled")]


def t_user(bits, given, kind, n):
    def f(r, R):
        us = [User(r, R, bits, given, kind) for _ in range(2)]
        handles = []
        for _ in range(n):
            u = R.choice(us)
            bg = u.bg
            w = R.randrange(12)
            if w == 0:
                u.asked = 0
                try:
                    v, ok = bg.state, True
                except NotImplementedError:
                    v, ok = -1, False
                r.add(op="uget", o=u.o, ok=ok, out=v, asked=u.asked, calls=u.calls())
            elif w == 1:
                u.asked = 0
                val = R.randrange(1000)
                try:
                    bg.state = val
                    ok = True
                except NotImplementedError:
                    ok = False
                r.add(op="uset", o=u.o, ok=ok, val=val, stored=u.box["st"], asked=u.asked, calls=u.calls())
            elif w == 2:
                k = R.choice([0, 1, 2, 5])
                how = R.randrange(3)
                if how == 0:
                    r.call("random_raw", bg.random_raw, k, False)
                    v = "raw"
                else:
                    v = "n64" if how == 1 else "dbl"
                    r.call("_benchmark", bg._benchmark, k, "uint64" if how == 1 else "double")
                r.add(op="skip", o=u.o, v=v, n=k, calls=u.calls())
            elif w in (3, 4):
                k = R.choice([None, 0, 1, 3, (2, 2)])
                xs = ints(r.call("random_raw", bg.random_raw, k))
                r.add(op="draw", o=u.o, v="raw", out=[w64(x) for x in xs], calls=u.calls())
            else:
                if len(handles) < 5 or R.randrange(6) == 0:
                    k = R.choice(Handle.KINDS)
                    h = r.call(k, Handle, bg, k)
                    c = u.calls()
                    if c:
                        r.add(op="draw", o=u.o, v="raw", out=[], calls=c)      # wrapping draws nothing
                    handles.append((u, h))
                u, h = R.choice(handles)
                v = R.choice(sorted(h.HAS[h.kind] - {"npf", "flt", "ld", "bytes"}))
                v, xs = r.call(h.kind, h.take, v, R.choice([1, 1, 1, 2, 3]), R)
                r.add(op="draw", o=u.o, v=v, out=[enc(v, x) for x in xs], calls=u.calls())
                r.draws += len(xs)
            if R.randrange(10) == 0:
                gc.collect()
    return f


def t_user_bad(r, R):
    """what cannot be a generator is refused"""
    for bits in (0, 16, 31, 63, 65, 128, -32):
        try:
            rg.UserBitGenerator(lambda p: 1, bits)
        except ValueError:
            r.add(op="refused")
            continue
        r.add(op="error", what=f"bits={bits} accepted")
    U64, U32, DBL = ct.CFUNCTYPE(ct.c_uint64, ct.c_void_p), ct.CFUNCTYPE(ct.c_uint32, ct.c_void_p), ct.CFUNCTYPE(ct.c_double, ct.c_void_p)
    good = [U64(lambda p: 1), U64(lambda p: 1), U32(lambda p: 1), DBL(lambda p: 0.5)]
    for i in range(4):
        for bad in [lambda p: 1, U32(lambda p: 1) if i != 2 else U64(lambda p: 1), DBL(lambda p: 0.5) if i != 3 else U64(lambda p: 1), None, 5]:
            fs = list(good)
            fs[i] = bad
            try:
                rg.UserBitGenerator.from_ctypes(*fs, None)
            except TypeError:
                r.add(op="refused")
                continue
            r.add(op="error", what=f"callback {i} {bad} accepted")
