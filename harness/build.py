"""Builds randomgen from /repo's current working tree in a scratch directory and
returns the directory to put on PYTHONPATH.  Content-addressed: the same sources
are built once."""
import fcntl, hashlib, os, shutil, subprocess, sys, time
from pathlib import Path

REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
WORK = Path(os.environ.get("VERIF_WORKDIR") or Path(__file__).resolve().parent.parent / ".work")
SKIP_SUFFIX = {".so", ".o", ".pyc", ".html"}


def source_hash():
    h = hashlib.sha256()
    files = [REPO / "setup.py"]
    for p in sorted((REPO / "randomgen").rglob("*")):
        if not p.is_file() or p.suffix in SKIP_SUFFIX or "__pycache__" in p.parts:
            continue
        rel = p.relative_to(REPO)
        if "tests" in rel.parts and p.suffix not in (".pyx", ".c", ".pxd"):
            continue
        if p.suffix == ".c" and p.with_suffix(".pyx").exists():
            continue
        if p.stem == "bounded_integers" and p.suffix != ".in":
            continue
        if p.name == "_version.py":
            continue
        files.append(p)
    for p in files:
        h.update(str(p.relative_to(REPO)).encode())
        h.update(b"\0")
        h.update(hashlib.sha256(p.read_bytes()).digest())
    return h.hexdigest()[:20]


def env():
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env -0"], stdout=subprocess.PIPE, check=True).stdout
    e = {}
    for kv in out.split(b"\0"):
        if b"=" in kv:
            k, v = kv.split(b"=", 1)
            e[k.decode()] = v.decode()
    return e


# the library as it is built for machines other than this one: no vector or cryptography
# instructions, no 128-bit integers, another optimiser or compiler
VARIANTS = {
    "portable": {"RANDOMGEN_NO_SSE2": "1",
                 "CFLAGS": "-O1 -U__SSE2__ -U__SSE3__ -U__SSSE3__ -U__SSE4_1__ -U__AES__ -DPCG_FORCE_EMULATED_128BIT_MATH=1 "
                           "-DR123_USE_GNU_UINT128=0 -DR123_USE_MULHILO64_ASM=0 -DR123_USE_MULHILO32_ASM=0 -DR123_USE_MULHILO64_C99=1"},
    "clang": {"CC": "ccache clang", "CXX": "ccache clang++", "CFLAGS": "-O2"},
}


def build(variant=None):
    WORK.mkdir(exist_ok=True)
    name = variant or "build"
    with open(WORK / f"{name}.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        key = source_hash()
        dst = WORK / f"{name}-{key}"
        if (dst / ".ok").exists():
            os.utime(dst)
            return dst
        olds = sorted(WORK.glob(f"{name}-*[!k]"), key=lambda p: p.stat().st_mtime)
        for old in olds[:-1]:
            shutil.rmtree(old, ignore_errors=True)
        if dst.exists():
            shutil.rmtree(dst)
        shutil.copytree(REPO, dst, symlinks=True, ignore=shutil.ignore_patterns(".git", "vp-report", "__pycache__", "doc"))
        e = {**env(), **VARIANTS.get(variant, {})}
        t = time.time()
        r = subprocess.run(["python", "/opt/vp/run_setup.py"], cwd=dst, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stderr.write(r.stdout[-4000:])
            raise SystemExit(3)
        r = subprocess.run(["python", "-c", "import randomgen; print(randomgen.__file__)"], cwd="/", env={**e, "PYTHONPATH": str(dst)},
                           stdout=subprocess.PIPE, text=True, check=True)
        assert r.stdout.startswith(str(dst)), r.stdout
        (dst / ".ok").write_text(f"{time.time() - t:.1f}")
        return dst


if __name__ == "__main__":
    print(build())
