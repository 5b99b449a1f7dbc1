"""Runs TLC on a specification, in parallel over many inputs."""
import concurrent.futures as cf
import os, re, shutil, subprocess, tempfile
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
WORK = VERIF / ".work"
JAR = "/opt/veriftools/tla/tla2tools.jar"


class Result:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m[1]) if m else 0
        self.states = int(m[2]) if m else 0
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[1]) if m else 0
        self.ok = rc == 0 and "No error has been found" in out

    def failed_at(self, n):
        """1-based line of the trace that is not a step; None when there is no verdict"""
        if self.ok or self.rc == 99:
            return None
        o = self.out
        if "arsing or semantic analysis failed" in o or "OutOfMemory" in o or "Java heap space" in o or "Could not find" in o:
            return None
        if self.depth and "ostcondition" in o:
            return self.depth if self.depth <= n else None
        ks = [int(k) for k in re.findall(r"^State (\d+):", o, re.M)]
        if ks:                      # the evaluation of a step failed: ill-formed values
            return max(ks) if max(ks) <= n else None
        return None


def tlc(module, cfg, env=None, workers=1, heap="2g", extra=(), timeout=800, spec=SPEC):
    WORK.mkdir(exist_ok=True)
    md = tempfile.mkdtemp(prefix="md-", dir=WORK)
    e = dict(os.environ)
    e.update(env or {})
    cp = f"{JAR}:/opt/veriftools/tla/CommunityModules-deps.jar"
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:TieredStopAtLevel=1", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-cp", cp, "tlc2.TLC",
           "-config", cfg, "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", *extra, module]
    try:
        p = subprocess.run(cmd, cwd=spec, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return Result(p.returncode, p.stdout)
    except subprocess.TimeoutExpired as x:
        return Result(99, (x.stdout or b"").decode() if isinstance(x.stdout, bytes) else (x.stdout or "") + "\nTIMEOUT")
    finally:
        shutil.rmtree(md, ignore_errors=True)


def parallel(jobs, n=8):
    """jobs: list of kwargs for tlc(); results in order"""
    with cf.ThreadPoolExecutor(n) as ex:
        return list(ex.map(lambda k: tlc(**k), jobs))
