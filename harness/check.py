"""check.py PROPERTY TIER: decides one property on /repo's current working tree.

1. builds the library, 2. lets TLC generate schedules from spec/BitGen.tla, 3. carries
them out on the real library in several processes, recording traces, 4. lets TLC check
every trace against the specification, 5. reports."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time
from pathlib import Path

import build
import props
import schedules
import tlc

VERIF = Path(__file__).resolve().parent.parent
WORK = build.WORK
NPROC = int(os.environ.get("VERIF_JOBS", "8"))


def known_findings(prop):
    p = VERIF / "known_findings.json"
    if not p.exists():
        return {}
    d = json.loads(p.read_text())
    return {f["segment"]: f for f in d["findings"] if f["property"] == prop}


def drivers(prop, tier, seed, out, env, stall):
    """runs the recording processes; a crash or hang becomes an event of the trace"""
    def one(sh):
        start = 0
        for _ in range(12):
            cur = out / f"cur-{sh}.json"
            log = open(out / f"log-{sh}-{start}.txt", "w")
            p = subprocess.Popen(["python", str(VERIF / "harness" / "driver.py"), prop, tier, str(seed), str(out), str(sh), str(NPROC), str(start)],
                                 env=env, cwd=out, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
            last, since, hung = None, time.time(), False
            while True:
                try:
                    p.wait(1)
                    break
                except subprocess.TimeoutExpired:
                    now = cur.read_text() if cur.exists() else None
                    if now != last:
                        last, since = now, time.time()
                    elif time.time() - since > stall:
                        hung = True
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        break
            log.close()
            if p.returncode == 0:
                return None
            if not cur.exists() or (p.returncode > 0 and not hung):
                return f"driver {sh} failed: " + Path(log.name).read_text()[-3000:]
            m = json.loads(cur.read_text())
            with open(out / m["file"], "a") as f:
                f.write("\n" + json.dumps({"op": "hang" if hung else "crash", "sig": -p.returncode}) + "\n")
            m["events"] = sum(1 for _ in open(out / m["file"]))
            with open(out / f"stats-{sh}.ndjson", "a") as f:
                f.write(json.dumps({"segments": [m], "ops": {}, "draws": 0, "aborted": [m["name"]]}) + "\n")
            start = m["index"] + 1
        return None

    with cf.ThreadPoolExecutor(NPROC) as ex:
        errs = [e for e in ex.map(one, range(NPROC)) if e]
    if errs:
        sys.stderr.write(errs[0] + "\n")
        raise SystemExit(3)


def bins(segs, n):
    total = sum(s["cost"] for s in segs)
    n = max(1, min(n, int(total / 3) + 1, len(segs)))
    bs = [[0.0, []] for _ in range(n)]
    for s in sorted(segs, key=lambda s: -s["cost"]):
        b = min(bs, key=lambda b: b[0])
        b[0] += s["cost"]
        b[1].append(s)
    return [b[1] for b in bs if b[1]]


def clean_lines(p):
    """complete lines of a trace file (a crash can leave a torn one)"""
    ls = []
    for l in p.read_text().splitlines():
        if l.strip():
            try:
                json.loads(l)
            except ValueError:
                continue
            ls.append(l)
    return ls


class Checker:
    def __init__(self, prop, out, timeout):
        self.prop, self.out, self.timeout = prop, out, timeout
        self.states = self.trans = self.traces = 0
        self.bad = []          # (segment, line number, text)
        self.errors = []
        self.nfile = 0

    def trace_file(self, segs):
        import threading
        with getattr(self, "_lock", None) or self.__dict__.setdefault("_lock", threading.Lock()):
            self.nfile += 1
            f = self.out / f"run-{self.nfile}.ndjson"
        idx = []
        with open(f, "w") as w:
            for s in segs:
                ls = clean_lines(self.out / s["file"])
                idx += [(s, k) for k in range(len(ls))]
                w.write("\n".join(ls) + "\n")
        return f, idx

    def run(self, module, segs):
        f, idx = self.trace_file(segs)
        r = tlc.tlc(module + ".tla", module + ".cfg", env={"TRACE": str(f)}, timeout=self.timeout, heap="3g", extra=("-deadlock",))
        return r, f, idx

    def check(self, module, segs):
        segs = list(segs)
        while segs and len(self.bad) < 40:
            r, f, idx = self.run(module, segs)
            self.states += r.states
            self.trans += max(0, r.generated - 1)
            if r.ok:
                self.traces += len(segs)
                f.unlink()
                return
            at = r.failed_at(len(idx))
            if at is None:
                self.errors.append(f"{module}: TLC gave no verdict: {r.out[:300]} ... {r.out[-1500:]}")
                return
            s, k = idx[at - 1]
            # once more, the segment alone
            r2, f2, idx2 = self.run(module, [s])
            at2 = r2.failed_at(len(idx2))
            if r2.ok or at2 is None:
                self.errors.append(f"{module}: verdict on {s['name']} not reproducible: {r2.out[-1500:]}")
                return
            lines = clean_lines(self.out / s["file"])[:at2]
            self.bad.append((s, at2, lines, module))
            j = segs.index(s)
            self.traces += j
            segs = segs[j + 1:]

    def corrupted(self, module, segs):
        """the checker must refuse a trace with one altered observation"""
        for s in sorted(segs, key=lambda s: s["cost"]):
            if s["name"] in {b[0]["name"] for b in self.bad}:
                continue
            ls = clean_lines(self.out / s["file"])
            for i, l in enumerate(ls):
                e = json.loads(l)
                for key in ("out", "val", "res"):
                    if isinstance(e.get(key), list) and e[key]:
                        x = e[key]
                        while isinstance(x[-1], list) and x[-1]:
                            x = x[-1]
                        if not isinstance(x[-1], int) or isinstance(x[-1], bool):
                            continue
                        x[-1] ^= 1 << 16 if module == "MatTrace" else 1        # reals are compared with a tolerance
                        f = self.out / f"corrupt-{module}.ndjson"
                        f.write_text("\n".join(ls[:i] + [json.dumps(e)]) + "\n")
                        r = tlc.tlc(module + ".tla", module + ".cfg", env={"TRACE": str(f)}, timeout=self.timeout, extra=("-deadlock",))
                        return r.failed_at(i + 1) == i + 1
        return None


def short(line):
    return line if len(line) < 600 else line[:600] + "..."


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    lib = build.build(props.PROPS[prop].get("variant"))
    t_build = time.time() - t0
    env = build.env()
    env["PYTHONPATH"] = f"{lib}:{VERIF}/harness"
    env.update(PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", VERIF_LIB=str(lib))
    if prop == "F01" and subprocess.run(["python", "-c", "import rdtasks; rdtasks.module()"], cwd="/", env=env).returncode:
        sys.stderr.write("the hardware generator cannot be built with a scripted processor\n")
        raise SystemExit(3)
    out = WORK / f"run-{prop}-{tier}-{os.getpid()}"
    out.mkdir(parents=True)
    try:
        rc = decide(prop, tier, seed, out, env, t0, t_build)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(out, ignore_errors=True)
    raise SystemExit(rc)


def decide(prop, tier, seed, out, env, t0, t_build):
    info = props.PROPS[prop]
    deep = tier == "thorough"
    t = time.time()
    gs, gt, models = 0, 0, []
    if info.get("kinds"):
        gs, gt = schedules.generate(info["kinds"], out, seed, 6 if deep else 1)
        models.append({"module": "BitGen", "kinds": info["kinds"], "states": gs, "transitions": gt})
    for m in info.get("models", []):
        if m.get("thorough") and not deep:
            continue
        walks = m.get("walks")
        if walks:
            name, num, depth = walks
            extra = ["-simulate", f"num={num * (8 if deep else 1)}", "-depth", str(depth), "-seed", str(seed)]
        else:
            extra = ["-deadlock"]
        r = tlc.tlc(m["module"] + ".tla", m["cfg"], workers=1 if walks else m.get("workers", 4), extra=extra, timeout=m.get("timeout", 600), heap="4g")
        if m.get("fails"):
            if "is violated" not in r.out:
                sys.stderr.write(f"model {m['module']} {m['cfg']} should fail: {r.out[-2000:]}\n")
                return 3
        elif not (r.ok or (walks and r.rc == 0 and "violated" not in r.out)):
            sys.stderr.write(f"model {m['module']} fails: {r.out[-3000:]}\n")
            return 3
        if walks:
            (out / f"walks-{name}.json").write_text(json.dumps(schedules.walks_of(r.out)))
            g = re.search(r"The number of states generated: (\d+)", r.out)
            r.generated = int(g[1]) if g else 0
        models.append({"module": m["module"], "cfg": m["cfg"], "states": r.states, "transitions": r.generated})
        gs += r.states
        gt += r.generated
    t_sched = time.time() - t
    t = time.time()
    drivers(prop, tier, seed, out, env, 150 if deep else 60)
    t_drive = time.time() - t
    stats = []
    for f in sorted(out.glob("stats-*.ndjson")):
        stats += [json.loads(l) for l in f.read_text().splitlines()]
    segs = [s for st in stats for s in st["segments"]]
    if not segs:
        sys.stderr.write("no traces recorded\n")
        return 3
    ops, draws = {}, 0
    for st in stats:
        draws += st["draws"]
        for k, v in st["ops"].items():
            ops[k] = ops.get(k, 0) + v
    t = time.time()
    ck = Checker(prop, out, 3000 if deep else 700)
    known = known_findings(prop)
    mods = sorted({s["module"] for s in segs})
    jobs = []
    for m in mods:
        jobs += [(m, b) for b in bins([s for s in segs if s["module"] == m], NPROC)]
    jobs.sort(key=lambda j: -sum(s["cost"] for s in j[1]))
    with cf.ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(lambda j: ck.check(*j), jobs))
        guards = list(ex.map(lambda m: ck.corrupted(m, [s for s in segs if s["module"] == m]), mods))
    t_tlc = time.time() - t
    if ck.errors:
        for e in ck.errors:
            sys.stderr.write(e + "\n")
        if not ck.bad:
            return 3
    if any(g is False for g in guards):
        sys.stderr.write(f"a corrupted trace was accepted: {dict(zip(mods, guards))}\n")
        return 3
    violations, rc = [], 0
    rdir = WORK / "replay"
    rdir.mkdir(exist_ok=True)
    for old in rdir.glob(f"{prop}-*"):
        old.unlink()
    for k, (s, at, lines, module) in enumerate(sorted(ck.bad, key=lambda b: b[0]["name"])):
        if s["name"] in known and at == known[s["name"]].get("line", at):
            print(f"KNOWN-FINDING: property={prop} {known[s['name']]['what']} [{s['name']}]")
            violations.append({"segment": s["name"], "known": True})
            continue
        f = rdir / f"{prop}-{k}.{module}.ndjson"
        f.write_text("\n".join(lines) + "\n")
        print(f"VIOLATION property={prop} replay={f}")
        print(f"  segment {s['name']}: line {at} is not a step of {module}: {short(lines[-1])}")
        violations.append({"segment": s["name"], "line": at, "event": short(lines[-1])})
        rc = 1
    wall = time.time() - t0
    rej = {b[0]["name"] for b in ck.bad}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": info["level"],
        "coverage": {
            "states": gs + ck.states, "transitions": gt + ck.trans, "traces_validated_against_impl": ck.traces,
            "samples": draws, "events": sum(s["events"] for s in segs), "operations": ops, "models": models,
            "trace_modules": {m: sum(1 for s in segs if s["module"] == m) for m in mods},
            "segments": len(segs), "rejected": len(ck.bad), "corrupted_trace_refused": dict(zip(mods, guards)),
            "example_segments": sorted(s["name"] for s in segs if s["name"] not in rej)[:: max(1, len(segs) // 12)][:14],
            "seconds": {"build": round(t_build, 1), "schedules": round(t_sched, 1), "recording": round(t_drive, 1), "trace_checking": round(t_tlc, 1)},
        },
        "assumptions": info["assumptions"],
        "violations": violations,
        "wall_s": round(wall, 1),
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1) + "\n")
    print(f"{prop} {tier}: {len(segs)} traces, {ev['coverage']['events']} events, {draws} draws checked; "
          f"{len(ck.bad)} rejected; build {t_build:.0f} s, schedules {t_sched:.0f} s, recording {t_drive:.0f} s, checking {t_tlc:.0f} s, all {wall:.0f} s")
    return rc


if __name__ == "__main__":
    main()
