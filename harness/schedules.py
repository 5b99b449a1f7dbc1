"""Generates schedules with TLC from spec/BitGen.tla: complete transition sets of small
instances (one object) and random walks of larger ones (several objects, saved states)."""
import json, re, sys
from pathlib import Path
import tlc

# abstract shapes of the engines: block length, words per 64-bit draw, per raw draw, keeps halves
SHAPES = [(2, 1, 1, 1), (2, 2, 1, 0), (2, 2, 2, 0), (4, 1, 1, 1), (4, 2, 1, 0), (8, 1, 1, 1), (12, 1, 1, 1), (16, 1, 1, 1),
          (16, 2, 2, 0), (6, 2, 1, 0), (6, 1, 1, 1), (6, 1, 1, 0), (6, 2, 2, 0)]
DRAWS = ["n32", "n64", "dbl", "raw"]
KINDS = {
    "views": dict(tour=DRAWS + ["bulk"], walk=(1, 0, 40, 8, DRAWS + ["bulk"])),
    "state": dict(walk=(2, 2, 26, 40, DRAWS + ["bulk", "save", "restore", "save", "restore", "new", "adv", "jump", "seed"])),
    "copy": dict(walk=(3, 0, 22, 40, DRAWS + ["copy", "deepcopy", "pickle", "jumped", "adv", "jump", "seed"])),
    "all": dict(walk=(3, 1, 24, 40, DRAWS + ["copy", "jumped", "adv", "jump", "seed", "save", "restore", "new", "get"])),
    "moves": dict(tour=["n32", "n64", "raw", "adv"], walk=(1, 0, 30, 16, DRAWS + ["adv", "jump"])),
    "jumps": dict(tour=["n32", "raw", "jump"], walk=(3, 0, 16, 30, DRAWS + ["jump", "jumped"])),
    "paths": dict(walk=(2, 1, 34, 30, DRAWS + ["wrap", "adv", "jump", "seed", "save", "restore"])),
    "bulk": dict(walk=(2, 0, 26, 30, DRAWS + ["bulk", "pickle"])),
    "toggle": dict(walk=(3, 1, 30, 60, DRAWS + ["bulk", "copy", "jumped", "new", "adv", "jump", "seed", "save", "restore"])),
    "seeds": dict(tour=["n32", "n64", "raw", "seed"]),
}


def cfg_text(shape, objs, slots, depth, ops, walk):
    b, w, raw, keep = shape
    s = "SPECIFICATION Spec\nCONSTANTS\n"
    s += f" B={b} Width={w} RawWidth={raw} Keep={'TRUE' if keep else 'FALSE'}\n"
    hs = 3 if "wrap" in ops else 0
    s += " Handles={%s}\n" % ",".join(map(str, range(1, hs + 1)))
    s += " Objs={%s}\n Slots={%s}\n Depth=%d\n Ops={%s}\n" % (
        ",".join(map(str, range(1, objs + 1))), ",".join(map(str, range(1, slots + 1))), depth, ",".join(f'"{o}"' for o in sorted(set(ops))))
    s += "CHECK_DEADLOCK FALSE\nPROPERTIES Isolation SlotsStay MovesDropHalf\n"
    if walk:
        s += "INVARIANTS TypeOK HalfOnly64 EmitWalk\nCONSTRAINT Bounded\n"
    else:
        s += "VIEW View\nINVARIANTS TypeOK HalfOnly64\nACTION_CONSTRAINT Emit\n"
    return s


def walks_of(out):
    """TLC prints the last step of a walk in every variant: one of them is kept"""
    seen, ws = set(), []
    for m in re.findall(r'<<"WALK", (".*")>>', out):
        w = json.loads(json.loads(m))
        p = json.dumps(w[:-1])
        if p not in seen:
            seen.add(p)
            ws.append(w)
    return ws


def generate(kinds, out, seed, more=1):
    """writes out/sched.json; returns (states, transitions) explored by TLC"""
    out = Path(out)
    jobs, tags = [], []
    for k in kinds:
        for sh in SHAPES:
            key = f"{k}:" + "-".join(map(str, sh))
            d = KINDS[k]
            if "tour" in d:
                c = out / f"t-{k}-{'-'.join(map(str, sh))}.cfg"
                c.write_text(cfg_text(sh, 1, 0, 0, d["tour"], False))
                jobs.append(dict(module="BitGen.tla", cfg=str(c), heap="512m"))
                tags.append(("edges", key))
            if "walk" in d:
                o, s, depth, num, ops = d["walk"]
                c = out / f"w-{k}-{'-'.join(map(str, sh))}.cfg"
                c.write_text(cfg_text(sh, o, s, depth, ops, True))
                jobs.append(dict(module="BitGen.tla", cfg=str(c), heap="512m",
                                 extra=["-simulate", f"num={num * more}", "-depth", str(depth + 1), "-seed", str(seed)]))
                tags.append(("walks", key))
    res = tlc.parallel(jobs)
    sched = {"edges": {}, "walks": {}, "start": {}}
    states = trans = 0
    for (what, key), r in zip(tags, res):
        if "Error" in r.out and "violated" in r.out or (what == "edges" and not r.ok):
            raise RuntimeError(f"BitGen {key}: {r.out[-1500:]}")
        if what == "edges":
            es = [json.loads(json.loads(m)) for m in re.findall(r'<<"EDGE", (".*")>>', r.out)]
            sched["edges"][key] = [[e["f"], e["op"], e["t"]] for e in es]
            b = int(key.split(":")[1].split("-")[0])
            sched["start"][key] = [[{"pos": b, "half": False, "live": True}], []]
            states += r.states
            trans += len(es)
        else:
            sched["walks"][key] = walks_of(r.out)
            m = re.search(r"The number of states generated: (\d+)", r.out)
            trans += int(m[1]) if m else 0
    (out / "sched.json").write_text(json.dumps(sched))
    return states, trans


if __name__ == "__main__":
    import tempfile, time
    t = time.time()
    d = tempfile.mkdtemp()
    print(generate(sys.argv[1:] or list(KINDS), d, 1), time.time() - t, d)
