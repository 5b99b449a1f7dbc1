"""Records traces of the real library.  Runs under the library's interpreter:
   driver.py PROPERTY TIER SEED OUTDIR SHARD NSHARDS [START [ONLY-SEGMENT]]"""
import json
import os
import random
import sys
import traceback
from pathlib import Path

import numpy as np

from profiles import P, VIEWS
from rec import Rec, SegAbort
import tasks


def main():
    prop, tier, seed, out, shard, nsh = sys.argv[1:7]
    start = int(sys.argv[7]) if len(sys.argv) > 7 else 0
    only = sys.argv[8] if len(sys.argv) > 8 else None
    out = Path(out)
    shard, nsh = int(shard), int(nsh)
    todo = tasks.tasks(prop, tier, int(seed), out)
    names = [t.name for t in todo]
    assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1][:5]
    sf = open(out / f"stats-{shard}.ndjson", "a")
    for i, t in enumerate(todo):
        if i % nsh != shard or i < start or (only and t.name != only):
            continue
        R = random.Random(f"{seed}:{t.name}")
        np.random.seed(R.getrandbits(31))
        path = out / f"seg-{i:05d}.{t.module}.ndjson"
        r = Rec(path)
        meta = {"name": t.name, "file": path.name, "module": t.module, "cost": t.cost, "index": i}
        (out / f"cur-{shard}.json").write_text(json.dumps(meta))
        r.add(op="reset")
        aborted = []
        try:
            t.fn(r, R)
        except SegAbort:
            aborted.append(t.name)
        except Exception as x:      # the library behaved in a way the harness could not even record
            traceback.print_exc()
            r.add(op="error", what="harness", exc=traceback.format_exc()[-600:])
            aborted.append(t.name)
        r.close()
        meta["events"] = len(r.ev)
        sf.write(json.dumps({"segments": [meta], "ops": r.ops, "draws": r.draws, "aborted": aborted}) + "\n")
        sf.flush()
    (out / f"cur-{shard}.json").unlink(missing_ok=True)


if __name__ == "__main__":
    main()
