"""Authoring helper: writes /verif/MANIFEST.json from props.PROPS and properties.jsonl."""
import json
from pathlib import Path

from props import PROPS

VERIF = Path(__file__).resolve().parent.parent
NA = {
    "F01": "RDRAND's only nondeterminism is the processor: whether RDRAND fails cannot be driven without replacing the instruction, "
           "which would test the replacement; there is no state machine to specify beyond the retry loop.",
}
TODO = "not built yet"
ids = [json.loads(l)["id"] for l in (VERIF / "properties.jsonl").read_text().splitlines()]
m = {
    "version": 1,
    "setup_cmd": "bash bin/setup",
    "checks": [{"property": i, "quick_cmd": f"bash bin/check {i} quick", "thorough_cmd": f"bash bin/check {i} thorough",
                "technique": PROPS[i]["technique"], "level": PROPS[i]["level"], "level_note": PROPS[i]["note"]} for i in ids if i in PROPS],
    "not_applicable": [{"property": i, "reason": NA.get(i, TODO)} for i in ids if i not in PROPS],
}
(VERIF / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
