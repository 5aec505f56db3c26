#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table (kept in step by construction)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
from proptable import PROPS, NOT_CLAIMED  # noqa: E402
from checks import base  # noqa: E402
import checks.all  # noqa: F401,E402


def main():
    lines, chk, na = [], [], []
    for p in PROPS:
        lines.append(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p.get("over", ["inputs"]), "text": p["forall"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": None},
        }, ensure_ascii=False))
        assert len(p["title"]) <= 80, p["id"]
        if p["id"] in NOT_CLAIMED:
            na.append({"property": p["id"], "reason": NOT_CLAIMED[p["id"]]})
        else:
            assert p["id"] in base.REGISTRY, p["id"]
            chk.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}",
                        "thorough_cmd": f"python3 check.py {p['id']} --thorough",
                        "technique": base.REGISTRY[p["id"]][1], "level": "other", "level_note": p["note"]})
    open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8").write("\n".join(lines) + "\n")
    m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": chk, "not_applicable": na,
         "notes": "Static analysis of the type-checked MIR that rustc emits for /repo's working tree; see DESIGN.md. "
                  "No hooks are needed in /repo."}
    open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8").write(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
    print(len(chk), "claimed,", len(na), "not applicable")


main()
