"""Writes MANIFEST.json: a check for each property in checks.py, a reason for each other one."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
from checks import CHECKS  # noqa: E402

NA = {
    "C31": "FSEvents, dispatch and CoreFoundation aren't available here, so that adapter can't be built, let alone run on generated inputs.",
    "C32": "The Windows API isn't available here, so that adapter can't be built, let alone run on generated inputs.",
}
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"python3 run_check.py {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 run_check.py {p['id']} --thorough",
            "technique": CHECKS[p["id"]]["technique"],
            "level": CHECKS[p["id"]]["level"],
            "level_note": CHECKS[p["id"]].get("note", "Random search against an oracle: no assurance beyond what was explored. Trusts: "
                                              + "; ".join(CHECKS[p["id"]].get("assumptions", []) or ["the harness"]) + "."),
        }
        for p in props if p["id"] in CHECKS
    ],
    "not_applicable": [
        {"property": p["id"], "reason": NA.get(p["id"], "No check yet.")} for p in props if p["id"] not in CHECKS
    ],
    "notes": "No hooks in /repo: the harness replaces system interfaces by symbols in its own executables.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
