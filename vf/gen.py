"""
Writes properties.jsonl and MANIFEST.json.
"""

import json
import os
import sys

_root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, _root)
from vf import props  # noqa

PY = "/opt/venv/bin/python"
checks = os.listdir(os.path.join(_root, "vf", "checks"))


def has_check(id_):
    """is there a check"""
    return any(fn.startswith(id_.lower() + "_") for fn in checks)


with open(os.path.join(_root, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        d = {
            "id": p["id"],
            "title": p["title"],
            "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
            },
        }
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(d) + "\n")

m = {
    "version": 1,
    "setup_cmd": PY + " vf/selftest.py",
    "checks": [],
    "not_applicable": [],
    "hooks": {"guard": "none", "enable": "no hooks needed: /repo is imported as it is", "source_commits": []},
    "notes": "Python sources of /repo are imported (never copied) and executed symbolically by vf/symx.py on every run; see DESIGN.md.",
}
for p in props.PROPS:
    if p["na"] or not has_check(p["id"]):
        m["not_applicable"].append({"property": p["id"], "reason": p["na"] or "no check built yet"})
        continue
    cmd = "%s vf/run.py %s" % (PY, p["id"])
    m["checks"].append(
        {
            "property": p["id"],
            "quick_cmd": cmd + " --tier quick",
            "thorough_cmd": cmd + " --tier thorough",
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "symbolic execution of the real Python code, z3 decides each assertion",
            "level": "model_checking",
            "level_note": p["level_note"],
        }
    )
with open(os.path.join(_root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print("%i properties, %i checks" % (len(props.PROPS), len(m["checks"])))
