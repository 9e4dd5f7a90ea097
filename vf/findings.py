"""
Known findings (genuine defects which are recorded and not repaired), see /verif/known_findings.json.
"""

import json
import os

_fn = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")


def load():
    """all"""
    if not os.path.exists(_fn):
        return []
    with open(_fn) as f:
        return json.load(f)["findings"]


def lines(prop, mod):
    """output lines for findings which still reproduce"""
    res = []
    for d in load():
        if d["property"] != prop or d["status"] != "known":
            continue
        probe = getattr(mod, "KNOWN_FINDINGS", {}).get(d["id"])
        if probe is None or probe():
            res.append("KNOWN-FINDING: property=%s %s: %s" % (prop, d["id"], d["what"]))
    return res
