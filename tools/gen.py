#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from tools.props import PROPS, NA
TECH = "static analysis: value numbering of gated heap dataflow over the Python AST and the clang AST of the current source, obligations decided by term equality and polyhedral (Fourier-Motzkin) entailment"
NOTE = "decides the listed structural obligations (necessary conditions of the property) on every path of the analysed functions; arithmetic over the reals, no execution; runtime quantities beyond these obligations are not bounded"


def implemented():
    import importlib, pkgutil
    import vf.r as pkg
    from vf import rules
    for m in pkgutil.iter_modules(pkg.__path__):
        importlib.import_module("vf.r." + m.name)
    return rules.RULES


def main():
    R = implemented()
    with open(os.path.join(H, "properties.jsonl"), "w") as f:
        for p in PROPS:
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d) + "\n")
    checks = []
    na = []
    for p in PROPS:
        i = p["id"]
        if i in NA:
            na.append({"property": i, "reason": NA[i]})
            continue
        if i not in R:
            na.append({"property": i, "reason": "no static rule for it has been built yet"})
            continue
        checks.append({"property": i, "quick_cmd": "python3 check.py --property %s --tier quick" % i, "thorough_cmd": "python3 check.py --property %s --tier thorough" % i,
                       "technique": TECH, "level": p.get("level", "other"), "level_note": p.get("note", NOTE)})
    m = {"version": 1, "setup_cmd": "python3 -c 'import vf.rules'", "checks": checks, "not_applicable": na}
    json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
    print(len(PROPS), "properties,", len(checks), "checks,", len(na), "not claimed")


main()
