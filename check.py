#!/usr/bin/env python3
"""Run the static check of one property:  check.py --property P01 [--tier quick|thorough]"""
import argparse
import importlib
import json
import os
import pkgutil
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from vf import rules as RR  # noqa
from vf import dom  # noqa


def load_rules():
    import vf.r as pkg
    for m in pkgutil.iter_modules(pkg.__path__):
        importlib.import_module("vf.r." + m.name)


def known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                out.append(json.loads(l))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    if a.tier == "thorough":
        dom.BUDGET = 60000
    load_rules()
    prop = a.property
    try:
        obs, rules, analysed, errors = RR.run_property(prop, a.tier)
    except Exception as ex:
        traceback.print_exc()
        print("NO-VERDICT property=%s %s: %s" % (prop, type(ex).__name__, ex))
        return 3
    ks = [k for k in known() if k.get("property") == prop and k.get("kind") == "finding"]
    viol, kf, undec = [], [], []
    for o in obs:
        if o.ok is None:
            undec.append(o)
        elif not o.ok:
            m = [k for k in ks if k["key"] == o.rule + "|" + o.key]
            (kf if m else viol).append(o)
    for o in kf:
        print("KNOWN-FINDING: property=%s %s [%s] %s" % (prop, o.where, o.rule, o.msg))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if a.v:
        for o in obs:
            print({True: "ok  ", False: "VIOL", None: "????"}[o.ok], o.rule, o.where, o.msg)
    replay = os.path.join(HERE, "evidence", prop + ".violations.txt")
    if viol:
        with open(replay, "w") as f:
            for o in viol:
                f.write("rule %s: %s\n  at %s\n  key %s\n" % (o.rule, o.msg, o.where, o.rule + "|" + o.key))
    elif os.path.exists(replay):
        os.unlink(replay)
    ok = sum(1 for o in obs if o.ok)
    ev = {
        "property": prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": {
            "explanation": "static obligations derived from the current source by value numbering / dataflow and decided by term equality and polyhedral entailment; rules: " + "; ".join("%s: %s (%d obligations)" % r for r in rules),
            "obligations": len(obs), "discharged": ok, "undecided": len(undec), "known_findings": len(kf),
            "functions_analysed": len(analysed), "functions": sorted(analysed)[:200],
            "sites": sorted({o.where for o in obs})[:200],
        },
        "assumptions": ["Python semantics of the analysed subset; no monkey patching of the analysed classes", "arithmetic over the reals (no rounding)"] + (["undecided (not alarmed): " + "; ".join("%s %s" % (o.where, o.msg) for o in undec[:10])] if undec else []),
        "wall_s": round(time.time() - t0, 3),
        "no_verdict": [{"rule": rid, "reason": m} for rid, m, tb in errors],
        "violations": [{"rule": o.rule, "where": o.where, "message": o.msg} for o in viol],
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for o in viol:
        print("%s [%s/%s] %s" % (o.where, prop, o.rule, o.msg))
    print("%s: %d obligations, %d discharged, %d undecided, %d known, %d violated (%.1fs)" % (prop, len(obs), ok, len(undec), len(kf), len(viol), time.time() - t0))
    if viol:
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if errors:
        for rid, m, tb in errors:
            sys.stderr.write(tb)
            print("NO-VERDICT property=%s rule=%s %s" % (prop, rid, m))
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
