"""Rule registry, obligations and verdicts."""
import json
import os
import time
import traceback
from . import val as V_

RULES = {}      # property -> [(rule id, text, fn, tiers)]


class Floor(Exception):
    """the construct a rule quantifies over is no longer recognisable: no verdict"""


def rule(prop, rid, text, thorough_only=False):
    def deco(fn):
        RULES.setdefault(prop, []).append((rid, text, fn, thorough_only))
        return fn
    return deco


class Ob:
    __slots__ = ("rule", "ok", "where", "msg", "key")

    def __init__(self, rule, ok, where, msg, key):
        self.rule = rule
        self.ok = ok
        self.where = where
        self.msg = msg
        self.key = key


class Ctx:
    def __init__(self, prop, rid, text, tier):
        self.prop = prop
        self.rid = rid
        self.text = text
        self.tier = tier
        self.obs = []
        self.analysed = set()

    def ob(self, ok, where, msg, key=None):
        """ok: True discharged, False violated, None undecided"""
        self.obs.append(Ob(self.rid, ok, where, msg, key or msg))
        return ok

    def floor(self, n, least, what):
        if n < least:
            raise Floor("%s/%s: found %d of at least %d %s" % (self.prop, self.rid, n, least, what))

    def used(self, r):
        self.analysed.add(r.func.qual)
        for q in r.r.inlined:
            self.analysed.add(q)


def run_property(prop, tier):
    out = []
    errors = []
    analysed = set()
    rules = []
    for rid, text, fn, th in RULES.get(prop, []):
        if th and tier != "thorough":
            continue
        c = Ctx(prop, rid, text, tier)
        try:
            fn(c)
            if not c.obs:
                raise Floor("%s/%s produced no obligation" % (prop, rid))
        except Exception as ex:     # this rule gives no verdict; the others still do
            errors.append((rid, "%s: %s" % (type(ex).__name__, ex), traceback.format_exc()))
        rules.append((rid, text, len(c.obs)))
        out.extend(c.obs)
        analysed |= c.analysed
    return out, rules, analysed, errors
