from .common import *

GREEN = "s.signal_phase in v.link.signal_group or len(s.signal) <= 1"


@rule("P04", "R1", "a transferred vehicle comes from a link whose signal group holds the current phase of the node, or the node has no signal")
def r1(c):
    for lang in LANGS:
        r = R(c, lang, "Node.transfer")
        ent = entries(r)
        c.floor(len(ent), 1, "entries in %s" % r.qual)
        for e, L, v in ent:
            cnd = cond(lang, GREEN, v=v, W=r.ev.world)
            ok = implied_by_origin(list(e.g), v, cnd)
            c.ob(ok, where(e), "only vehicles with a green signal are transferred" + ("" if ok else " (a vehicle can be chosen against a red signal)"), key="%s|green" % r.qual)


@rule("P04", "R2", "no other step lets a vehicle cross the node: the only insertions into links are departure and transfer")
def r2(c):
    for lang in LANGS:
        init = ["Link.__init__", "Link.Link"]
        owner_rule(c, lang, "Link", "vehicles", init + ["Node.generate", "Node.transfer"], 2, names=("append", "appendleft", "insert", "extend"))


@rule("P04", "R3", "the signal state is changed only by the signal control step")
def r3(c):
    for lang in LANGS:
        init = ["Node.__init__", "Node.Node"]
        owner_rule(c, lang, "Node", "signal_phase", init + ["Node.signal_control", "Node.override_signal"], 2 if lang == "py" else 1)
        owner_rule(c, lang, "Node", "signal_t", init + ["Node.signal_control", "Node.override_signal"], 2 if lang == "py" else 1)


@rule("P04", "R4", "what the elements of the C++ mode report and what is assigned to them is, on models of engine states, that of the engine")
def bridged(c):
    from .. import bridge
    c.floor(bridge.check(c, "P04"), 1, "properties of the elements of the C++ mode")
