"""Effect and ownership analysis: every public entry point (model constructors,
properties, methods, static methods, module functions) is interpreted over
abstract arguments owned by the caller; each in-place array update, item
assignment, container mutation or attribute write on caller-owned storage on any
feasible path is a violation.  Aliases are tracked through views, containers and
instance attributes."""
from .common import *

LEVEL = "other"
FLOOR = {"effect-free": 300}
ASSUMES = ["arrays reach the library as numpy arrays, lists or numbers"]


def units(w, tier):
    return model_units(w, tier, True) + free_units(w) + [("scen", 0, 0, 0)]


def judge(w, effs, rep, what):
    ip = w.ip
    n = 0
    for e in effs:
        if e.where[0].startswith("shim_collections") and "copy" in e.where[1]:
            continue  # UserDict.copy swaps its own data for the duration of the copy
        if e.kind == "mutate-caller":
            n += 1
            rep.fail("effect-free", owner_of(e), "%s is modified (%s)" % (e.x, e.what), where(e), what)
        elif e.kind == "mutate-unknown":
            rep.undecided("mutation of unknown storage", owner_of(e))
    if not n:
        rep.ok("effect-free")


def run(w, unit, rep, tier):
    ip = w.ip
    e0 = len(ip.effects)
    if unit[0] == "model":
        with get_case(w, unit, tier) as k:
            rep.inst(k.cls.name)
            n = 0
            if k.m is not None:
                for lab, val, exc, kw in api.observe(w, k):
                    n += 1
            judge(w, ip.effects[e0:], rep, k.label())
            rep.ok("observations", n)
            rep.sample("%s and its %d results" % (k.label(), n))
        # keyword construction leaves the values alone as well
    elif unit[0] == "free":
        f = next(x for x in frees(w) if x.label == unit[1])
        rep.inst(f.label)
        assign = list(f.variants())[unit[3]]
        kw, v, exc = f.run(assign)
        judge(w, ip.effects[e0:], rep, "%s(%s)" % (f.label, api.describe(kw)))
    else:
        s = w.scenario({"mag": w.pnum("mag"), "dist_jb": w.pnum("dist_jb"), "v_s30": w.pnum("v_s30")})
        before = vnodes(ip, s)
        for nm, kws in (("copy_with", {"mag": w.pnum("mag2"), "dip": 1.0}), ("copy", {})):
            f = ip.getattr(s, nm)
            c = ip.call(f, [], kws)
            rep.require(vnodes(ip, s) == before, "scenario-copy", nm,
                        "Scenario.%s changes the scenario it is called on" % nm)
            # the copy is independent of the original
            try:
                ip.setitem(c, "dip", 77.0)
            except AbsRaise:
                pass
            rep.require(vnodes(ip, s) == before, "scenario-copy", nm + " result",
                        "writing to the result of Scenario.%s changes the original" % nm)
        judge(w, [e for e in ip.effects[e0:] if e.where[1] != "?"], rep, "Scenario.copy/copy_with")
