"""Effect analysis: no evaluation of a model or function writes to the shared
coefficient tables, to class attributes, to module globals (other than
scenario-independent lazy initialisation), or to process-wide settings (numpy
error state, warning filters, random seed, root logger), and importing the
package does not touch process-wide settings either."""
from .common import *

LEVEL = "other"
FLOOR = {"effect-free": 300, "import": 1}


def units(w, tier):
    return [("import", 0, 0, 0)] + model_units(w, tier, True) + free_units(w)


def scen_dep(ip, e):
    ns = list(ip.nodes_of(e.x)) + [c for c in e.path if isinstance(c, g.Node)]
    return any(d.op in ("param", "arg", "unk") for n in ns for d in g.deps(n))


def judge(w, effs, rep, what):
    ip = w.ip
    bad = False
    for e in effs:
        if e.kind == "config":
            if str(e.what).startswith("logger.") and e.x not in (None, "", "root"):
                continue
            msg = "process-wide setting changed: %s" % (e.what,)
        elif e.kind == "mutate-shared":
            if e.addr in w.empty_containers:
                # a container that is empty after import only memoises (that it
                # does so correctly is decided by the history property)
                rep.ok("cache")
                continue
            msg = "shared data modified: %s (%s)" % (e.x, e.what)
        elif e.kind in ("write-global", "write-class"):
            if not scen_dep(ip, e):
                rep.ok("lazy-init")
                rep.facts.add((owner_of(e), e.what, where(e), repr(vnodes(ip, e.x))))
                continue
            msg = "%s written with a scenario-dependent value: %s" % (
                "module global" if e.kind == "write-global" else "class attribute", e.what)
        else:
            continue
        bad = True
        rep.fail("effect-free", owner_of(e), msg, where(e), what)
    if not bad:
        rep.ok("effect-free")


def finish(w, rep, tier):
    vals = {}
    for own, what, wh, v in rep.facts:
        vals.setdefault((own, what), set()).add((v, wh))
    for (own, what), vs in sorted(vals.items()):
        if len({v for v, _ in vs}) > 1:
            rep.fail("effect-free", own, "%s takes %d different values depending on what is evaluated"
                     % (what, len(vs)), sorted(vs)[0][1], "all entry points")


def run(w, unit, rep, tier):
    ip = w.ip
    e0 = len(ip.effects)
    if unit[0] == "import":
        for e in w.init_effects:
            rep.require(e.kind != "config" or str(e.what).startswith("logger.") and e.x not in (None, "", "root"), "import", owner_of(e),
                        "importing the package changes a process-wide setting: %s" % (e.what,), where(e), "import pygmm")
        rep.ok("import")
    elif unit[0] == "model":
        with get_case(w, unit, tier) as k:
            rep.inst(k.cls.name)
            n = 0
            if k.m is not None:
                for lab, val, exc, kw in api.observe(w, k):
                    n += 1
            judge(w, ip.effects[e0:], rep, k.label())
            rep.ok("observations", n)
            rep.sample("%s and its %d results" % (k.label(), n))
    else:
        f = next(x for x in frees(w) if x.label == unit[1])
        rep.inst(f.label)
        kw, v, exc = f.run(list(f.variants())[unit[3]])
        judge(w, ip.effects[e0:], rep, "%s(%s)" % (f.label, api.describe(kw)))
