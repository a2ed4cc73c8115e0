"""The package's namespace, as the interpreted __init__ leaves it: every model
class that a module of the package defines can be imported from the package,
is named in __all__ and is in the list of models exactly once, and has a name
and an abbreviation of its own."""
from .common import *

LEVEL = "other"
FLOOR = {"offered": 60, "identity": 40, "namespace": 20}
#: models to be imported from their module (their data take long to load)
DIRECT = {"HermkesKuehnRiggelsen2014"}


def units(w, tier):
    return [0]


def text(w, c, name):
    v = w.ip.find_class_attr(c, name)
    return v if isinstance(v, str) else "" if v is MISSING or v is None else None


def members(w):
    """The model classes: those derived from Model or identified by an abbreviation, without bases of others."""
    base = (w.Model, w.GMM, w.Scenario)
    out = [c for c in w.classes if c not in base and not c.name.startswith("_")
           and (w.Model in c.mro or text(w, c, "ABBREV") != "")]
    return [c for c in out if c in w.models or not any(c in d.mro for d in out if d is not c)]


def run(w, unit, rep, tier):
    ip = w.ip
    ns = ip.attrs(ip.modstate["pygmm"])
    where_ = "src/pygmm/__init__.py"
    alls = ip.try_items(ns["__all__"]) if "__all__" in ns else None
    lst = ip.try_items(ns["models"]) if "models" in ns else None
    if alls is None or not all(isinstance(n, str) for n in alls):
        rep.undecided("offered", "__all__")
        alls = None
    if lst is None:
        rep.undecided("offered", "models")
    cs = members(w)
    for c in cs:
        rep.inst(c.name)
        if c.name in DIRECT:
            continue
        rep.require(ns.get(c.name) is c, "offered", c.name, "cannot be imported from pygmm", where_)
        if alls is not None:
            rep.require(c.name in alls, "offered", c.name, "is not in __all__", where_)
        if lst is not None:
            n = sum(x is c for x in lst)
            rep.require(n == 1, "offered", c.name, "is in the list of models %d times instead of once" % n, where_)
    for x in lst or []:
        rep.require(isinstance(x, ClassV) and x in cs, "namespace", "models: %s" % getattr(x, "name", x), "is not a model", where_)
    for n in alls or []:
        rep.require(n in ns, "namespace", "__all__: %s" % n, "does not exist", where_)
    if alls is not None:
        rep.require("Scenario" in alls and ns.get("Scenario") is w.Scenario, "namespace", "Scenario",
                    "cannot be imported from pygmm", where_)
        rep.require(len(set(alls)) == len(alls), "namespace", "__all__", "names something twice", where_)
    for attr in ("NAME", "ABBREV"):
        vs = {}
        for c in cs:
            v = text(w, c, attr)
            if v is None:
                rep.undecided("identity", "%s.%s" % (c.name, attr))
                continue
            rep.require(v.strip() != "", "identity", "%s.%s" % (c.name, attr), "is empty", c.mod)
            vs.setdefault(v, []).append(c.name)
        for v, names in vs.items():
            if v.strip():
                rep.require(len(names) == 1, "identity", "%s %s of %s" % (attr, v, ", ".join(sorted(names))),
                            "is not unique", "src/pygmm")
    rep.sample("%d models" % len(cs))
