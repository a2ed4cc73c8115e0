"""Exception analysis: for every covering combination of given and omitted
optional inputs and every declared category, construction and every public
result are interpreted with None and missing-key semantics; any exception other
than a deliberate ValueError / NotImplementedError raised by the package, on any
feasible path, is a violation.  A required input never has to be given under
another condition: with all required inputs a model is constructed."""
from .common import *

LEVEL = "other"
FLOOR = {"no-crash": 4000, "constructs": 200}

BAD = {"TypeError", "AttributeError", "KeyError", "UnboundLocalError", "NameError", "IndexError", "ZeroDivisionError",
       "AssertionError", "RecursionError", "StopIteration", "RuntimeError", "UnicodeError", "FileNotFoundError", "OSError"}


def units(w, tier):
    return model_units(w, tier, True)


#: refused for arguments outside of the documented range
RANGED = {"PinillaRamosEtAl2023.duration_for_energy", "PinillaRamosEtAl2024.duration_for_energy"}


def deliberate(e, what):
    """Refused on a path that only out-of-range arguments take."""
    return explicit(e.x) and (what in RANGED or any(c.op == "eq0" and c.args[0].op == "param" for c in e.path))


def explicit(exc):
    """Raised by a raise statement of the package."""
    return exc_name(exc) in ("ValueError", "NotImplementedError")


def run(w, unit, rep, tier):
    ip = w.ip
    with get_case(w, unit, tier) as k:
        con = k.cls.name
        rep.inst(con)

        def maybes(e0, what):
            for e in ip.effects[e0:]:
                if e.kind == "may-raise" and (exc_name(e.x) in BAD or not deliberate(e, what)):
                    rep.fail("no-crash", what, "%s is raised on the path %s" % (
                        exc_name(e.x), [g.show(c, 3) for c in e.path][-2:]), where(e), k.label())

        if k.m is None:
            nm = exc_name(k.exc)
            if nm in BAD:
                rep.fail("no-crash", con, "construction raises %s%r" % (nm, tuple(a for a in k.exc.args if isinstance(a, str))),
                         str(k.exc.where), k.label())
            else:
                rep.require(nm == refusal(k), "constructs", con, "construction raises %s although all of the "
                            "required inputs are given" % nm, str(k.exc.where), k.label())
            return
        if refusal(k):
            rep.fail("constructs", con, "not refused (%s)" % refusal(k), con, k.label())
        rep.ok("constructs")
        maybes(k.e0, con)
        n0 = len(ip.effects)
        for lab, val, exc, kw in api.observe(w, k):
            c = "%s.%s" % (con, lab.split("(")[0])
            if exc is not None:
                ok = explicit(exc) and lab.split("(")[0] in NOT_PROVIDED.get(con, ())
                rep.require(ok, "no-crash", c, "%s raises %s%r" % (
                    lab, exc_name(exc), tuple(a for a in exc.args if isinstance(a, str))), str(exc.where), k.label())
            else:
                rep.ok("no-crash")
            maybes(n0, c)
            n0 = len(ip.effects)
        rep.sample(k.label())
