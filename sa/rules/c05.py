"""The parameter declarations' check() is interpreted over interval regions of
its argument (below, at, inside, at, above the limits; one-sided, zero and
missing limits; missing, falsy, valid and invalid categories): the set of
warnings, the exception and the returned value are decided exactly for each
region, for every value in it."""
import math

from .common import *
from ..lib import KINDS

LEVEL = "other"
FLOOR = {"numeric": 120, "categorical": 20, "plain": 5}
EPS = 1e-6
LIMITS = [(None, None), (5, None), (None, 8.5), (5, 8.5), (3.0, 8.5), (0, 10), (0.0, 15.0), (-5, 0), (0, None), (None, 0),
          (150, 1500), (-10.5, -2.5), (4, 4), (-100, 100), (0, 1)]


def units(w, tier):
    return [("num", i) for i in range(len(LIMITS))] + [("cat", 0), ("plain", 0)]


def region(name, lo, hi, kind=None):
    g.PARAM_RANGE[(name,)] = (lo, hi)
    return Num(g.atom("arg", name), py=kind in (None, "int", "float"), kind=kind)


def warns(ip, e0):
    return [e for e in ip.effects[e0:] if e.kind == "warn"]


def parts(ip, v):
    if isinstance(v, StrT):
        return [x for p in v.parts for x in parts(ip, p)]
    if isinstance(v, Gate):
        return parts(ip, v.a) + parts(ip, v.b)
    return [v]


def mentions(ip, msg, x):
    ps = parts(ip, msg)
    if isinstance(x, Num):
        return any(isinstance(p, Num) and p.node is x.node for p in ps)
    if isinstance(x, (int, float)):
        return any(isinstance(p, (int, float)) and p == x or isinstance(p, str) and ("%s" % x in p or "%g" % x in p)
                   or isinstance(p, Num) and p.node is g.const(x) for p in ps)
    return any(isinstance(p, str) and x in p for p in ps)


def pieces(ip, args):
    return [a for a in args]


def check(w, make, value, before=None):
    """(returned value, exception, warnings, may-raise)"""
    ip = w.ip
    p = make()
    for v in before or []:
        try:
            ip.call(ip.getattr(p, "check"), [v], {})
        except AbsRaise:
            pass
    e0 = len(ip.effects)
    try:
        r, x = ip.call(ip.getattr(p, "check"), [value], {}), None
    except AbsRaise as e:
        r, x = None, e.exc
    es = ip.effects[e0:]
    return r, x, [e for e in es if e.kind == "warn"], [e for e in es if e.kind == "may-raise"]


def same_value(ip, r, v):
    a, b = vnodes(ip, r), vnodes(ip, v)
    return a == b


def num_unit(w, i, rep):
    ip = w.ip
    lo, hi = LIMITS[i]
    P = w.anchor("pygmm.model", "NumericParameter")
    desc = "limits (%s, %s)" % (lo, hi)
    rep.inst("NumericParameter " + desc)
    # regions of the argument: (name, value, side)
    rg = []
    big = 1e7
    if lo is not None:
        rg.append(("below", region("below#%d" % i, -big, lo - EPS), "lo"))
        for k in KINDS:
            rg.append(("below (%s)" % k, region("below %s#%d" % (k, i), -big, lo - EPS, k), "lo"))
        rg.append(("just below", lo - 1e-3, "lo"))
        rg.append(("minus infinity", -math.inf, "lo"))
        rg.append(("at the minimum", lo, None))
        if isinstance(lo, int):
            rg.append(("at the minimum (float)", float(lo), None))
    if hi is not None:
        rg.append(("above", region("above#%d" % i, hi + EPS, big), "hi"))
        for k in KINDS:
            rg.append(("above (%s)" % k, region("above %s#%d" % (k, i), hi + EPS, big, k), "hi"))
        rg.append(("just above", hi + 1e-3, "hi"))
        rg.append(("infinity", math.inf, "hi"))
        rg.append(("at the maximum", hi, None))
    a = -big if lo is None else lo + EPS
    b = big if hi is None else hi - EPS
    if a < b:
        rg.append(("inside", region("inside#%d" % i, a, b), None))
        for k in KINDS:
            rg.append(("inside (%s)" % k, region("inside %s#%d" % (k, i), a, b, k), None))
    if (lo is None or lo <= 0) and (hi is None or hi >= 0):
        rg.append(("zero", 0, None))
    for req in (False, True):
        for default in ((None, 6.5, 0) if not req else (None,)):
            make = lambda: ip.call(P, ["quantity_q", req, lo, hi, default], {})
            for nm, v, side in rg:
                what = "%s, required=%s, default=%s, value %s" % (desc, req, default, nm)
                r, x, ws, mr = check(w, make, v)
                if x is not None:
                    rep.fail("numeric", "NumericParameter.check", "raises %s instead of %s" % (
                        exc_name(x), "warning" if side else "accepting the value"), "model.py", what)
                    continue
                if ip.nodes_of(r) and any(g.has_unk(n) for n in ip.nodes_of(r)):
                    rep.undecided("numeric", what)
                    continue
                rep.require(same_value(ip, r, v), "numeric", "NumericParameter.check",
                            "the checked value is not returned unchanged (%r)" % (vnodes(ip, r),), "model.py", what)
                if any(g.has_unk(c) for e in ws for c in e.path):
                    rep.undecided("numeric", what)
                    continue
                if side is None:
                    rep.require(not ws, "numeric", "NumericParameter.check", "warns although the value is within the limits",
                                "model.py", what)
                else:
                    rep.require(any(not undecided(ip, e) for e in ws), "numeric", "NumericParameter.check",
                                "does not warn although the value is outside of the limits", "model.py", what)
                    # one declaration serves every model instance: it remembers nothing
                    for before in ([v], [lo - 1 if lo is not None else hi + 1], [None, v]):
                        r2, x2, ws2, mr2 = check(w, make, v, before)
                        rep.require(x2 is None and any(not undecided(ip, e) for e in ws2), "numeric", "NumericParameter.check",
                                    "warns only the first time that a value outside of the limits is checked", "model.py", what)
                    for e in ws:
                        msg, cat = e.x
                        lim = lo if side == "lo" else hi
                        for x2, d in (("quantity_q", "the parameter"), (v, "the value"), (lim, "the limit")):
                            rep.require(mentions(ip, msg, x2), "numeric", "NumericParameter.check",
                                        "the warning does not name %s" % d, where(e), what)
                        rep.require(cat is None or cat_ok(cat), "numeric", "NumericParameter.check",
                                    "the warning is not a UserWarning", where(e), what)
            # not given
            what = "%s, required=%s, default=%s, value None" % (desc, req, default)
            none_case(w, rep, "numeric", "NumericParameter.check", make, req, default, what)
    for attr, exp in (("min", lo), ("max", hi), ("name", "quantity_q"), ("default", 6.5), ("required", False)):
        try:
            p = ip.call(P, ["quantity_q"], {"min_": lo, "max_": hi, "default": 6.5})
            v = ip.getattr(p, attr)
        except AbsRaise as e:
            rep.fail("numeric", "NumericParameter." + attr, "raises %s" % exc_name(e.exc), "model.py", desc)
            continue
        rep.require(same_value(ip, v, exp), "numeric", "NumericParameter." + attr, "is not the declared value", "model.py", desc)


def undecided(ip, e):
    return bool(e.path)


def cat_ok(cat):
    n = getattr(cat, "name", None)
    return n is None or n.split(".")[-1] in ("UserWarning", "Warning", "RuntimeWarning") or isinstance(cat, ClassV)


def none_case(w, rep, rule, construct, make, req, default, what):
    ip = w.ip
    r, x, ws, mr = check(w, make, None)
    if req:
        rep.require(x is not None and exc_name(x) == "ValueError", rule, construct,
                    "a missing required value does not raise a ValueError", "model.py", what)
        if x is not None:
            rep.require(any(mentions(ip, a, "quantity_q") for a in x.args), rule, construct,
                        "the error does not name the parameter", "model.py", what)
    else:
        if x is not None:
            rep.fail(rule, construct, "a missing optional value raises %s" % exc_name(x), "model.py", what)
        else:
            rep.require(same_value(ip, r, default), rule, construct,
                        "a missing optional value is not replaced by the default", "model.py", what)


def cat_unit(w, rep):
    ip = w.ip
    P = w.anchor("pygmm.model", "CategoricalParameter")
    rep.inst("CategoricalParameter")
    for opts in (["SS", "NS", "RS"], ["U"], [True, False], ["a", "aa"], ["", "x"]):
        for req in (False, True):
            for default in ((None, opts[0], opts[-1]) if not req else (None, opts[-1])):
                make = lambda: ip.call(P, ["quantity_q", req, ip.mklist(list(opts)), default], {})
                for o in opts:
                    what = "options %s, required=%s, default=%s, value %r" % (opts, req, default, o)
                    r, x, ws, mr = check(w, make, o)
                    if x is not None:
                        rep.fail("categorical", "CategoricalParameter.check", "raises %s for an option" % exc_name(x),
                                 "model.py", what)
                        continue
                    rep.require(same_value(ip, r, o) and type(r) is type(o), "categorical", "CategoricalParameter.check",
                                "an option is not returned unchanged", "model.py", what)
                    rep.require(not ws, "categorical", "CategoricalParameter.check", "warns for a valid option",
                                "model.py", what)
                for bad in ("zz", "s", opts[0].lower() + "?" if isinstance(opts[0], str) else "no", "NO"):
                    what = "options %s, required=%s, default=%s, value %r" % (opts, req, default, bad)
                    r, x, ws, mr = check(w, make, bad)
                    if x is not None:
                        rep.fail("categorical", "CategoricalParameter.check", "raises %s for an invalid option"
                                 % exc_name(x), "model.py", what)
                        continue
                    rep.require(same_value(ip, r, default), "categorical", "CategoricalParameter.check",
                                "an invalid option is not replaced by the default", "model.py", what)
                    rep.require(bool(ws), "categorical", "CategoricalParameter.check",
                                "an invalid option does not cause a warning", "model.py", what)
                    r2, x2, ws2, mr2 = check(w, make, bad, [bad])
                    rep.require(x2 is None and same_value(ip, r2, default) and bool(ws2), "categorical", "CategoricalParameter.check",
                                "an invalid option is treated differently when it is checked again", "model.py", what)
                    rep.require(any(mentions(ip, e.x[0], "quantity_q") for e in ws), "categorical",
                                "CategoricalParameter.check", "no warning names the parameter", "model.py", what)
                    rep.require(any(mentions(ip, e.x[0], bad) for e in ws), "categorical",
                                "CategoricalParameter.check", "no warning names the value", "model.py", what)
                    rep.require(any(all(mentions(ip, e.x[0], str(o)) for o in opts) for e in ws), "categorical",
                                "CategoricalParameter.check", "no warning lists the options", "model.py", what)
                if req:
                    none_case(w, rep, "categorical", "CategoricalParameter.check", make, req, default,
                              "options %s, required, value None" % (opts,))
                elif default is not None:
                    none_case(w, rep, "categorical", "CategoricalParameter.check", make, req, default,
                              "options %s, default=%s, value None" % (opts, default))


def plain_unit(w, rep):
    ip = w.ip
    P = w.anchor("pygmm.model", "Parameter")
    rep.inst("Parameter")
    for req, default in ((False, None), (False, 3.5), (False, 0), (True, None), (True, 2.0)):
        make = lambda: ip.call(P, ["quantity_q", req, default], {})
        what = "required=%s, default=%s" % (req, default)
        for v in [region("any#plain", -1e7, 1e7), 0, False, "text"] + [region("any %s#plain" % k, -1e7, 1e7, k) for k in KINDS]:
            r, x, ws, mr = check(w, make, v)
            rep.require(x is None and same_value(ip, r, v) and (type(r) is type(v)), "plain", "Parameter.check",
                        "the value is not returned unchanged", "model.py", what)
        none_case(w, rep, "plain", "Parameter.check", make, req, default, what)


def run(w, unit, rep, tier):
    if unit[0] == "num":
        num_unit(w, unit[1], rep)
    elif unit[0] == "cat":
        cat_unit(w, rep)
    else:
        plain_unit(w, rep)
    rep.sample(str(unit))
