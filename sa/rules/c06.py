"""Every model is constructed over interval regions of each of its published inputs
(sa/spec/params.json: limits, categories, defaults): outside the limits (one region per side) some warning that names the
input is raised on every path, inside there is none; a missing required input is
a ValueError; an undeclared category is reported and evaluates like the omitted
one; an omitted input gives the value graphs of its explicit default; the
mechanism-specific magnitude limits are reported exactly outside of them."""
import json
import os

from .common import *
from .c05 import mentions
from ..drive import Param

LEVEL = "other"
FLOOR = {"limit": 80, "inside": 80, "required": 45, "category": 15, "default": 100, "mechanism-limit": 12}
EPS = 1e-6

#: published magnitude limits by mechanism (checked against the publications'
#: applicability sections as the models state them)
MECH = {
    "BooreStewartSeyhanAtkinson2014": {"SS": (3.0, 8.5), "NS": (3.0, 7.0)},
    "CampbellBozorgnia2014": {"SS": (None, 8.5), "RS": (None, 8.0), "NS": (None, 7.5)},
    "ChiouYoungs2014": {"RS": (3.5, 8.0), "NS": (3.5, 8.0), "SS": (3.5, 8.5), "U": (3.5, 8.5)},
}


REF = json.load(open(os.path.join(os.path.dirname(os.path.dirname(__file__)), "spec", "params.json")))
CATEGORIES = {o for d in REF.values() for p in d.values() for o in p["options"] or () if isinstance(o, str)}


def inputs(w, c):
    """The published inputs of a model."""
    if c.name not in REF:
        return w.params(c)
    return [Param(n, d["kind"], d["required"], d["default"], d["lo"], d["hi"], d["options"]) for n, d in REF[c.name].items()]


def units(w, tier):
    out = []
    for n in REF:
        w.cls(n)
    for c in w.models:
        n = len(inputs(w, c))
        out += [("param", c.name, i) for i in range(n)]
        if c.name in MECH:
            out.append(("mech", c.name, 0))
    return out


def reg(name, lo, hi):
    g.PARAM_RANGE[name] = (lo, hi)
    return Num(g.atom("param", name), py=True)


def base(w, c):
    """A setting in which everything is given."""
    d = {}
    for p in inputs(w, c):
        if p.kind == "cat":
            d[p.name] = p.default if p.default is not None and p.default is not MISSING else p.options[0]
        elif p.kind == "num":
            lo, hi = inside(p)
            d[p.name] = reg("%s#in" % p.name + c.name, lo, hi)
        else:
            d[p.name] = w.pnum(p.name)
    return d


def inside(p):
    lo = p.lo if p.lo is not None else (min(p.hi, 0) - 10 if p.hi is not None else 1e-3)
    hi = p.hi if p.hi is not None else max(lo, 0) + 5000
    return lo, hi


def definite(e):
    return not e.path


def named(ip, effs, pname):
    return [e for e in effs if e.kind == "warn" and mentions(ip, e.x[0], pname)]


def run(w, unit, rep, tier):
    ip = w.ip
    c = w.cls(unit[1])
    if unit[0] == "mech":
        return mech(w, c, rep)
    p = inputs(w, c)[unit[2]]
    con = "%s.%s" % (c.name, p.name)
    rep.inst(con)
    b = base(w, c)
    ex = working_extra(w, c, b)

    def construct(vals):
        with Case(w, c, vals, ex) as k:
            return k.exc, list(k.effects()), (vnodes(ip, k.m and k.get("scenario")[0]) if k.m is not None else None)

    def scen_value(vals):
        with Case(w, c, vals, ex) as k:
            if k.m is None:
                return ("exc", exc_name(k.exc))
            s, x = k.get("scenario")
            try:
                return vnodes(ip, ip.getitem(s, p.name))
            except AbsRaise as e:
                return ("exc", exc_name(e.exc))

    if p.kind == "num":
        lo, hi = p.lo, p.hi
        for side, bad, a, z in (("minimum", lo, -1e6, None), ("maximum", hi, None, 1e6)):
            if bad is None:
                continue
            v = reg("%s#%s%s" % (p.name, side, c.name), a if a is not None else bad + EPS, z if z is not None else bad - EPS)
            exc, effs, _ = construct({**b, p.name: v})
            ws = [e for e in named(ip, effs, p.name) if definite(e)]
            if not ws and any(e.kind == "warn" and mentions(ip, e.x[0], p.name) for e in effs):
                rep.undecided("limit", con)
            else:
                rep.require(bool(ws), "limit", con, "no warning when %s is %s the declared %s of %s" % (
                    p.name, "below" if side == "minimum" else "above", side, bad), con, c.name)
            # just outside, on an exact value
            v = bad - 0.01 if side == "minimum" else bad + 0.01
            exc, effs, _ = construct({**b, p.name: v})
            rep.require(bool([e for e in named(ip, effs, p.name) if definite(e)]), "limit", con,
                        "no warning when %s is %s (declared %s %s)" % (p.name, v, side, bad), con, c.name)
        exc, effs, _ = construct(b)
        ws = named(ip, effs, p.name)
        rep.require(not [e for e in ws if definite(e)], "inside", con,
                    "a warning although %s is within its declared limits" % p.name, con, c.name)
        for v, nm in ((lo, "minimum"), (hi, "maximum")):
            if v is not None:
                exc, effs, _ = construct({**b, p.name: v})
                rep.require(not [e for e in named(ip, effs, p.name) if definite(e)], "inside", con,
                            "a warning although %s is at its declared %s" % (p.name, nm), con, c.name)
            elif v is None and p.name != "dip":
                exc, effs, _ = construct({**b, p.name: 0.01 if nm == "minimum" else 4000.0})
                rep.require(exc is not None or not [e for e in named(ip, effs, p.name) if definite(e)], "inside", con,
                            "a warning although %s has no declared %s" % (p.name, nm), con, c.name)
    if p.required:
        d = dict(b)
        d.pop(p.name)
        exc, effs, _ = construct(d)
        rep.require(exc is not None and exc_name(exc) == "ValueError", "required", con,
                    "a missing %s does not raise a ValueError (%s)" % (p.name, exc and exc_name(exc)), con, c.name)
        d[p.name] = None
        exc, effs, _ = construct(d)
        rep.require(exc is not None and exc_name(exc) == "ValueError", "required", con,
                    "%s=None does not raise a ValueError (%s)" % (p.name, exc and exc_name(exc)), con, c.name)
    if p.kind == "cat" and not all(isinstance(o, bool) for o in p.options):
        for o in ["no such option"] + sorted(CATEGORIES - set(p.options)):
            exc, effs, _ = construct({**b, p.name: o})
            ws = [e for e in named(ip, effs, p.name) if definite(e)]
            rep.require(bool(ws), "category", con, "no warning for the undeclared option %r" % o, con, c.name)
        if not p.required:
            sv = scen_value({**b, p.name: "no such option"})
            rep.require(sv == vnodes(ip, p.default), "category", con,
                        "an undeclared option is not replaced by the default (%r)" % (sv,), con, c.name)
        for o in p.options:
            exc, effs, _ = construct({**b, p.name: o})
            rep.require(not [e for e in named(ip, effs, p.name) if definite(e)], "category", con,
                        "a warning for the declared option %r" % (o,), con, c.name)
    if not p.required and not p.name.startswith("dist_"):
        d = dict(b)
        d.pop(p.name)
        exc, effs, _ = construct(d)
        rep.require(exc is None, "optional", con, "%s cannot be left out (%s)" % (p.name, exc and exc_name(exc)), con, c.name)
    if not p.required and p.default is not None:
        for vals in cases_of(w, c, tier)[:6]:
            d = dict(vals)
            d.pop(p.name, None)
            with Case(w, c, d, ex) as k:
                ra = results(w, k)
            for dv, msg in [(p.default, "leaving %s out differs from giving its default" % p.name)] + (
                    [("no such option", "an undeclared %s differs from its default" % p.name)] if p.kind == "cat" else []):
                with Case(w, c, {**d, p.name: dv}, ex) as k:
                    rb = results(w, k)
                compare_results(rep, "default", ra, rb, c.name, msg, k.label())
            with Case(w, c, {**d, p.name: None}, ex) as k:
                rb = results(w, k)
            compare_results(rep, "default", ra, rb, c.name, "leaving %s out differs from None" % p.name, k.label())
    rep.sample("%s: limits %s..%s, required=%s, default=%r" % (con, p.lo, p.hi, p.required, p.default))


def mech(w, c, rep):
    ip = w.ip
    b = base(w, c)
    names = {p.name: p for p in inputs(w, c)}
    for m, (lo, hi) in MECH[c.name].items():
        plo, phi = inside(names["mag"])
        tests = [("inside", reg("mag#ms%s%s" % (m, c.name), max(lo or plo, plo) , min(hi, 9.5)), False)]
        tests.append(("above", reg("mag#ma%s%s" % (m, c.name), hi + EPS, 1e4), True))
        tests.append(("above", hi + 0.05, True))
        if lo is not None:
            tests.append(("below", reg("mag#mb%s%s" % (m, c.name), -1e4, lo - EPS), True))
            tests.append(("below", lo - 0.05, True))
            tests.append(("inside", lo, False))
        tests.append(("inside", hi, False))
        for nm, v, expect in tests:
            with Case(w, c, {**b, "mechanism": m, "mag": v}) as k:
                if k.m is None:
                    rep.fail("mechanism-limit", "%s.mag[%s]" % (c.name, m), "refused (%s)" % exc_name(k.exc), c.name, c.name)
                    continue
                logs = [e for e in k.effects() if e.kind in ("log", "warn")]
                logs = [e for e in logs if e.kind == "log" or not mentions(ip, e.x[0], "recommended limit (")]
            con = "%s.mag[%s]" % (c.name, m)
            if expect:
                if not any(definite(e) for e in logs) and logs:
                    rep.undecided("mechanism-limit", con)
                    continue
                rep.require(bool(logs), "mechanism-limit", con, "magnitude %s the limits %s..%s of mechanism %s is not reported"
                            % (nm, lo, hi, m), con, c.name)
            else:
                rep.require(not [e for e in logs if definite(e)], "mechanism-limit", con,
                            "magnitude inside the limits %s..%s of mechanism %s is reported" % (lo, hi, m), con, c.name)
