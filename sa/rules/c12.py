"""Availability analysis of the peak values: for every model and every covering
setting, the paths through pga, pgv, pgd and their standard deviations are
followed: a peak value whose row is in the model's coefficient table must be
returned, one that the model has no coefficients for must be refused with
NotImplementedError (on no path may None, an array or another row come out), a
standard deviation must be available for exactly the quantities that have a
median, and availability must not depend on the setting."""
from .common import *
from .c11 import col_of, rows_of, near

LEVEL = "other"
FLOOR = {"available": 500, "scalar": 200, "std": 300, "stable": 12}
PEAK = {"pga": 0.0, "pgv": -1.0, "pgd": -2.0}


def units(w, tier):
    return [u for u in model_units(w, tier) if w.GMM in w.cls(u[1]).mro]


def outcome(ip, v, e):
    if e is not None:
        n = e.type if isinstance(e.type, str) else e.type.name
        return n
    els = elements(ip, v)
    if isinstance(v, (Num, int, float)) and not isinstance(v, bool):
        return "value"
    if isinstance(v, Arr) and els is not None:
        return "value" if len(els) == 1 and len(ip.content(v).shape or ()) == 0 else "array of %d" % len(els)
    if v is None:
        return "None"
    return "?"


def run(w, unit, rep, tier):
    ip = w.ip
    with get_case(w, unit, tier) as k:
        if not constructed(rep, "available", k):
            return
        c, lab = k.cls, k.label()
        rep.inst(c.name)
        sv, e = k.get("spec_accels")
        tabs = set()
        for n in (elements(ip, sv) or [])[:3] if e is None else []:
            tabs |= set(rows_of(n))
        for n, v, x in (("spec_accels", sv, e), ("ln_stds",) + k.get("ln_stds")):
            rep.require(x is None, "available", "%s.%s" % (c.name, n), "%s gives %s" % (n, outcome(ip, v, x)), c.name, lab)
        for q, code in PEAK.items():
            con = "%s.%s" % (c.name, q)
            o = outcome(ip, *k.get(q))
            rep.facts.add(("avail", c.name, q, o))
            if c.name in NOT_PROVIDED or c.name == "AtkinsonBoore2006":
                has = q not in NOT_PROVIDED.get(c.name, ())
            else:
                has = any(near(p, code) for t in tabs for p in col_of(t))
            if o == "?":
                rep.undecided("available", con)
                continue
            if has:
                rep.require(o == "value", "available", con, "the model has coefficients for %s but gives %s" % (q, o), con, lab)
            else:
                rep.require(o == "NotImplementedError", "available", con,
                            "the model has no coefficients for %s but gives %s" % (q, o), con, lab)
            if o == "value":
                rep.ok("scalar")
            elif o.startswith("array"):
                rep.fail("scalar", con, "%s is an %s" % (q, o), con, lab)
            con = "%s.ln_std_%s" % (c.name, q)
            so = outcome(ip, *k.get("ln_std_" + q))
            if so == "?":
                rep.undecided("std", con)
                continue
            want = "value" if o == "value" else "NotImplementedError"
            rep.require(so == want, "std", con, "ln_std_%s gives %s where %s gives %s" % (q, so, q, o), con, lab)
        rep.sample(lab)


def finish(w, rep, tier):
    d = {}
    for f in rep.facts:
        if f[0] == "avail":
            d.setdefault(f[1:3], set()).add(f[3])
    for (c, q), os_ in sorted(d.items()):
        rep.require(len(os_) == 1, "stable", "%s.%s" % (c, q), "%s is available in some settings only: %s" % (q, sorted(os_)),
                    c, "all settings")
