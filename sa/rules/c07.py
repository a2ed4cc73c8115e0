"""Value-flow through model construction: for every covering combination of
given and omitted inputs, the scenario kept by the model holds exactly the
supplied value (also when it is zero or False); an omitted input that the model
estimates is the published estimator applied to the other inputs; and supplying
that estimate explicitly gives the same value graphs as omitting the input."""
from .common import *

LEVEL = "other"
FLOOR = {"kept": 800, "zero": 40, "zero-result": 200, "estimate": 200, "estimator": 15}

#: (model, input) -> public estimator and the inputs it is applied to
ESTIMATORS = {
    ("AbrahamsonSilvaKamai2014", "width"): ("AbrahamsonSilvaKamai2014.calc_width", ["mag", "dip"]),
    ("AbrahamsonSilvaKamai2014", "depth_tor"): ("AbrahamsonSilvaKamai2014.calc_depth_tor", ["mag"]),
    ("BaylessAbrahamson2019", "depth_1_0"): ("BaylessAbrahamson2019.calc_depth_1_0", ["v_s30"]),
    ("ChiouYoungs2014", "depth_tor"): ("ChiouYoungs2014.calc_depth_tor", ["mag", "mechanism"]),
    ("ChiouYoungs2014", "depth_1_0"): ("ChiouYoungs2014.calc_depth_1_0", ["v_s30", "region"]),
    ("CampbellBozorgnia2014", "depth_2_5"): ("CampbellBozorgnia2014.calc_depth_2_5", ["v_s30", "region", "depth_1_0"]),
    ("CampbellBozorgnia2014", "depth_tor"): ("ChiouYoungs2014.calc_depth_tor", ["mag", "mechanism"]),
    ("CampbellBozorgnia2014", "width"): ("CampbellBozorgnia2014.calc_width", ["mag", "dip", "depth_tor", "depth_bot"]),
    ("CampbellBozorgnia2014", "depth_bor"): ("CampbellBozorgnia2014.calc_depth_bor", ["depth_tor", "dip", "width"]),
    ("CampbellBozorgnia2014", "depth_hyp"): ("CampbellBozorgnia2014.calc_depth_hyp",
                                             ["mag", "dip", "depth_tor", "depth_bor"]),
}


def units(w, tier):
    return model_units(w, tier)


def item(ip, s, n):
    try:
        return ip.getitem(s, n)
    except AbsRaise:
        return MISSING


def run(w, unit, rep, tier):
    ip = w.ip
    c = w.cls(unit[1])
    vals = cases_of(w, c, tier)[unit[2]]
    ex = working_extra(w, c, vals)
    est = {}
    with Case(w, c, vals, ex) as k:
        if k.m is None:
            return
        s, x = k.get("scenario")
        for p in w.params(c):
            con = "%s.%s" % (c.name, p.name)
            rep.inst(con)
            v = item(ip, s, p.name)
            if p.name in vals:
                r, wit = equal_forms(vnodes(ip, vals[p.name]), vnodes(ip, v) if v is not MISSING else ("gone",))
                if r is None:
                    rep.undecided("kept", con)
                else:
                    rep.require(r, "kept", con, "the supplied %s is replaced%s" % (
                        p.name, " at %s" % wit if wit else ""), con, k.label())
            elif v is not None and v is not MISSING and p.default is None:
                est[p.name] = v
            elif p.default is not None:
                rep.require(v is not MISSING and vnodes(ip, v) == vnodes(ip, p.default), "kept", con,
                            "the omitted %s is not its default" % p.name, con, k.label())
        rom = results(w, k, methods=False) if est or unit[2] == 0 else None
        # estimators
        for (cn, pn), (fn, args) in ESTIMATORS.items():
            if cn != c.name or pn not in est:
                continue
            fc, fm = fn.split(".")
            f = ip.getattr(w.cls(fc), fm)
            e = ip.call(f, [item(ip, s, a) for a in args], {})
            r, wit = equal_forms(vnodes(ip, e), vnodes(ip, est[pn]))
            con = "%s.%s" % (cn, pn)
            if r is None:
                rep.undecided("estimator", con)
            else:
                rep.require(r, "estimator", con, "the estimate of %s is not %s of the inputs%s" % (
                    pn, fn, ": at %s" % wit if wit else ""), con, k.label())
        keep = {n: v for n, v in est.items()}
        missing = [(cn, pn) for (cn, pn) in ESTIMATORS if cn == c.name and pn not in vals and pn not in est]
        for cn, pn in missing:
            rep.fail("estimator", "%s.%s" % (cn, pn), "the omitted %s is not estimated" % pn, c.name, k.label())
    for n, v in keep.items():
        with Case(w, c, {**vals, n: v}, ex) as k2:
            rb = results(w, k2, methods=False)
            compare_results(rep, "estimate", rom, rb, c.name,
                            "supplying the estimate of %s explicitly changes the result" % n, k2.label())
    if len(keep) > 1:
        with Case(w, c, {**vals, **keep}, ex) as k2:
            compare_results(rep, "estimate", rom, results(w, k2, methods=False), c.name,
                            "supplying all of the estimates explicitly changes the result", k2.label())
    if unit[2] > 1:
        return
    # zero and False are values
    for p in w.params(c):
        con = "%s.%s" % (c.name, p.name)
        if p.kind == "num" and (p.lo is None or p.lo <= 0) and (p.hi is None or p.hi >= 0) or (
                p.kind == "any" and not p.required) or (p.kind == "cat" and p.options and False in p.options):
            z = False if p.kind == "cat" else 0
            with Case(w, c, {**vals, p.name: z}, ex) as k:
                if k.m is None:
                    continue
                s, x = k.get("scenario")
                v = item(ip, s, p.name)
                rep.require(v is not None and v is not MISSING and vnodes(ip, v) == vnodes(ip, z), "zero", con,
                            "%s=%r is replaced by something else" % (p.name, z), con, k.label())
                rz = results(w, k, methods=False)
            if p.kind != "num" or p.name not in vals:
                continue
            with Case(w, c, vals, ex) as k:
                ra = results(w, k, methods=False)
            at = vals[p.name].node if isinstance(vals[p.name], Num) else None
            if at is None:
                continue
            sub = {at: g.const(0)}
            ra = {l: fsubst(f, sub) for l, f in ra.items()}
            compare_results(rep, "zero-result", ra, rz, c.name, "%s=0 is not evaluated like other values of it" % p.name,
                            k.label(), skip=("scenario",))
    rep.sample(k.label())


def fsubst(f, sub):
    if isinstance(f, g.Node):
        return g.subst(f, sub)
    if isinstance(f, tuple):
        return tuple(fsubst(x, sub) for x in f)
    return f
