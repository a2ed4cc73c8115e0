"""The interpolating methods are evaluated on abstract spectra at positions that
are on, between and beyond the tabulated periods, and on a symbolic position:
on a period the value graph must be the tabulated ordinate, half way between two
periods in log-period it must be the mean of their logarithms, outside of the
tabulated range it must be NaN on every path; the linear and logarithmic forms
must agree, a requested kind must reach the interpolator, and scalars, lists and
arrays of periods must all be taken and keep their length."""
import math

from .common import *
from .c11 import num_of

LEVEL = "other"
# the other kinds of scipy.interpolate.interp1d and their spline order, if they have one
KINDS = {"nearest": None, "zero": 0, "quadratic": 2, "cubic": 3}

FLOOR = {"knot": 500, "between": 300, "outside": 100, "agree": 40, "kind": 30, "shape": 100}
#: method -> (tabulated result, the interpolated result is its logarithm / exponential / itself, extrapolates as NaN)
METHODS = {
    "interp_ln_spec_accels": ("spec_accels", "log", True), "interp_spec_accels": ("spec_accels", "exp", True),
    "interp_ln_stds": ("ln_stds", "same", True), "interp_ratio": ("ratio", "exp", False),
    "interp_ln_std": ("ln_std", "same", False),
}


def units(w, tier):
    out = []
    seen = {}
    for u in model_units(w, tier):
        c = w.cls(u[1])
        if not any(ip_has(w, c, m) for m in METHODS):
            continue
        seen[c.name] = seen.get(c.name, 0) + 1
        if tier != "quick" or seen[c.name] <= 12:
            out.append(u)
    return out


def ip_has(w, c, m):
    return w.ip.find_class_attr(c, m) is not MISSING


def close(a, b):
    """Equal up to the rounding of the interpolation weights."""
    c0, ts = g.terms(g.sub(a, b))
    ca, ta = g.terms(a)
    return abs(c0) <= 1e-8 * (1 + abs(ca)) and all(
        abs(x) <= 1e-8 * max([1e-3] + [abs(v) for v in ta.values()]) for x in ts.values())


def cut_off(n):
    return any(z.op in ("trunc", "el:trunc") or z.op == "el:cut" and len(z.args) == 1 for z in g.walk(n))


def lnf(n):
    return g.log(n)


def run(w, unit, rep, tier):
    ip = w.ip
    with get_case(w, unit, tier) as k:
        if k.m is None:
            return
        c, lab = k.cls, k.label()
        ga = c.name == "GulerceAbrahamson2011"
        pv = ip.find_class_attr(c, "PERIODS") if ga else k.get("periods")[0]
        pers = [num_of(x) for x in elements(ip, pv) or ()]
        if not pers or any(p is None for p in pers):
            rep.undecided("knot", c.name)
            return
        off = next(i for i, p in enumerate(pers) if p > 0)
        pers = pers[off:]
        rep.inst(c.name)

        def at(m, p, **kw):
            v, e = k.callm(m, p, **kw)
            if e is not None:
                return e, None
            return None, elements(ip, v)

        for m, (tab, how, nanout) in METHODS.items():
            if not ip_has(w, c, m):
                continue
            con = "%s.%s" % (c.name, m)
            tv, e = k.get(tab)
            if e is not None:
                continue
            els = elements(ip, tv)
            if els is None:
                rep.undecided("knot", con)
                continue
            els = els[off:]
            logs = [x if how == "same" else lnf(x) for x in els]
            n = len(pers)
            # on the periods
            few = sorted(set(list(range(0, n, max(1, n // 8))) + [0, 1, n - 2, n - 1]))
            kn = few if unit[2] or tier == "quick" else range(n)
            dec = {"log": lambda x: x, "exp": lambda x: lnf(x), "same": lambda x: x}[how]

            def cmp(rule, got, want, msg):
                got = dec(got)
                r, wit = (True, "") if got is want or close(got, want) else node_equal(got, want)
                if r is None:
                    rep.undecided(rule, con)
                else:
                    rep.require(r, rule, con, msg + (": at %s" % wit if wit else ""), con, lab)

            for i in kn:
                x, got = at(m, pers[i])
                if x is not None or got is None or len(got) != 1:
                    if x is not None:
                        rep.fail("knot", con, "fails on the tabulated period %g (%s)" % (pers[i], exc_name(x)), con, lab)
                    else:
                        rep.undecided("knot", con)
                    continue
                cmp("knot", got[0], logs[i], "the value on the period %g is not the tabulated one" % pers[i])
            for i in [j for j in few if j + 1 < n]:
                x, got = at(m, math.sqrt(pers[i] * pers[i + 1]))
                if x is not None or not got:
                    rep.undecided("between", con)
                    continue
                cmp("between", got[0], g.scale(g.add(logs[i], logs[i + 1]), 0.5),
                    "half way (in log period) between %g and %g s it is not the mean of the two logarithms" % (
                        pers[i], pers[i + 1]))
            if nanout:
                for p in (pers[0] * 0.4, pers[-1] * 2.5, pers[0] * 0.98, pers[-1] * 1.02):
                    x, got = at(m, p)
                    if x is not None or not got:
                        if x is not None:
                            rep.fail("outside", con, "fails outside of the tabulated periods (%s)" % exc_name(x), con, lab)
                        else:
                            rep.undecided("outside", con)
                        continue
                    r = got[0]
                    if r.op == "nan":
                        rep.ok("outside")
                    elif g.has_unk(r) or r.op == "call" or node_equal(r, g.NAN)[0] is not False:
                        rep.undecided("outside", con)
                    else:
                        rep.fail("outside", con, "outside of the tabulated periods (%g s) the result is a number, not NaN" % p,
                                 con, lab)
            # arrays, lists
            q = [pers[1], pers[-2], math.sqrt(pers[0] * pers[1])]
            forms = {"array": ip.arr(D((3,), [g.const(v) for v in q])), "list": ip.mklist(list(q))}
            for fn, arg in forms.items():
                x, got = at(m, arg)
                if x is not None:
                    rep.fail("shape", con, "an %s of periods is refused (%s)" % (fn, exc_name(x)), con, lab)
                elif got is None:
                    rep.undecided("shape", con)
                else:
                    rep.require(len(got) == 3, "shape", con, "%d values for an %s of 3 periods" % (len(got), fn), con, lab)
                    if len(got) == 3:
                        cmp("shape", got[0], logs[1], "an %s of periods gives another value than the period alone" % fn)
                        cmp("shape", got[1], logs[-2], "an %s of periods gives another value than the period alone" % fn)
            # integers
            q = [i for i in (1, 2, 5, 10, 3, 4) if pers[0] <= i <= pers[-1]][:2]
            arr = ip.arr(D((len(q),), [g.const(i) for i in q]))
            ip.meta[arr.addr]["dt"] = frozenset()
            for fn, arg in (("array", arr), ("list", ip.mklist(list(q)))) if q else ():
                x, got = at(m, arg)
                if x is not None:
                    rep.fail("shape", con, "an %s of integer periods is refused (%s)" % (fn, exc_name(x)), con, lab)
                elif got is None:
                    rep.undecided("shape", con)
                else:
                    rep.require(len(got) == len(q), "shape", con, "%d values for an %s of %d periods" % (len(got), fn, len(q)), con, lab)
                    for i, y in zip(q, got):
                        x1, one = at(m, float(i))
                        if x1 is None and one and len(one) == 1 and one[0] is not y:
                            if cut_off(y) and not cut_off(one[0]):
                                rep.fail("shape", con, "an %s of integer periods gives values without their fractions" % fn, con, lab)
                                continue
                            cmp("shape", y, dec(one[0]), "an %s of integer periods gives another value than the period %d alone" % (fn, i))
        # the two forms agree for any period and kind
        if ip_has(w, c, "interp_spec_accels") and ip_has(w, c, "interp_ln_spec_accels"):
            p = api.num("period")
            for kw in ({}, {"kind": "cubic"}):
                x1, a = at("interp_ln_spec_accels", p, **kw)
                x2, b = at("interp_spec_accels", p, **kw)
                if a and b and len(a) == len(b) == 1:
                    r, wit = node_equal(g.exp(a[0]), b[0])
                    if r is None and not (g.has_unk(a[0]) or g.has_unk(b[0])) and kw == {}:
                        r = g.same(g.exp(a[0]), b[0]) or None
                    if r is None:
                        rep.undecided("agree", c.name)
                    else:
                        rep.require(r, "agree", c.name + ".interp_spec_accels",
                                    "the interpolated accelerations are not the exponential of interp_ln_spec_accels",
                                    c.name, lab)
                elif (x1 is None) != (x2 is None):
                    rep.fail("agree", c.name + ".interp_spec_accels", "only one of the two forms works", c.name, lab)
            for m in ("interp_ln_spec_accels", "interp_spec_accels", "interp_ln_stds"):
                x0, a = at(m, p)
                if x0 is not None or not a:
                    continue
                x1, b = at(m, p, kind="cubic")
                x2, d = at(m, p, kind="linear")
                con = "%s.%s" % (c.name, m)
                rep.require(x1 is None and bool(b), "kind", con, "kind='cubic' is refused", con, lab)
                if b:
                    rep.require(a[0] is not b[0], "kind", con, "the requested kind has no influence", con, lab)
                    if a[0] is not b[0]:
                        ks = {x.data[1] for x in g.walk(b[0]) if x.op == "call" and x.data and x.data[0] == "interp1d"}
                        rep.require(not ks or ks & {"cubic", 3}, "kind", con, "kind='cubic' interpolates as %s" % sorted(map(str, ks)), con, lab)
                for kind, order in KINDS.items():
                    x3, v = at(m, p, kind=kind)
                    if x3 is not None or not v:
                        rep.undecided("kind", con)
                    else:
                        ks = {x.data[1] for x in g.walk(v[0]) if x.op == "call" and x.data and x.data[0] == "interp1d"}
                        if ks and not any(isinstance(k, tuple) for k in ks):
                            rep.require(bool(ks & {kind, order}), "kind", con, "kind='%s' interpolates as %s" % (
                                kind, sorted(map(str, ks))), con, lab)
                        elif not ks and v[0] is a[0] and not g.has_unk(a[0]):
                            rep.fail("kind", con, "kind='%s' has no influence" % kind, con, lab)
                    for q in (pers[0] * 0.4, pers[-1] * 2.5):
                        x3, v = at(m, q, kind=kind)
                        if x3 is not None or not v:
                            rep.undecided("outside", con)
                            continue
                        fills = [x.data[3] for x in g.walk(v[0]) if x.op == "call" and x.data and x.data[0] == "interp1d"]
                        number = any(fv == "extrapolate" or isinstance(fv, tuple) and any(
                            isinstance(y, g.Node) and (y.op == "const" or node_equal(y, g.NAN)[0] is False) for y in fv) for fv in fills)
                        if not fills:
                            number = v[0].op != "nan" and node_equal(v[0], g.NAN)[0] is False
                        rep.require(not number, "outside", con, "with kind='%s' the result outside of the tabulated periods "
                                    "(%g s) is a number, not NaN" % (kind, q), con, lab)
                if d:
                    r, wit = node_equal(a[0], d[0])
                    if r is not None:
                        rep.require(r, "kind", con, "the default kind is not linear", con, lab)
        rep.sample(lab)
