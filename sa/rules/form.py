"""Comparison of a model's value graphs with the published functional forms
written down in sa/spec (shared by the rules C30 to C3x)."""
from .common import *
from .c11 import num_of, near, col_of, PEAK
from .. import split
from ..spec import core, nga, stable, other

SPECS = core.MODELS
#: only physical inputs count: distances and depths are not negative, velocities and widths positive
for _d in ("dist_rup", "dist_jb", "dist_hyp", "dist_epi", "dist_y0", "dist_crjb", "depth_tor", "depth_bor", "depth_bot",
           "depth_hyp", "depth_1_0", "depth_2_5"):
    g.PARAM_RANGE.setdefault(_d, (0.0, 1e4))
for _d, _lo, _hi in (("mag", 0.0, 12.0), ("v_s30", 1.0, 1e5), ("width", 1e-3, 1e4), ("dip", 1e-2, 90.0), ("pga_ref", 0.0, 1e3)):
    g.PARAM_RANGE.setdefault(_d, (_lo, _hi))


def resolved(w, k):
    """{input: node, str, bool or None} as the evaluated model keeps them."""
    ip = w.ip
    s, e = k.get("scenario")
    if e is not None:
        return None
    out = {}
    names = [p.name for p in w.params(k.cls)]
    for n in names:
        try:
            v = ip.getitem(s, n)
        except AbsRaise:
            continue
        out[n] = plain(ip, v)
    for n, v in k.kw.items():
        out[n] = plain(ip, v)
        if isinstance(v, Arr) and out[n] is v:
            out[n] = elements(ip, v)
    return out


def plain(ip, v):
    if isinstance(v, Num):
        return v.node
    if isinstance(v, (bool, str)) or v is None:
        return v
    if isinstance(v, (int, float)):
        return g.const(v)
    e = elements(ip, v)
    if e is not None and len(e) == 1:
        return e[0]
    if isinstance(v, Gate):
        a, b = plain(ip, v.a), plain(ip, v.b)
        if isinstance(a, g.Node) and isinstance(b, g.Node):
            return g.ite(v.cond, a, b)
        return Gated(v.cond, a, b)
    return v


class Gated:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Probe:
    """Equality with a published form, within a budget of regions."""

    def __init__(self, regions=4000):
        self.budget = split.Budget(regions)
        self.memo = {}

    def equal(self, a, b):
        r = self.memo.get((a, b))
        if r is None:
            r, bx = split.compare(a, b, probe_boxes(), self.budget)
            r = self.memo[a, b] = (r, box.witness(bx, a, b) if bx is not None else "")
        return r


_probe = []


def probe_of(tier):
    """One proof cache per process, a fresh budget per unit."""
    if not _probe:
        _probe.append(Probe())
    _probe[0].budget.n = 6000 if tier == "quick" else 20000
    return _probe[0]


PERIOD_OF = {"pga": 0.0, "pgv": -1.0, "pgd": -2.0}


def spectra(w, unit, rep, tier, results, rule_of, view, msg, case=None):
    """Every ordinate and peak value of one case against its specification."""
    ip = w.ip
    with case or get_case(w, unit, tier) as k:
        if not constructed(rep, rule_of(next(iter(results))), k):
            return
        c, lab = k.cls, k.label()
        sp = SPECS[c.name]
        vals = resolved(w, k)
        if vals is None:
            rep.undecided("scenario", c.name)
            return
        try:
            sv = sp["build"](core.Q(vals))
        except (TypeError, AttributeError, KeyError) as e:
            rep.undecided("scenario", "%s: %s" % (c.name, e))
            return
        if not sv:
            return
        rep.inst(c.name)
        pr = probe_of(tier)
        if sp["table"] is None:
            tab = sp["periods"]()
        elif sp["table"] + ".csv" not in g.TABLES:
            raise AnalysisError("the coefficient table %s is gone" % sp["table"])
        else:
            tab = g.TABLES[sp["table"] + ".csv"]["period"]
        for name, (key, peak) in results.items():
            con = "%s.%s" % (c.name, name)
            rule = rule_of(name)
            if peak:
                per = sp.get(peak, PERIOD_OF[peak])
                if per is None or not any(near(p, per) for p in tab):
                    continue
                pers = [per]
            else:
                pv, e = k.get("periods")
                pers = [num_of(x) for x in (elements(ip, pv) or ())] if e is None else []
            v, e = k.get(name)
            if e is not None:
                if name not in NOT_PROVIDED.get(c.name, ()):
                    rep.fail(rule, con, "refused (%s)" % exc_name(e), con, lab)
                continue
            els = elements(ip, v)
            if els is None or len(els) != len(pers) or any(p is None for p in pers):
                rep.undecided(rule, con)
                continue
            for x, per in zip(els, pers):
                row = [i for i, p in enumerate(tab) if near(p, per)]
                if not row:
                    rep.fail(rule, con, "period %g is not one of the published ones" % per, con, lab)
                    break
                if len(row) != 1:
                    rep.undecided(rule, "%s: no single row for period %g" % (con, per))
                    continue
                try:
                    want = sv[key](row[0]).n
                except core.SpecError as e:
                    rep.undecided(rule, "%s: %s" % (con, e))
                    break
                r, wit = pr.equal(view(x), want)
                if r is None:
                    rep.undecided(rule, con)
                elif r:
                    rep.ok(rule)
                else:
                    rep.fail(rule, con, msg % (name, per) + ": at " + wit, con, lab)
                    break
        rep.sample(lab)


def flat(ip, v):
    """(names or None, scalar nodes) of a scalar, array, record or tuple."""
    if isinstance(v, RecArr):
        names, out = [], []
        for n, x in v.fields:
            e = elements(ip, x)
            if e is None or len(e) != 1:
                return None, None
            names.append(n)
            out += e
        return names, out
    return None, elements(ip, v)


def others(w, unit, rep, tier, rule, msg):
    """Named results of one case against their specification (sa/spec/other)."""
    ip = w.ip
    with get_case(w, unit, tier) as k:
        if not constructed(rep, rule, k):
            return
        c, lab = k.cls, k.label()
        vals = resolved(w, k)
        if vals is None:
            rep.undecided("scenario", c.name)
            return
        try:
            sv = other.OTHER[c.name](core.Q(vals))
        except core.SpecError as e:
            raise AnalysisError(str(e))
        except (TypeError, AttributeError, KeyError) as e:
            rep.undecided("scenario", "%s: %s" % (c.name, e))
            return
        rep.inst(c.name)
        pr = probe_of(tier)
        for nm, want in sv.items():
            if isinstance(nm, str):
                if nm.startswith("#"):
                    continue
                con = "%s.%s" % (c.name, nm)
                v, e = k.get(nm)
            else:
                con = "%s.%s" % (c.name, nm[0])
                v, e = k.callm(*[Num(g.const(x), py=True) if isinstance(x, float) else x for x in nm])
            if e is not None:
                rep.fail(rule, con, "refused (%s)" % exc_name(e), con, lab)
                continue
            names, els = flat(ip, v)
            if isinstance(want, dict):
                if names is None:
                    rep.undecided(rule, con)
                    continue
                rep.require(sorted(names) == sorted(want), rule, con, "the fields are %s" % names, con, lab)
                want = [want.get(n) for n in names]
            if els is None or len(els) != len(want):
                rep.undecided(rule, con)
                continue
            for i, (x, s) in enumerate(zip(els, want)):
                if s is None:
                    continue
                r, wit = pr.equal(x, s.n)
                what = names[i] if names else nm if isinstance(nm, str) else "%s %s" % nm
                if r is None:
                    rep.undecided(rule, con)
                elif r:
                    rep.ok(rule)
                else:
                    rep.fail(rule, con, msg % what + (": at " + wit if wit else ""), con, lab)
                    break
        rep.sample(lab)
