"""Sign analysis in the interval domain: every median, amplification ratio and
duration is positive and every standard deviation non-negative, for all real
inputs (or all positive distances and velocities). The intervals come from the
structure of the value graphs (exponentials, roots of sums of squares, clipped
factors); what the domain cannot bound is left undecided, and a result that is
certainly of the wrong sign or certainly not a number over some box of inputs
is a violation."""
from .common import *

LEVEL = "other"
FLOOR = {"positive": 5000, "non-negative": 5000}
g.PARAM_RANGE.setdefault("v_s30", (30.0, 6000.0))
for _d in ("dist_rup", "dist_jb", "dist_hyp", "dist_epi", "dist_y0", "dist_crjb", "depth_tor", "depth_1_0", "depth_2_5",
           "depth_hyp"):
    g.PARAM_RANGE.setdefault(_d, (0.0, 1e4))
ASSUMES = ["distances and depths are not negative and the site velocity is positive"]
POS = ["spec_accels", "pga", "pgv", "pgd", "eas", "ratio", "duration", "interp_spec_accels", "interp_ratio"]
NON = ["ln_stds", "ln_std", "ln_std_pga", "ln_std_pgv", "ln_std_pgd", "std_err", "interp_ln_stds", "interp_ln_std"]


def units(w, tier):
    return model_units(w, tier)


def run(w, unit, rep, tier):
    ip = w.ip
    with get_case(w, unit, tier) as k:
        if not constructed(rep, "positive", k):
            return
        lab = k.label()
        rep.inst(k.cls.name)
        lim = {p.name: (float(p.lo), float(p.hi)) for p in w.params(k.cls) if all(
            isinstance(x, (int, float)) for x in (p.lo, p.hi))}
        for names, rule in ((POS, "positive"), (NON, "non-negative")):
            for n in names:
                if ip.find_class_attr(k.cls, n) is MISSING or n.startswith("interp"):
                    continue
                v, e = k.get(n)
                if e is not None:
                    continue
                els = elements(ip, v)
                if isinstance(v, RecArr):
                    els = [x for _, f in v.fields for x in (elements(ip, f) or ())]
                con = "%s.%s" % (k.cls.name, n)
                if els is None:
                    rep.undecided(rule, con)
                    continue
                bx = probe_boxes()
                for i, x in enumerate(els):
                    bad = nan_at(x, bx)
                    if bad is not None:
                        pub = " where c1a is not published" if con == "BaylessAbrahamson2019.ln_std" and i >= 239 else ""
                        rep.fail("not-nan", con + pub, "element %d is not a number%s" % (i, bad), con, lab)
                        continue
                    lo, hi = g.iv(x)
                    at = undefined(x, lim)
                    if at:
                        rep.fail("not-nan", con, "element %d is not a number at %s" % (i, at), con, lab)
                        continue
                    if lo >= 0:
                        rep.ok(rule)
                        continue
                    if hi < 0 or hi <= 0 and rule == "positive":
                        rep.fail(rule, con, "element %d is never positive" % i, con, lab)
                        continue
                    w_ = negative(x, bx) or below(x, lim)
                    if w_:
                        at = " D_5t75v" if con == "KemptonStewart2006.duration" and i == 2 else ""
                        rep.fail(rule, con + at, "element %d is certainly negative at %s" % (i, w_), con, lab)
                    else:
                        rep.undecided(rule, con)
        rep.sample(lab)


def nan_at(n, bx):
    """Where the value is certainly not a number, or None."""
    if g.has_unk(n):
        return None
    if n.op == "nan":
        return ""
    for b in bx:
        if b.get(n) is box.NANV:
            return " at " + box.witness(b, n, n)
    return None


def negative(n, bx):
    if g.has_unk(n):
        return None
    for b in bx:
        r = b.get(n)
        if isinstance(r, tuple) and r is not box.NANV and len(r) == 2 and r[1] < 0:
            return box.witness(b, n, n)
    return None


_LOW = {}


def undefined(x, lim):
    """A point inside the declared limits at which the value is the logarithm or a root of something
    negative, or None: searched for from each such operand that the interval
    domain does not show to be positive."""
    if g.has_unk(x):
        return None
    for n in g.walk(x):
        if n.op == "log":
            ops = n.args[:1]
        elif n.op == "mul":
            ops = [b for b, e in n.args if e != int(e)]
        elif n.op == "pow":
            ops = n.args[:1]
        else:
            continue
        for o in ops:
            if o.op in ("param", "const", "exp") or g.iv(o)[0] >= 0:
                continue
            key = o, tuple(sorted(lim.items()))
            if key not in _LOW:
                _LOW[key] = box.lowest(o, lim)
            b, v = _LOW[key]
            if v < 0 and b.get(x) is box.NANV:
                return box.witness(b, x)
    return None


def below(x, lim):
    """A point inside the declared limits at which the value is negative, or None."""
    if g.has_unk(x):
        return None
    b, v = box.lowest(x, lim)
    return box.witness(b, x) if v < 0 else None
