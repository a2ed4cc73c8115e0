"""Constructor options (adjustment of the magnitude break and of the saturation,
scale of the anelastic attenuation) of the subduction models: the value graphs
of every median and standard deviation with numbers and arrays for the options,
alone and together, are compared with the published form in which they replace
the defaults; leaving an option out equals giving its default, and the model
reports the options that it was given."""
from .form import *
from . import c30, c31
from .free import maybe_ints

LEVEL = "other"
FLOOR = {"median": 1000, "standard-deviation": 400, "reported": 60, "default": 100}
OPTIONS = {"AbrahamsonGregorAddo2016": {"adjust_c1": None, "adjust_c4": 0, "scale_atten": 1.0},
           "CoppersmithBommer2014": {"scale_atten": 1.0}}


def choices(w, c):
    """[{option: builder}]: symbols, arrays and numbers that are easily taken for absent."""
    sym = lambda n: lambda: Num(g.atom("arg", "+" + n), py=True)
    val = lambda v: lambda: v
    n = len(elements(w.ip, w.ip.find_class_attr(w.cls(c), "PERIODS")))
    sign = lambda i, x: g.neg(x) if i % 2 else x
    arr = lambda: maybe_ints(w.ip, [sign(i, g.atom("arg", "+dc1[%d]" % i)) for i in range(n)])
    low = lambda: Num(g.neg(g.atom("arg", "+dc1")), py=True)
    if c == "CoppersmithBommer2014":
        return [{"scale_atten": f} for f in (sym("scale"), val(0.0), val(2.0))]
    return [{"adjust_c1": sym("dc1")}, {"adjust_c1": low}, {"adjust_c1": arr}, {"adjust_c1": val(0.0)}, {"adjust_c1": val(0)}, {"adjust_c1": val(-0.5)},
            {"adjust_c4": sym("dc4")}, {"adjust_c4": val(3)}, {"scale_atten": sym("scale")}, {"scale_atten": val(0.0)},
            {"adjust_c1": sym("dc1"), "adjust_c4": sym("dc4"), "scale_atten": sym("scale")},
            {"adjust_c1": arr, "adjust_c4": sym("dc4"), "scale_atten": val(0.0)}]


def units(w, tier):
    return [("option", c, i, j) for c in OPTIONS for i in range(len(cases_of(w, w.cls(c), tier))) for j in range(len(choices(w, c)))]


def run(w, unit, rep, tier):
    ip = w.ip
    c = w.cls(unit[1])
    vals = cases_of(w, c, tier)[unit[2]]
    ch = choices(w, c.name)[unit[3]]
    make = lambda: Case(w, c, vals, tuple(ch.items()))
    what = "the median of %s at period %g with the options is not the published one"
    spectra(w, unit, rep, tier, c30.RESULTS, lambda n: "median", g.log, what, make())
    if unit[3] % 3 == 0:
        spectra(w, unit, rep, tier, c31.RESULTS, lambda n: "standard-deviation", lambda x: x, what.replace("median", "standard deviation"), make())
    with make() as k:
        if k.m is None:
            return
        n = len(elements(ip, ip.find_class_attr(c, "PERIODS")))
        for o in OPTIONS[c.name]:
            if o not in ch:
                continue
            con = "%s.%s" % (c.name, o)
            v, e = k.get(o)
            if e is not None:
                rep.fail("reported", con, "raises %s" % exc_name(e), con, k.label())
                continue
            want, got = elements(ip, k.kw[o]), elements(ip, v)
            if want is None or got is None:
                rep.undecided("reported", con)
                continue
            if len(want) == 1 and len(got) == n:
                want = want * n
            r = [node_equal(a, b)[0] for a, b in zip(got, want)] if len(got) == len(want) else [False]
            if None in r:
                rep.undecided("reported", con)
            else:
                rep.require(all(r), "reported", con, "is not the value that was given", con, k.label())
    if unit[3]:
        return
    # an option left out is its default
    with Case(w, c, vals) as k:
        if not constructed(rep, "default", k):
            return
        ref = results(w, k, methods=False)
    for o, d in OPTIONS[c.name].items():
        with Case(w, c, vals, ((o, lambda: d),)) as k:
            compare_results(rep, "default", ref, results(w, k, methods=False), c.name,
                            "giving the default %s=%s changes the result" % (o, d), k.label())
