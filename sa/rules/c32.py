"""Comparison of the value graphs of every duration (all energy levels, plus and
minus one standard deviation, the functions that take arrays of scenarios or of
Arias intensities included) and its uncertainty with the published form in
sa/spec, by congruence, region splitting and normal forms; disjoint intervals
over some region refute the equality."""
from .form import *
from . import free
from .free import Given, scalar, atoms

LEVEL = "other"
FLOOR = {"duration": 400}
NAMES = ("AbrahamsonSilva1996", "KemptonStewart2006", "AfshariStewart2016", "PinillaRamosEtAl2023", "PinillaRamosEtAl2024")
PR = "pygmm.pinilla_ramos_et_al_2024.duration_model"
#: standard error of the logarithm of the duration, by normalized Arias intensity
AS96_STD = [0.843, 0.759, 0.713, 0.691, 0.674, 0.660, 0.646, 0.636, 0.628, 0.616, 0.605, 0.594, 0.582, 0.565, 0.545,
            0.528, 0.510, 0.493]


def functions(w, tier):
    A = lambda *a: Given(w, *a)
    sc = lambda n: A("scalar", scalar(n))
    raw = lambda v: A("raw", v)
    out = [("AbrahamsonSilva1996.calc_ln_dur_incr", dict(nias=x))
           for x in (sc("nias"), A("array", atoms("nias", 3)), A("list", atoms("nias", 3)))]
    for t in ("interface", "slab"):
        for r in ("Japan", "New Zealand", "South America", "Taiwan"):
            for e in (0.75, 0.1, 0.45, 0.95):
                for kind in ("scalar", "array", "list", "mixed"):
                    if kind == "scalar":
                        a = {k: sc(k) for k in ("mag", "rrup", "vs30")}
                    elif kind == "mixed":
                        a = dict(mag=sc("mag"), rrup=A("array", atoms("rrup", 3)), vs30=A("list", atoms("vs30", 1)))
                    else:
                        a = {k: A(kind, atoms(k, 2)) for k in ("mag", "rrup", "vs30")}
                    out.append((PR, dict(region=raw(r), eq_type=raw(t), energy=raw(e), **a)))
    return out


def units(w, tier):
    return ([u for u in model_units(w, tier) if u[1] in NAMES] + [("f", i) for i in range(len(functions(w, tier)))])


def run(w, unit, rep, tier):
    if unit[0] == "f":
        label, kw = functions(w, tier)[unit[1]]
        free.check(w, rep, tier, "duration", label, kw, "not the published duration")
        return
    others(w, unit, rep, tier, "duration", "%s is not the published duration")
    if unit[1] == "AbrahamsonSilva1996":
        intensities(w, unit, rep, tier)


def intensities(w, unit, rep, tier):
    """Durations for several normalized intensities and standard deviations."""
    from ..spec.other import as96_increment
    ip = w.ip
    X, nd = core.X, core.nd
    with get_case(w, unit, tier) as k:
        if not constructed(rep, "duration", k):
            return
        vals = resolved(w, k)
        q = core.Q(vals)
        base = core.ln(other.OTHER["AbrahamsonSilva1996"](q)["duration"][0]) - as96_increment(X(nd(0.75)))
        xs = [X(n) for n in atoms("nias", 2)]
        grid = [round(0.10 + 0.05 * i, 2) for i in range(18)]
        pr = probe_of(tier)
        for kind in ("array", "list"):
            for stds in (None, [X(g.atom("arg", "stds[%d]" % i)) for i in range(2)]):
                kw = dict(nias=Given(w, kind, [x.n for x in xs]).value())
                want = []
                for s in stds or [None]:
                    for x in xs:
                        d = base + as96_increment(x)
                        if s is not None:
                            d = d + s * core.interp(x, grid, AS96_STD)
                        want.append(core.where((x < 0.10) | (x > 0.95), core.NAN, core.exp(d)))
                if stds:
                    kw["stds"] = Given(w, kind, [s.n for s in stds]).value()
                v, e = k.callm("interp", **kw)
                con = "AbrahamsonSilva1996.interp"
                els = elements(ip, v) if e is None else None
                if e is not None:
                    rep.fail("duration", con, "refused (%s)" % exc_name(e), con, k.label())
                    continue
                if els is None or len(els) != len(want):
                    rep.undecided("duration", con)
                    continue
                for i, (x, s) in enumerate(zip(els, want)):
                    r, wit = pr.equal(x, s.n)
                    if r is None:
                        rep.undecided("duration", con)
                    elif r:
                        rep.ok("duration")
                    else:
                        rep.fail("duration", con, "value %d is not the published duration: at %s" % (i, wit), con, k.label())
                        break
