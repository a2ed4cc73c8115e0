"""Value graphs of the public estimators of inputs that were not given (depths,
widths, period of PGV), for every region, mechanism and way of giving the
arguments, compared with the published relationships (sa/spec/free); and of the
value that each model keeps for the omitted input."""
from .free import *

LEVEL = "other"
FLOOR = {"estimator": 20}
REGIONS = ("global", "california", "china", "italy", "japan", "new_zealand", "taiwan", "turkey", None)


def variants(w, tier):
    A = lambda *a: Given(w, *a)
    sc = lambda n: A("scalar", scalar(n))
    raw = lambda v: A("raw", v)
    out = []
    for c in ("AbrahamsonSilvaKamai2014", "ChiouYoungs2014", "AfshariStewart2016"):
        for r in REGIONS:
            out.append((c + ".calc_depth_1_0", dict(v_s30=sc("v_s30"), region=raw(r))))
        if c != "ChiouYoungs2014":
            out.append((c + ".calc_depth_1_0", dict(v_s30=sc("v_s30"))))
    out.append(("BaylessAbrahamson2019.calc_depth_1_0", dict(v_s30=sc("v_s30"))))
    C = "CampbellBozorgnia2014."
    for r in REGIONS[:-1]:
        for z in (raw(None), sc("depth_1_0")):
            out.append((C + "calc_depth_2_5", dict(v_s30=sc("v_s30"), region=raw(r), depth_1_0=z)))
            out.append((C + "calc_depth_2_5", dict(v_s30=raw(None), region=raw(r), depth_1_0=z)))
    out.append((C + "calc_depth_2_5", dict(v_s30=sc("v_s30"))))
    out.append((C + "calc_depth_2_5", dict(v_s30=raw(None), depth_1_0=sc("depth_1_0"))))
    for m in ("U", "SS", "NS", "RS"):
        out.append(("ChiouYoungs2014.calc_depth_tor", dict(mag=sc("mag"), mechanism=raw(m))))
    out.append(("AbrahamsonSilvaKamai2014.calc_depth_tor", dict(mag=sc("mag"))))
    out.append(("AbrahamsonSilvaKamai2014.calc_width", dict(mag=sc("mag"), dip=sc("dip"))))
    out.append((C + "calc_width", dict(mag=sc("mag"), dip=sc("dip"), depth_tor=sc("depth_tor"))))
    out.append((C + "calc_width", dict(mag=sc("mag"), dip=sc("dip"), depth_tor=sc("depth_tor"), depth_bot=sc("depth_bot"))))
    out.append((C + "calc_depth_bor", dict(depth_tor=sc("depth_tor"), dip=sc("dip"), width=sc("width"))))
    out.append((C + "calc_depth_hyp", dict(mag=sc("mag"), dip=sc("dip"), depth_tor=sc("depth_tor"), depth_bor=sc("depth_bor"))))
    out.append(("AbrahamsonBhasin2020.ln_period_pgv", dict(mag=sc("mag"))))
    return out


def units(w, tier):
    return list(range(len(variants(w, tier))))


def run(w, unit, rep, tier):
    label, kw = variants(w, tier)[unit]
    check(w, rep, tier, "estimator", label, kw, "not the published estimate")
