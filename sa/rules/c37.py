"""Value graphs of the public site terms (site and basin response for a given
reference motion), for every region, with and without a basin depth, for the
reference condition (no reference motion) and for motions given as a number,
list or array, compared with the published site terms (sa/spec/free)."""
from .free import *

LEVEL = "other"
FLOOR = {"site-term": 1500}
from .c36 import REGIONS


def variants(w, tier):
    A = lambda *a: Given(w, *a)
    sc = lambda n: A("scalar", scalar(n))
    raw = lambda v: A("raw", v)
    nan = A("scalar", g.NAN)
    out = []
    n = lambda t: fs.rows(t)
    for r in REGIONS + ("omitted",):
        # the region has a default, except in ChiouYoungs2014
        rk = {} if r == "omitted" else dict(region=raw(r))
        for z in (raw(None), sc("depth_1_0")):
            T = "abrahamson_silva_kamai_2014"
            for s in (A("array", atoms("resp_ref", n(T))), sc("resp_ref")):
                out.append(("AbrahamsonSilvaKamai2014.calc_site_term", dict(resp_ref=s, v_s30=sc("v_s30"), depth_1_0=z, **rk)))
            out.append(("AbrahamsonSilvaKamai2014.calc_site_term",
                        dict(resp_ref=nan, v_s30=A("scalar", g.const(1180.0)), depth_1_0=z, **rk)))
            for s in (sc("pga_ref"), nan):
                out.append(("BooreStewartSeyhanAtkinson2014.calc_site_term",
                            dict(pga_ref=s, v_s30=sc("v_s30"), depth_1_0=z, **rk)))
        if r is not None:
            out.append(("CampbellBozorgnia2014.calc_site_term",
                        dict(pga_ref=sc("pga_ref"), v_s30=sc("v_s30"), depth_2_5=sc("depth_2_5"), **rk)))
            for z in (raw(None), sc("depth_2_5")):
                out.append(("CampbellBozorgnia2014.calc_site_term",
                            dict(pga_ref=nan, v_s30=A("scalar", g.const(1100.0)), depth_2_5=z, **rk)))
        for s in () if r == "omitted" else (A("array", atoms("resp_ref", n("chiou_youngs_2014"))), sc("resp_ref")):
            out.append(("ChiouYoungs2014.calc_site_term", dict(resp_ref=s, v_s30=sc("v_s30"), depth_1_0=sc("depth_1_0"), **rk)))
    return out


def units(w, tier):
    return list(range(len(variants(w, tier))))


def run(w, unit, rep, tier):
    label, kw = variants(w, tier)[unit]
    check(w, rep, tier, "site-term", label, kw, "not the published site term")
