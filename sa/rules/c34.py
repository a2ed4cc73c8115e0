"""Value graphs of the correlation functions between periods or frequencies, for
arbitrary (also unordered and repeated) ordinates given as lists or arrays,
compared with the published correlation (sa/spec/free): unit diagonal, symmetry
and covariance = correlation times both standard deviations included."""
from .free import *

LEVEL = "other"
FLOOR = {"correlation": 100}

BA, PJ, BJ = "BaylessAbrahamson2018.", "Stafford2017.", "pygmm.baker_jayaram_2008."


def variants(w, tier):
    A = lambda *a: Given(w, *a)
    sc = lambda n: A("scalar", scalar(n))
    raw = lambda v: A("raw", v)
    n = 3 if tier == "quick" else 4
    fq = [A("array", atoms("freqs", n)), A("list", atoms("freqs", n))]
    rep = atoms("freqs", n)
    fq.append(A("array", [rep[0], rep[1], rep[0]]))
    out = []
    for f in fq:
        out.append((BA + "corr", dict(freqs=f)))
        out.append((PJ + "cor", dict(freqs=f)))
        out.append((PJ + "cov", dict(freqs=f, mag=sc("mag"))))
        out.append((PJ + "cov", dict(freqs=f)))
        out.append((PJ + "cor", dict(freqs=f, mag=sc("mag"))))
        out.append((PJ + "compute_variances", dict(freqs=f)))
        out.append((BA + "cov", dict(freqs=f)))
        m = len(f.nodes)
        for k in ("array", "list"):
            s = {x: A(k, atoms(x, m)) for x in ("std", "sigma_E", "sigma_S", "sigma_A")}
            out.append((BA + "cov", dict(freqs=f, std=s["std"])))
            for keep in (("sigma_E",), ("sigma_S",), ("sigma_A",), ("sigma_E", "sigma_S", "sigma_A")):
                out.append((PJ + "cov", dict(freqs=f, mag=sc("mag"), **{x: s[x] for x in keep})))
            out.append((PJ + "cor", dict(freqs=f, mag=sc("mag"), **{x: s[x] for x in s if x != "std"})))
            # no deviation, at any or at the first frequency
            for z in ([g.ZERO] * m, [g.ZERO] + atoms("std", m)[1:]):
                out.append((BA + "cov", dict(freqs=f, std=A(k, z))))
                for x in ("sigma_E", "sigma_S", "sigma_A"):
                    out.append((PJ + "cov", dict(freqs=f, mag=sc("mag"), **{x: A(k, z)})))
                    out.append((PJ + "cov", dict(freqs=f, mag=sc("mag"), **{**{y: s[y] for y in s if y != "std"}, x: A(k, z)})))
            # a standard deviation for each frequency
            for x in ("sigma_E", "sigma_S", "sigma_A"):
                for q in (m - 1, m + 1):
                    for fn in ("cov", "cor"):
                        out.append((PJ + fn, dict({"#want": "ValueError"}, freqs=f, mag=sc("mag"), **{x: A(k, atoms(x, q))})))
                        out.append((PJ + fn, dict({"#want": "ValueError"}, freqs=f, mag=sc("mag"), **{
                            **{y: s[y] for y in s if y != "std"}, x: A(k, atoms(x, q))})))
        for c in ("tau", "phi_s2s", "phi_s", "sigma"):
            out.append((BA + "cov", dict(freqs=f, component=raw(c))))
    out.append((PJ + "compute_corner_frequency", dict(mag=sc("mag"))))
    out.append((PJ + "compute_gamma_E", dict(f_min=sc("f_min"), mag=sc("mag"))))
    for k in ("eta_A", "gamma_A", "eta_S", "gamma_S"):
        out.append((PJ + "compute_" + k, dict(f_min=sc("f_min"))))
    for same in (False, True):
        pair = dict(f_i=sc("f_i"), f_j=sc("f_i" if same else "f_j"))
        out.append((PJ + "within_event_correlation", pair))
        out.append((PJ + "between_site_correlation", pair))
        out.append((PJ + "between_event_correlation", dict(mag=sc("mag"), **pair)))
    for k in ("array", "list"):
        out.append((BJ + "calc_correls", dict(periods=A(k, atoms("periods", n)), period_cond=sc("period_cond"))))
    return out


def units(w, tier):
    return list(range(len(variants(w, tier))))


def run(w, unit, rep, tier):
    label, kw = variants(w, tier)[unit]
    check(w, rep, tier, "correlation", label, kw, "not the published correlation")
