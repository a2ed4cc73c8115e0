"""Published forms of the functions that are called without a scenario:
correlations between ordinates, covariances, conditional spectra, estimators of
omitted inputs and site terms.  A specification maps the arguments (X, list of X,
strings, None) to the list of expected values."""
from .core import *

FREE = {}


def free(label):
    def deco(f):
        FREE[label] = f
        return f
    return deco


def table(t, c):
    return g.atom("col", t + ".csv", c, None)


# ------------------------------------------------ Bayless & Abrahamson (2018)
BA18 = "bayless_abrahamson_2018"


def at_freq(c, f):
    rows(BA18)
    return X(g.interp(f.n, table(BA18, "freq_hz"), table(BA18, c)))


@free("BaylessAbrahamson2018.corr")
def ba18_corr(a):
    fs = a["freqs"]
    out = []
    for i, fi in enumerate(fs):
        for j, fj in enumerate(fs):
            if i == j:
                out.append(X(g.ONE))
                continue
            lo = mini(fi, fj)
            r = el("abs", ln(fi / fj))
            A, B, C, D = (at_freq(k, lo) for k in "ABCD")
            out.append(tanh(A * exp(B * r) + C * exp(D * r)))
    return out


@free("BaylessAbrahamson2018.cov")
def ba18_cov(a):
    fs, n = a["freqs"], len(a["freqs"])
    if a.get("std") is not None:
        s = a["std"]
    elif a.get("component") is not None:
        s = [at_freq(a["component"], f) for f in fs]
    else:
        return "NotImplementedError"
    return [c * s[k // n] * s[k % n] for k, c in enumerate(ba18_corr(a))]


# ------------------------------------------------ Stafford (2017)
def sigmoid(f, a0, a1, a2):
    return a0 / (1 + exp(-a2 * ln(f / a1)))


PJS = dict(
    cf=(2.181, 0.496), gamma_E=(-0.4690, 0.1275, 0.7793, 3.0324, 0.0106),
    eta_A=(0.7606, 0.2993, 1.5837, -0.5094, 24.579, 2.3518), gamma_A=(0.9515, 1.2752, 1.4802, -0.3361, 10.0),
    eta_S=(0.1126, -0.1068, 0.25, 4.0), gamma_S=(-0.6968, -0.2963, 0.3326, 5.0078, 0.5703, 2.3973, 3.5779),
    sigma_E=(0.8757, -0.3309, 0.5871, 5.4264, 0.5177, 16.357, 1.4689),
    sigma_S=(0.6167, -0.1495, 0.7248, 3.6985, 0.3640, 13.457, 2.2497), sigma_A=(0.7260, 0.0328, 5.0))


def pjs(k):
    return [g.const(v) for v in PJS[k]] and [X(g.const(v)) for v in PJS[k]]


@free("Stafford2017.compute_corner_frequency")
def pjs_fc(a):
    c1, c2 = pjs("cf")
    return [10 ** (c1 - c2 * a["mag"])]


@free("Stafford2017.compute_gamma_E")
def pjs_gamma_e(a):
    c = pjs("gamma_E")
    f = a["f_min"] / pjs_fc(a)[0]
    return [c[0] + sigmoid(f, c[1], c[2], c[3]) + c[4] * ln(f / c[2])]


@free("Stafford2017.compute_eta_A")
def pjs_eta_a(a):
    c = pjs("eta_A")
    return [sigmoid(a["f_min"], *c[:3]) * (1 + sigmoid(a["f_min"], *c[3:]))]


@free("Stafford2017.compute_gamma_A")
def pjs_gamma_a(a):
    c = pjs("gamma_A")
    f = a["f_min"]
    m = mini(f, c[4])
    return [c[0] + c[1] * m / (m + c[2] * (1 - m / c[4])) + c[3] * ln(maxi(f, c[4]) / c[4]) ** 2]


@free("Stafford2017.compute_eta_S")
def pjs_eta_s(a):
    c = pjs("eta_S")
    f = a["f_min"]
    return [c[0] * ln(maxi(mini(f, c[3]), c[2]) / c[2]) + c[1] * ln(maxi(f, c[3]) / c[3])]


@free("Stafford2017.compute_gamma_S")
def pjs_gamma_s(a):
    c = pjs("gamma_S")
    return [c[0] + sigmoid(a["f_min"], *c[1:4]) + sigmoid(a["f_min"], *c[4:])]


def ordered(a):
    return mini(a["f_i"], a["f_j"]), maxi(a["f_i"], a["f_j"])


@free("Stafford2017.between_event_correlation")
def pjs_rho_e(a):
    lo, hi = ordered(a)
    return [exp(pjs_gamma_e({"f_min": lo, "mag": a["mag"]})[0] * ln(hi / lo))]


def close(a):
    """The two frequencies are the same, to within rounding."""
    return X(g.mk("el:isclose", (a["f_i"].n, a["f_j"].n), None))


def nugget(a, rho, lo, hi):
    if a["f_i"].n is a["f_j"].n:
        return X(g.ONE)
    t = exp(-50 * ln(hi / lo))
    return rho * (1 - t) + t


@free("Stafford2017.within_event_correlation")
def pjs_rho_a(a):
    lo, hi = ordered(a)
    f = {"f_min": lo}
    return [nugget(a, (1 - pjs_eta_a(f)[0]) * exp(-pjs_gamma_a(f)[0] * ln(hi / lo)), lo, hi)]


@free("Stafford2017.between_site_correlation")
def pjs_rho_s(a):
    lo, hi = ordered(a)
    f = {"f_min": lo}
    return [nugget(a, (1 - pjs_eta_s(f)[0]) * exp(pjs_gamma_s(f)[0] * ln(hi / lo)), lo, hi)]


def pjs_sigmas(fs):
    e, s, w = pjs("sigma_E"), pjs("sigma_S"), pjs("sigma_A")
    return ([e[0] + sigmoid(f, *e[1:4]) + sigmoid(f, *e[4:]) for f in fs],
            [s[0] + sigmoid(f, *s[1:4]) + sigmoid(f, *s[4:]) for f in fs],
            [w[0] + w[1] * ln(maxi(f, w[2]) / w[2]) ** 2 for f in fs])


@free("Stafford2017.compute_variances")
def pjs_variances(a):
    return [x for s in pjs_sigmas(a["freqs"]) for x in s]


@free("Stafford2017.cov")
def pjs_cov(a):
    fs = a["freqs"]
    mag = a.get("mag", X(nd(6.0)))
    de = pjs_sigmas(fs)
    sd = [d if a.get(k) is None else a[k] for k, d in zip(("sigma_E", "sigma_S", "sigma_A"), de)]
    out = []
    for i, fi in enumerate(fs):
        for j, fj in enumerate(fs):
            q = {"f_i": fi, "f_j": fj, "mag": mag}
            rho = (pjs_rho_e(q)[0], pjs_rho_s(q)[0], pjs_rho_a(q)[0])
            out.append(sum((r * s[i] * s[j] for r, s in zip(rho, sd)), X(g.ZERO)))
    return out


@free("Stafford2017.cor")
def pjs_cor(a):
    n, c = len(a["freqs"]), pjs_cov(a)
    return [c[i * n + j] / (sqrt(c[i * n + i]) * sqrt(c[j * n + j])) for i in range(n) for j in range(n)]


# ------------------------------------------------ Baker & Jayaram (2008)
PI = 3.141592653589793


def bj08(t1, t2):
    """Correlation of the residuals at two periods."""
    lo, hi = mini(t1, t2), maxi(t1, t2)
    c1 = 1 - el("cos", PI / 2 - 0.366 * ln(hi / maxi(lo, 0.109)))
    c2 = where(hi < 0.2, 1 - 0.105 * (1 - 1 / (1 + exp(100 * mini(hi, 0.2) - 5))) * (hi - lo) / (hi - 0.0099), 0)
    c3 = where(hi < 0.109, c2, c1)
    c4 = c1 + 0.5 * (sqrt(c3) - c3) * (1 + el("cos", PI * lo / 0.109))
    return piecewise((hi < 0.109, c2), (lo > 0.109, c1), (hi < 0.2, mini(c2, c4)), c4)


@free("pygmm.baker_jayaram_2008.calc_correls")
def bj08_correls(a):
    return [bj08(t, a["period_cond"]) for t in a["periods"]]


@free("pygmm.baker_jayaram_2008.calc_cond_mean_spectrum")
def bj08_cms(a):
    ts, t = a["periods"], a["period_cond"]
    eps = (a["ln_psa_cond"] - interp(t, ts, a["ln_psas"])) / interp(t, ts, a["ln_stds"])
    rho = [bj08(x, t) for x in ts]
    return ([m + s * r * eps for m, s, r in zip(a["ln_psas"], a["ln_stds"], rho)]
            + [s * sqrt(1 - r ** 2) for s, r in zip(a["ln_stds"], rho)])


# ------------------------------------------------ Kishida (2017)
@free("pygmm.kishida_2017.calc_cond_mean_spectrum_vector")
def kishida(a):
    """Conditioning on one or two periods (those not masked)."""
    ts, mu, sd = a["periods"], a["ln_psas"], a["ln_stds"]
    given = [i for i, m in enumerate(a["mask"]) if not m]
    cov = {(i, j): sd[i] * sd[j] * (X(g.ONE) if i == j else bj08(ts[i], ts[j])) for i in range(len(ts)) for j in range(len(ts))}
    res = {i: a["ln_psas_cond"][i] - mu[i] for i in given}
    if len(given) == 1:
        k = given[0]
        inv = {(k, k): 1 / cov[k, k]}
    else:
        p, q = given
        det = cov[p, p] * cov[q, q] - cov[p, q] * cov[q, p]
        inv = {(p, p): cov[q, q] / det, (q, q): cov[p, p] / det, (p, q): -cov[p, q] / det, (q, p): -cov[q, p] / det}
    med, std = [], []
    for i in range(len(ts)):
        if i in given:
            med.append(a["ln_psas_cond"][i])
            std.append(X(g.ZERO))
            continue
        med.append(mu[i] + sum((cov[i, k] * inv[k, l] * res[l] for k in given for l in given), X(g.ZERO)))
        std.append(sqrt(cov[i, i] - sum((cov[i, k] * inv[k, l] * cov[l, i] for k in given for l in given), X(g.ZERO))))
    return med + std


# ------------------------------------------------ estimators of omitted inputs
from .nga import ask14_z1, cy14_z1, cb14_z25, cy14_ztor


@free("AbrahamsonSilvaKamai2014.calc_depth_1_0")
def _(a):
    return [ask14_z1(a["v_s30"], a.get("region"))]


@free("ChiouYoungs2014.calc_depth_1_0")
def _(a):
    return [cy14_z1(a["v_s30"], a.get("region"))]


@free("AfshariStewart2016.calc_depth_1_0")
def _(a):
    return [cy14_z1(a["v_s30"], a.get("region"))]


@free("BaylessAbrahamson2019.calc_depth_1_0")
def _(a):
    return [ask14_z1(a["v_s30"], None)]


@free("CampbellBozorgnia2014.calc_depth_2_5")
def _(a):
    if a["v_s30"] is not None:
        return [cb14_z25(a["v_s30"], a.get("region"))]
    if a.get("depth_1_0") is None:
        return "NotImplementedError"
    k, s = (0.408, 1.745) if a.get("region") == "japan" else (1.392, 1.798)
    return [k + s * a["depth_1_0"]]


@free("ChiouYoungs2014.calc_depth_tor")
def _(a):
    return [cy14_ztor(a["mag"], a["mechanism"])]


@free("AbrahamsonSilvaKamai2014.calc_depth_tor")
def _(a):
    return [interp(a["mag"], [5.0, 7.2], [7.8, 0.0])]


@free("AbrahamsonSilvaKamai2014.calc_width")
def _(a):
    return [mini(18 / sind(a["dip"]), 10 ** (-1.75 + 0.45 * a["mag"]))]


@free("CampbellBozorgnia2014.calc_width")
def _(a):
    bot = a.get("depth_bot", X(nd(15.0)))
    return [mini(sqrt(10 ** ((a["mag"] - 4.07) / 0.98)), (bot - a["depth_tor"]) / sind(a["dip"]))]


@free("CampbellBozorgnia2014.calc_depth_bor")
def _(a):
    return [a["depth_tor"] + a["width"] * sind(a["dip"])]


@free("CampbellBozorgnia2014.calc_depth_hyp")
def _(a):
    dz = mini(mini(-4.317 + 0.984 * a["mag"], 2.325) + mini(0.0445 * (a["dip"] - 40), 0),
              ln(0.9 * (a["depth_bor"] - a["depth_tor"])))
    return [a["depth_tor"] + exp(dz)]


@free("AbrahamsonBhasin2020.ln_period_pgv")
def _(a):
    return [-4.09 + 0.66 * a["mag"]]


@free("AbrahamsonSilva1996.calc_ln_dur_incr")
def _(a):
    from .other import as96_increment
    x = a["nias"]
    return [where((v < 0.10) | (v > 0.95), NAN, as96_increment(v)) for v in (x if isinstance(x, list) else [x])]


@free("pygmm.pinilla_ramos_et_al_2024.duration_model")
def _(a):
    from .other import pr24
    if a["eq_type"] == "interface" and a["region"] == "Taiwan":
        return "ValueError"
    every = lambda v: v if isinstance(v, list) else [v]
    m, r, v = every(a["mag"]), every(a["rrup"]), every(a["vs30"])
    n = max(len(m), len(r), len(v))
    at = lambda l, i: l[i] if len(l) > 1 else l[0]
    d = [pr24(Q(dict(mag=at(m, i).n, dist_rup=at(r, i).n, v_s30=at(v, i).n, event_type=a["eq_type"], region=a["region"])),
              a["energy"]) for i in range(n)]
    return [x[j] for j in range(3) for x in d]


# ------------------------------------------------ site terms
@free("AbrahamsonSilvaKamai2014.calc_site_term")
def _(a):
    T = "abrahamson_silva_kamai_2014"
    vs, sa = a["v_s30"], a["resp_ref"]
    out = []
    for i in range(rows(T)):
        c = Row(T, i)
        r = mini(vs, exp(-0.35 * ln(clip(c.period, 0.5, 3.0) / 0.5) + ln(1500.0))) / c.v_lin
        s = sa[i] if isinstance(sa, list) else sa
        f = where(r < 1, c.a10 * ln(r) - c.b * ln(s + c.c) + c.b * ln(s + c.c * r ** c.n), (c.a10 + c.b * c.n) * ln(r))
        if a.get("depth_1_0") is not None:
            slope = interp(vs, [150, 250, 400, 700], [c.a43, c.a44, c.a45, c.a46])
            f = f + where(X(g.eq(vs.n, g.const(1180.0))), 0,
                          slope * ln((a["depth_1_0"] + 0.01) / (ask14_z1(vs, a.get("region")) + 0.01)))
        out.append(f)
    return out


@free("BooreStewartSeyhanAtkinson2014.calc_site_term")
def _(a):
    T = "boore_stewart_seyhan_atkinson-2014"
    vs, pga = a["v_s30"], a["pga_ref"]
    out = []
    for i in range(rows(T)):
        c = Row(T, i)
        f2 = c.f_4 * (exp(c.f_5 * (mini(vs, 760) - 360)) - exp(c.f_5 * (760 - 360.0)))
        f = c.c * ln(mini(vs, c.V_c) / c.V_ref) + c.f_1 + f2 * ln((pga + c.f_3) / c.f_3)
        if c.known("period") >= 0.65:
            dz = X(g.ZERO) if a.get("depth_1_0") is None else a["depth_1_0"] - cy14_z1(vs, a.get("region"))
            f = f + mini(c.f_6 * dz, c.f_7)
        out.append(f)
    return out


@free("CampbellBozorgnia2014.calc_site_term")
def _(a):
    T = "campbell_bozorgnia_2014"
    vs, pga, jp = a["v_s30"], a["pga_ref"], a.get("region") == "japan"
    rock = pga.n is g.NAN
    z = cb14_z25(vs, a.get("region")) if rock else a["depth_2_5"]
    out = []
    for i in range(rows(T)):
        c = Row(T, i)
        r = vs / c.k_1
        f = where(vs <= c.k_1, c.c_11 * ln(r) + c.k_2 * (ln(pga + 1.88 * r ** 1.18) - ln(pga + 1.88)),
                  (c.c_11 + c.k_2 * 1.18) * ln(r))
        if jp:
            f = f + (where(vs <= 200, (c.c_12 + c.k_2 * 1.18) * (ln(r) - ln(200 / c.k_1)), 0)
                     + (c.c_13 + c.k_2 * 1.18) * ln(r))
        f = f + piecewise((z <= 1, (c.c_14 + (c.c_15 if jp else 0)) * (z - 1)), (z <= 3, 0),
                          c.c_16 * c.k_3 * exp(-0.75) * (1 - exp(-0.25 * (z - 3))))
        out.append(f)
    return out


@free("ChiouYoungs2014.calc_site_term")
def _(a):
    T = "chiou_youngs_2014"
    vs, sa, jp = a["v_s30"], a["resp_ref"], a.get("region") == "japan"
    out = []
    for i in range(rows(T)):
        c = Row(T, i)
        y = sa[i] if isinstance(sa, list) else sa
        p1, p5, p6 = (c.phi_1jp, c.phi_5jp, c.phi_6jp) if jp else (c.phi_1, c.phi_5, c.phi_6)
        nl = c.phi_2 * (exp(c.phi_3 * (mini(vs, 1130.0) - 360)) - exp(c.phi_3 * (1130.0 - 360)))
        dz = 1000 * (a["depth_1_0"] - cy14_z1(vs, a.get("region")))
        out.append(p1 * mini(ln(vs / 1130.0), 0) + nl * ln((y + c.phi_4) / c.phi_4) + p5 * (1 - exp(-dz / p6)))
    return out
