"""Published models of durations, vertical-to-horizontal ratios, conditional
PGV and Fourier amplitudes.  A specification maps a result name to its list of
expected values."""
from .core import *

#: model -> function(q, extra) -> {result: [X] or {name: X}}
OTHER = {}


def other(name):
    def deco(f):
        OTHER[name] = f
        return f
    return deco


# ------------------------------------------------ Abrahamson & Silva (1996)
def as96_increment(p):
    r = ln((p - 0.05) / (1 - p))
    return -0.532 + 0.552 * r - 0.0262 * r ** 2


AS96_STD = [0.843, 0.759, 0.713, 0.691, 0.674, 0.660, 0.646, 0.636, 0.628, 0.616, 0.605, 0.594, 0.582, 0.565, 0.545, 0.528,
            0.510, 0.493]
C16 = 4.9e6 * 3.2


@other("AbrahamsonSilva1996")
def as96(q):
    M = q.mag
    stress = exp(5.204 + 0.851 * (M - 6))
    moment = 10 ** (1.5 * M + 16.05)
    base = (stress / moment) ** (-1.0 / 3) / C16 + (0.805 if q.site_cond == "soil" else 0) + 0.063 * maxi(q.dist_rup - 10, 0)
    d = ln(base) + as96_increment(X(nd(0.75)))
    return {"duration": [exp(d)], "std_err": [X(nd(0.55))]}


# ------------------------------------------------ Kempton & Stewart (2006)
@other("KemptonStewart2006")
def ks06(q):
    M = q.mag
    moment = 10 ** (1.5 * M + 16.05)
    out = []
    for lnst, c1, c2, c3 in ((X(nd(6.02)), 0.07, 0.82, -0.0013), (2.79 + 0.82 * (M - 6), 0.15, 3.00, -0.0041),
                             (X(nd(5.46)), 0.10, 1.40, -0.0022), (1.53 + 1.34 * (M - 6), 0.15, 3.99, -0.0062)):
        out.append((exp(lnst) / moment) ** (-1.0 / 3) / C16 + c1 * q.dist_rup + c2 + c3 * q.v_s30)
    names = ("D_5t75a", "D_5t95a", "D_5t75v", "D_5t95v")
    return {"duration": dict(zip(names, out)), "std_err": dict(zip(names, [X(nd(v)) for v in (0.57, 0.47, 0.66, 0.52)]))}


# ------------------------------------------------ Afshari & Stewart (2016)
def as16_z1(vs, region):
    from .nga import cy14_z1
    return cy14_z1(vs, region)


@other("AfshariStewart2016")
def as16(q):
    M, R, vs = q.mag, q.dist_rup, q.v_s30
    dur, std = [], []
    b0 = {"NS": (1.555, 2.541, 1.409), "RS": (0.7806, 1.612, 0.7729), "SS": (1.279, 2.302, 0.8804),
          None: (1.280, 2.182, 0.8822)}[q.mechanism]
    b1 = {"NS": (4.992, 3.170, 4.778), "RS": (7.061, 4.536, 6.188), "SS": (5.578, 3.467, 6.188),
          None: (5.576, 3.628, 6.182)}[q.mechanism]
    for j in range(3):
        m1, m2 = (5.35, 5.2, 5.2)[j], (7.15, 7.4, 7.4)[j]
        b2, b3 = (0.9011, 0.9443, 0.7414)[j], (-1.684, -3.911, -3.164)[j]
        stress = exp(b1[j] + b2 * (mini(M, m2) - 6) + b3 * maxi(M - m2, 0))
        moment = 10 ** (1.5 * M + 16.05)
        src = where(M <= m1, b0[j], 1 / (C16 * (stress / moment) ** (1.0 / 3)))
        c1, c2, c3 = (0.1159, 0.3165, 0.0646)[j], (0.1065, 0.2539, 0.0865)[j], (0.0682, 0.0932, 0.0373)[j]
        path = c1 * mini(R, 10) + c2 * maxi(mini(R, 50) - 10, 0) + c3 * maxi(R - 50, 0)
        site = (-0.2246, -0.3183, -0.4237)[j] * ln(mini(vs, 600) / (368.2, 369.9, 369.6)[j])
        if q.depth_1_0 is not None:
            site = site + (0.0006, 0.0006, 0.0005)[j] * mini(1000 * (q.depth_1_0 - as16_z1(vs, q.region)), 200)
        dur.append((src + path) * exp(site))
        t1, t2, p1, p2 = (0.28, 0.25, 0.30)[j], (0.25, 0.19, 0.19)[j], (0.54, 0.43, 0.56)[j], (0.41, 0.35, 0.45)[j]
        tau = t1 + (t2 - t1) * (clip(M, 6.5, 7.0) - 6.5) / 0.5
        phi = p1 + (p2 - p1) * (clip(M, 5.5, 5.75) - 5.5) / 0.25
        std.append(sqrt(tau ** 2 + phi ** 2))
    names = ("D_5t75", "D_5t95", "D_20t80")
    return {"duration": dict(zip(names, dur)), "std_err": dict(zip(names, std))}


# ------------------------------------------------ Pinilla-Ramos et al. (2023)
PR23 = {   # energy: (c_med, a0, r1, v1, sigma_c, rho)
    0.10: (0.157, -0.010798, 0.0007, 0.039, 0.156, -0.083), 0.15: (0.264, -0.016831, 0.0012, 0.0656, 0.192, 0.022),
    0.20: (0.342, -0.012831, 0.0014, 0.0852, 0.205, 0.078), 0.25: (0.402, 0.002943, 0.0015, 0.1001, 0.206, 0.113),
    0.30: (0.455, 0.02267, 0.0015, 0.1134, 0.202, 0.137), 0.35: (0.505, 0.047579, 0.0014, 0.1259, 0.195, 0.154),
    0.40: (0.553, 0.076718, 0.0013, 0.1377, 0.187, 0.167), 0.45: (0.603, 0.107148, 0.0012, 0.1501, 0.177, 0.178),
    0.50: (0.654, 0.136351, 0.001, 0.1587, 0.163, 0.188), 0.55: (0.71, 0.115442, 0.0008, 0.1365, 0.146, 0.198),
    0.60: (0.769, 0.092914, 0.0007, 0.1105, 0.125, 0.206), 0.65: (0.835, 0.067803, 0.0005, 0.08, 0.097, 0.209),
    0.70: (0.912, 0.034992, 0.0002, 0.0428, 0.06, 0.204), 0.80: (1.114, -0.044725, -0.0003, -0.0512, 0.089, -0.301),
    0.85: (1.273, -0.112447, -0.0006, -0.1197, 0.21, -0.361), 0.90: (1.522, -0.209689, -0.001, -0.2111, 0.434, -0.403),
    0.95: (2.014, -0.38092, -0.0015, -0.3589, 0.907, -0.452),
}


def pr23_base(q):
    M, R, vs = q.mag, q.dist_rup, q.v_s30
    c2 = piecewise((R <= 10, 0.41 + (0.455 - 0.41) * R / 10), (R <= 42, 0.455 + (0.54 - 0.455) * (R - 10) / 32),
                   0.54 + (0.575 - 0.54) * (R - 42) / 158)
    src = 3.655 * 10 ** ((M - 6.75) * where(M < 6.75, 0.515, c2))
    path = 0.041 * R + piecewise((R < 44, 0.063 * R), (R < 130, 0.063 * 44 + 0.034 * (R - 44)),
                                 0.063 * 44 + 0.034 * 86 + 0.083 * (R - 130))
    phi = piecewise((vs < 200, 1.11), (vs < 275, 0.565 + (1.11 - 0.565) * (ln(275.0) - ln(vs)) / (ln(275.0) - ln(200.0))),
                    (vs < 1900, 0.565), (vs < 2000, 0.565 * (ln(2000.0) - ln(vs)) / (ln(2000.0) - ln(1900.0))), 0)
    site = -0.619 * ln(vs / 2000) * exp(0.278 * phi)
    med = src + path + site
    sig = (0.537 - 0.093 * (R / 100) + 0.0278 * (R / 100) ** 2 - 0.0372 * M + 0.00179 * M ** 2
           + mini(0.0206 * (200 / vs) ** 2.401, 0.0419))
    return med, sig


def pr23(q, energy=0.75):
    med, sig = pr23_base(q)
    n = 0.3
    if energy == 0.75:
        return [med, (med ** n + sig) ** (1 / n), (med ** n - sig) ** (1 / n)]
    cm, a0, r1, v1, sc, rho = PR23[energy]
    c = cm + a0 + r1 * q.dist_rup + v1 * ln(q.v_s30 / 2000)
    da, dc = c ** n, med ** n * n * c ** (n - 1)
    s = sqrt((da * sig) ** 2 + (dc * sc) ** 2 + 2 * rho * da * dc * sig * sc)
    d = c * med
    return [d, (d ** n + s) ** (1 / n), (d ** n - s) ** (1 / n)]


@other("PinillaRamosEtAl2023")
def pr23_all(q):
    d = pr23(q)
    out = {"duration": d[:1], "duration_plus_sigma": d[1:2], "duration_minus_sigma": d[2:]}
    for e in sorted(PR23):
        out["duration_for_energy", e] = pr23(q, e)
    return out


# ------------------------------------------------ Pinilla-Ramos et al. (2024)
PR24_E = [0.10, 0.15, 0.20, 0.25, 0.30, 0.35, 0.40, 0.45, 0.50, 0.55, 0.60, 0.65, 0.70, 0.75, 0.80, 0.85, 0.90, 0.95]
#: ratio of the conditional model: coefficients by energy, in the order of PR24_E
PR24 = {
    "interface": {
        "c_median": (0.04020966, 0.08388851, 0.13077859, 0.1815641, 0.23651304, 0.29491758, 0.35754282, 0.42528554,
            0.4974965, 0.57657072, 0.66322614, 0.76042762, 0.87127838, 1.0, 1.156691, 1.35981923, 1.64806185,
            2.14387062),
        "a0": (0.00733073, 0.0082492, 0.00374054, -0.00437519, -0.01719855, -0.03221052, -0.04872026, -0.06537968,
            -0.0775099, -0.08107197, -0.07769041, -0.06689982, -0.04362409, 0.0, 0.07075031, 0.19400743, 0.40879893,
            0.85474174),
        "m1": (0.00014309, 0.00117448, 0.00259631, 0.00410708, 0.00587722, 0.00790171, 0.01010809, 0.01227336,
            0.01365048, 0.01360863, 0.01233418, 0.00990628, 0.00596924, 0.0, -0.00864832, -0.02218093, -0.04374555,
            -0.07625391),
        "r1": (0.00240356, 0.00495213, 0.00759418, 0.0103042, 0.01287056, 0.01498933, 0.01646171, 0.01716948,
            0.01753574, 0.01709783, 0.01588001, 0.01298844, 0.00821674, 0.0, -0.01349763, -0.03821902, -0.08847199,
            -0.21293647),
        "v1": (0.00547392, 0.01140383, 0.01633181, 0.02028365, 0.023049, 0.02498088, 0.02612515, 0.02645767,
            0.02556579, 0.02366726, 0.02005288, 0.01446657, 0.00779351, 0.0, -0.00992416, -0.02254522, -0.04507584,
            -0.07641776),
        "rho_c_d575": (-0.04461951, 0.06461454, 0.14724378, 0.20758114, 0.2514994, 0.28656202, 0.31098974, 0.33129013,
            0.34623991, 0.3543134, 0.3577682, 0.3535797, 0.33183304, 0.0, -0.38333019, -0.44116537, -0.4875535,
            -0.53284828),
        "sigma_c": (0.01395505, 0.02371422, 0.03224683, 0.03982668, 0.04629945, 0.05151767, 0.05540747, 0.05772215,
            0.05816558, 0.05630814, 0.05154701, 0.04259618, 0.02792395, 0.0, 0.04378463, 0.1063117, 0.2196963,
            0.48117887),
    },
    "slab": {
        "c_median": (0.03784117, 0.08352235, 0.13083025, 0.18030833, 0.23239066, 0.28891588, 0.34921976, 0.41510462,
            0.48731871, 0.56681198, 0.65450169, 0.75358998, 0.86718004, 1.0, 1.16409534, 1.38075492, 1.69269723,
            2.22279683),
        "a0": (-0.02602886, -0.01820382, -0.0179457, -0.02417655, -0.03142039, -0.03858319, -0.04451747, -0.04873467,
            -0.04927577, -0.04910907, -0.04485417, -0.03689654, -0.02248334, 0.0, 0.04127725, 0.10055556, 0.20353897,
            0.38563394),
        "m1": (0.0052392, 0.00598378, 0.00764049, 0.00998344, 0.01243448, 0.01438996, 0.01589705, 0.01668025,
            0.01651024, 0.01585809, 0.01396992, 0.01083706, 0.00631921, 0.0, -0.00947123, -0.02266151, -0.04240792,
            -0.07401577),
        "r1": (0.00226879, 0.00419625, 0.00701796, 0.01021163, 0.0129733, 0.01554978, 0.01720173, 0.0182664,
            0.01846989, 0.01753247, 0.01580923, 0.01256225, 0.00751923, 0.0, -0.01202052, -0.03231773, -0.07103404,
            -0.16362926),
        "v1": (0.00409751, 0.01193314, 0.01968596, 0.02664136, 0.03281428, 0.03781827, 0.04107292, 0.04268421,
            0.04266614, 0.04062058, 0.03576105, 0.0275821, 0.0162236, 0.0, -0.02139202, -0.05326305, -0.10313415,
            -0.21286673),
        "rho_c_d575": (0.23703883, 0.2062694, 0.26652301, 0.33081508, 0.38018048, 0.41419228, 0.43660475, 0.45004969,
            0.45471735, 0.45897072, 0.45725023, 0.44906822, 0.42848698, 0.0, -0.46673359, -0.51548056, -0.55293589,
            -0.60041303),
        "sigma_c": (0.01952566, 0.02989091, 0.03838868, 0.04680806, 0.05476812, 0.06195816, 0.06758683, 0.0712496,
            0.07242325, 0.07068507, 0.0647861, 0.05349118, 0.03450956, 0.0, 0.05308633, 0.1307839, 0.26720298,
            0.56903831),
    },
}


def pr24_base(q):
    M, R, vs = q.mag, q.dist_rup, q.v_s30
    if q.event_type == "interface":
        cb, c4 = {"Japan": (0.03, -2.485), "New Zealand": (0.024, -2.420), "South America": (0.024, -2.248)}[q.region]
        c31, c312 = 0.031, 0.029
        src = 5.268 * 10 ** ((M - 7.0) * 0.275)
        a0, a1, a2, b1, b2, c1 = 0.3107, -0.0393, 0.0062, -0.0519, 0.0041, 0.0028
    else:
        cb, c4 = {"Japan": (0.046, -1.480), "New Zealand": (0.032, -1.252), "South America": (0.042, -1.510),
                  "Taiwan": (0.038, -1.151)}[q.region]
        c31, c312 = 0.013, 0.020
        src = where(M < 6, 0.340 * 10 ** ((M - 4.25) * 0.5), 0.340 * 10 ** ((6 - 4.25) * 0.5) + 2.770 * (M - 6) / 2.5)
        a0, a1, a2, b1, b2, c1 = 0.3035, -0.0188, 0.004, -0.0288, 0.0019, 0.0038
    path = where(R < 250, c31 * R, c312 * (R - 250) + 250 * c31) + cb * R
    med = src + c4 * ln(vs / 3100) + path
    sig = a0 + a1 * (R / 100) + a2 * (R / 100) ** 2 + b1 * M + b2 * M ** 2 + c1 * ln(vs)
    return med, sig


def pr24(q, energy=0.75):
    med, sig = pr24_base(q)
    n = 0.15 if q.event_type == "interface" else 0.25
    if energy == 0.75:
        return [med, (med ** n + sig) ** (1 / n), (med ** n - sig) ** (1 / n)]
    t = PR24[q.event_type]
    i = PR24_E.index(energy)
    k = {a: v[i] for a, v in t.items()}
    c = k["c_median"] + k["a0"] + k["m1"] * q.mag + k["r1"] * q.dist_rup / 100 + k["v1"] * ln(q.v_s30 / 3100)
    sc, rho = k["sigma_c"], k["rho_c_d575"]
    var = (sig ** 2 * c ** (2 * n) + n ** 2 * sc ** 2 * med ** (2 * n) * c ** (2 * n - 2)
           + 2 * n * rho * c ** (2 * n - 1) * med ** n * sig * sc)
    d, s = med * c, sqrt(var)
    return [d, (d ** n + s) ** (1 / n), (d ** n - s) ** (1 / n)]


@other("PinillaRamosEtAl2024")
def pr24_all(q):
    if q.event_type == "interface" and q.region == "Taiwan":
        return {}
    d = pr24(q)
    out = {"duration": d[:1], "duration_plus_sigma": d[1:2], "duration_minus_sigma": d[2:], "d575_median": d[:1],
           "d575_sigma": [pr24_base(q)[1]]}
    for e in PR24_E:
        out["duration_for_energy", e] = pr24(q, e)
    for e, f in zip(("10", "20", "30", "40", "50", "60", "70", "75", "80", "85", "90", "95"),
                    (0.25, 0.35, 0.5, 0.65, 0.75, 0.85, 0.95, 1.0, 1.1, 1.25, 1.45, 1.8)):
        out["d5x_median", "D5-" + e] = [f * d[0]]
    return out


# ------------------------------------------------ Gülerce & Abrahamson (2011)
@other("GulerceAbrahamson2011")
def ga11(q):
    T = "gulerce_abrahamson_2011-coefficients"
    M, ratio, std = q.mag, [], []
    for i in range(rows(T)):
        c = Row(T, i)
        p = c.known("period")
        f1 = (c.a1 + where(M < c.c1, c.a4, c.a5) * (M - c.c1) + c.a8 * (8.5 - M) ** 2
              + (c.a2 + c.a3 * (M - c.c1)) * ln(sqrt(q.dist_rup ** 2 + c.c4 ** 2)))
        if p < 0:
            v1 = 862.0
        elif p <= 0.5:
            v1 = 1500.0
        elif p <= 1:
            v1 = exp(8 - 0.795 * ln(c.period / 0.21))
        elif p <= 2:
            v1 = exp(6.76 - 0.297 * ln(c.period))
        else:
            v1 = 700.0
        v = mini(q.v_s30, v1)
        r = v / c.v_lin
        f5 = c.a10 * ln(r) - where(v < c.v_lin, -c.b * ln(q.pga_ref + c.c) + c.b * ln(q.pga_ref + c.c * r ** c.n),
                                   c.b * c.n * ln(r))
        y = f1 + f5 + {"RS": c.a6, "NS": c.a7}.get(q.mechanism, X(g.ZERO))
        t = clip((M - 5) / 2, 0, 1)
        ratio.append(exp(y))
        std.append(sqrt((c.s1 + (c.s2 - c.s1) * t) ** 2 + (c.s3 + (c.s4 - c.s3) * t) ** 2))
    return {"ratio": ratio, "ln_std": std}


# ------------------------------------------------ Abrahamson & Bhasin (2020)
def ab20(q, ln_gm, a, f, t):
    M = q.mag
    f1 = piecewise((M < 5, a[1]), (M > 7.5, a[2]), a[1] + (a[2] - a[1]) * (M - 5) / 2.5)
    y = (a[0] + f1 * ln_gm + a[3] * (M - 6) + a[4] * (8.5 - M) ** 2 + a[5] * ln(q.dist_rup + 5 * exp(0.4 * (M - 6)))
         + a[6] * ln(q.v_s30 / 425))
    s = clip((M - 5) / 2, 0, 1)
    return {"pgv": [exp(y)], "ln_std_pgv": [sqrt((f[0] + (f[1] - f[0]) * s) ** 2 + (t[0] + (t[1] - t[0]) * s) ** 2)]}


@other("AbrahamsonBhasin2020")
def ab20_all(q):
    if q.pga is not None:
        return ab20(q, ln(q.pga), (4.77, 0.738, 0.484, 0.275, -0.036, -0.332, -0.44), (0.32, 0.42), (0.12, 0.26))
    if q.psa_1s is not None:
        return ab20(q, ln(q.psa_1s), (4.80, 0.82, 0.55, 0.27, 0.054, -0.382, -0.21), (0.28, 0.38), (0.12, 0.17))
    return {}


# ------------------------------------------------ Bayless & Abrahamson (2019)
@other("BaylessAbrahamson2019")
def ba19(q):
    from .nga import ask14_z1
    T = "bayless_abrahamson_2019"
    M, R, vs = q.mag, q.dist_rup, q.v_s30
    f_hz = g.TABLES[T + ".csv"]["freq_hz"]
    n = rows(T)
    last = max(i for i in range(n) if Row(T, i).known("c1") == Row(T, i).known("c1"))

    def rock(c):
        f = c.c1 + c.c2 * (M - 6) + (c.c2 - c.c3) / c.cn * ln(1 + exp(c.cn * (c.cM - M)))
        f = f + c.c4 * ln(R + c.c5 * cosh(c.c6 * maxi(M - c.chm, 0))) + (-0.5 - c.c4) * ln(sqrt(R ** 2 + 2500)) + c.c7 * R
        return f + c.c9 * mini(q.depth_tor, 20) + (c.c10 if q.mechanism == "NS" else 0)

    def basin(c):
        k = piecewise((vs <= 200, c.c11a), (vs <= 300, c.c11b), (vs <= 500, c.c11c), c.c11d)
        return k * ln((mini(q.depth_1_0, 2) + 0.01) / (ask14_z1(vs, "global") + 0.01))

    i5 = min(range(n), key=lambda i: abs(f_hz[i] - 5.0))
    ir = exp(1.238 + 0.846 * rock(Row(T, i5)))

    def nl(c):
        f2 = c.f4 * (exp(c.f5 * (mini(vs, 760) - 360)) - exp(c.f5 * (760 - 360.0)))
        return f2 * ln((ir + c.f3) / c.f3)

    def std(c):
        t = clip((M - 4) / 2, 0, 1)
        k = lambda a, b: a + (b - a) * t
        return sqrt(k(c.s1, c.s2) ** 2 + k(c.s3, c.s4) ** 2 + k(c.s5, c.s6) ** 2 + c.c1a ** 2)

    kap = exp(-0.4 * ln(vs / 760) - 3.5)
    lin = [rock(Row(T, i)) + basin(Row(T, i)) + Row(T, i).c8 * ln(mini(vs, 1000) / 1000) for i in range(last + 1)]
    ext = [-3.141592653589793 * kap * (Row(T, i).freq_hz - Row(T, last).freq_hz) for i in range(last + 1, n)]
    # the nonlinear term keeps its minimum above the frequency of that minimum,
    # smoothed over seven ordinates, with the last seven at the minimum
    raw = [nl(Row(T, i)).n for i in range(last + 1)]
    v = g.vec(raw)
    low, at = X(g.mk("op:min", (v,), None)), X(g.mk("op:argmin", (v,), None))
    flat = [where(at < j, low, X(raw[j])) for j in range(last + 1)]
    smooth = [sum((flat[k] for k in range(j - 3, j + 4) if 0 <= k <= last), X(g.ZERO)) / 7 for j in range(last + 1)]
    smooth[-7:] = [low] * 7
    ln_eas = [a + b for a, b in zip(lin, smooth)]
    ln_eas += [ln_eas[-1] + e for e in ext]
    return {"ln_std": [std(Row(T, i)) if i <= last else None for i in range(n)], "ln_eas": ln_eas,
            "eas": [exp(x) for x in ln_eas]}
