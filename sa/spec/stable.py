"""Ground-motion models for stable continental and subduction regions."""
from .core import *

LN10 = 2.302585092994046


# ------------------------------------------------ Campbell (2003)
@model("Campbell2003", "campbell_2003", pga=None)
def c03(q):
    M, R = q.mag, q.dist_rup
    T = "campbell_2003"

    def ln_resp(i):
        c = Row(T, i)
        f1 = c.c_2 * M + c.c_3 * (8.5 - M) ** 2
        f2 = c.c_4 * ln(sqrt(R ** 2 + (c.c_7 * exp(c.c_8 * M)) ** 2)) + (c.c_5 + c.c_6 * M) * R
        f3 = piecewise((R <= 70, 0), (R <= 130, c.c_9 * (ln(R) - ln(70.0))),
                       c.c_9 * (ln(R) - ln(70.0)) + c.c_10 * (ln(R) - ln(130.0)))
        return c.c_1 + f1 + f2 + f3

    def ln_std(i):
        c = Row(T, i)
        return where(M < 7.16, c.c_11 + c.c_12 * M, c.c_13)

    return {"ln_resp": ln_resp, "ln_std": ln_std}


# ------------------------------------------------ Tavakoli & Pezeshk (2005)
@model("TavakoliPezeshk05", "tavakoli_pezeshk_2005")
def tp05(q):
    M, R = q.mag, q.dist_rup
    T = "tavakoli_pezeshk_2005"

    def ln_resp(i):
        c = Row(T, i)
        m = (8.5 - M) ** 2.5
        f1 = c.c_1 + c.c_2 * M + c.c_3 * m
        f2 = c.c_9 * ln(R + 4.5) + where(R > 70, c.c_10 * ln(R / 70.0), 0) + where(R > 130, c.c_11 * ln(R / 130.0), 0)
        d = sqrt(R ** 2 + (c.c_5 * exp(c.c_6 * M + c.c_7 * m)) ** 2)
        return f1 + f2 + (c.c_4 + c.c_13 * M) * ln(d) + (c.c_8 + c.c_12 * M) * d

    def ln_std(i):
        c = Row(T, i)
        return where(M < 7.2, c.c_14 + c.c_15 * M, c.c_16)

    return {"ln_resp": ln_resp, "ln_std": ln_std}


# ------------------------------------------------ Pezeshk, Zandieh & Tavakoli (2011)
@model("PezeshkZandiehTavakoli2011", "pezeshk_zandieh_tavakoli_2011")
def pzt11(q):
    M, R = q.mag, q.dist_rup
    T = "pezeshk_zandieh_tavakoli_2011"

    def ln_resp(i):
        c = Row(T, i)
        d = sqrt(R ** 2 + c.c_11 ** 2)
        y = (c.c_1 + c.c_2 * M + c.c_3 * M ** 2 + (c.c_4 + c.c_5 * M) * mini(log10(d), log10(70.0))
             + (c.c_6 + c.c_7 * M) * maxi(mini(log10(d / 70.0), log10(140.0 / 70.0)), 0)
             + (c.c_8 + c.c_9 * M) * maxi(log10(d / 140.0), 0) + c.c_10 * d)
        return LN10 * y

    def ln_std(i):
        c = Row(T, i)
        s = where(M <= 7, c.c_12 * M + c.c_13, -6.95e-3 * M + c.c_14)
        return LN10 * sqrt(s ** 2 + c.sigma_reg ** 2)

    return {"ln_resp": ln_resp, "ln_std": ln_std}


# ------------------------------------------------ Atkinson & Boore (2006, 2011)
@model("AtkinsonBoore2006", "atkinson_boore_2006-bc", cms={-1.0, -2.0})
def ab06(q):
    M, R = q.mag, q.dist_rup
    T = "atkinson_boore_2006-bc"
    rock = "atkinson_boore_2006-rock"
    sf, st = "atkinson_boore_2006-sf", "atkinson_boore_2006-site"
    per = lambda t: [Row(t, i).period for i in range(rows(t))]

    def stress(c):
        n = (3.45 - 0.2 * M - log10(140.0)) / log10(2.0)
        def f(k):
            return mini(2, n) * mini(k.delta + 0.05, 0.05 + k.delta * maxi(M - k.m_1, 0) / (k.m_h - k.m_1))
        return interp(c.period, per(sf), [f(Row(sf, i)) for i in range(rows(sf))])

    def bc(i, T=T):
        c = Row(T, i)
        f0 = maxi(log10(10 / R), 0)
        f1 = mini(log10(R), log10(70.0))
        f2 = maxi(log10(R / 140), 0)
        return (c.c_1 + c.c_2 * M + c.c_3 * M ** 2 + (c.c_4 + c.c_5 * M) * f1 + (c.c_6 + c.c_7 * M) * f2
                + (c.c_8 + c.c_9 * M) * f0 + c.c_10 * R + stress(c))

    def site(c, pga):
        vs = q.v_s30
        def f(k):
            b = piecewise((vs <= 180, k.b_1),
                          (vs <= 300, (k.b_1 - k.b_2) * ln(vs / 300) / ln(180.0 / 300) + k.b_2),
                          (vs <= 760, k.b_2 * ln(vs / 760) / ln(300.0 / 760)), 0)
            return log10(exp(k.b_lin * ln(vs / 760) + b * ln(maxi(pga, 60) / 100)))
        return interp(c.period, per(st), [f(Row(st, i)) for i in range(rows(st))])

    def ln_resp(i):
        c = Row(T, i)
        y = bc(i) + site(c, 10 ** bc(find(T, 0.0)))
        if q.v_s30 is None:
            y = bc(i, rock)
        else:
            # zero stands for hard rock
            y = where(X(g.eq(q.v_s30.n, g.ZERO)), bc(i, rock), y)
        if c.known("period") >= 0:
            y = y - log10(980.665)
        return LN10 * y

    return {"ln_resp": ln_resp, "ln_std": lambda i: X(nd(0.30 * LN10))}


# ------------------------------------------------ Abrahamson, Gregor & Addo (2016)
def dc1(q, c):
    """Adjustment of the magnitude break, interface: Table 4."""
    d = q.adjust_c1
    if d is not None:
        return X(d[c._i]) if isinstance(d, (list, tuple)) else d
    if q.event_type == "intraslab":
        return X(nd(-0.3))
    return interp(ln(maxi(c.period, 0.01)), [ln(x) for x in (0.3, 0.5, 1.0, 2.0, 3.0)], [0.2, 0.1, 0.0, -0.1, -0.2])


def option(q, name, default):
    v = getattr(q, name)
    return X(nd(default)) if v is None else v


def bchydro_site(c, vs, pga):
    v = mini(vs, 1000)
    lin = (c.t_12 + c.b * c.n) * ln(v / c.v_lin)
    nl = c.t_12 * ln(v / c.v_lin) - c.b * ln(pga + c.c) + c.b * ln(pga + c.c * (v / c.v_lin) ** c.n)
    return where(vs < c.v_lin, nl, lin)


def bchydro_mag(M, c, d):
    m = M - (7.8 + d)
    return where(M <= 7.8 + d, c.t_4, c.t_5) * m + c.t_13 * (10 - M) ** 2


@model("AbrahamsonGregorAddo2016", "abrahamson_gregor_addo_2016")
def aga16(q):
    T = "abrahamson_gregor_addo_2016"
    M = q.mag
    slab = q.event_type == "intraslab"
    R = q.dist_hyp if slab else q.dist_rup

    def rock(c):
        d = dc1(q, c)
        f = (c.t_1 + c.t_4 * d + (c.t_2 + (c.t_14 if slab else 0) + c.t_3 * (M - 7.8))
             * ln(R + (c.c_4 + option(q, "adjust_c4", 0.0)) * exp(c.t_9 * (M - 6)))
             + option(q, "scale_atten", 1.0) * c.t_6 * R + (c.t_10 if slab else 0) + bchydro_mag(M, c, d))
        if slab:
            f = f + c.t_11 * (mini(q.depth_hyp, 120) - 60)
        if q.tectonic_region == "backarc":
            if slab:
                f = f + c.t_7 + c.t_8 * ln(maxi(R, 85) / 40)
            else:
                f = f + c.t_15 + c.t_16 * ln(maxi(R, 100) / 40)
        return f

    def ln_resp(i):
        c, p = Row(T, i), Row(T, find(T, 0.0))
        pga = exp(rock(p) + (p.t_12 + p.b * p.n) * ln(1000 / p.v_lin))
        return rock(c) + bchydro_site(c, q.v_s30, pga)

    return {"ln_resp": ln_resp, "ln_std": lambda i: sqrt(Row(T, i).phi ** 2 + Row(T, i).tau ** 2)}


# ------------------------------------------------ Coppersmith & Bommer (2014)
@model("CoppersmithBommer2014", "coppersmith_bommer_2014", pga=0.01)
def cob14(q):
    T = "coppersmith_bommer_2014"
    M, R = q.mag, q.dist_rup

    def rock(c):
        d = dc1(q, c)
        return (c.t_1 + c.t_4 * d + (c.t_2 + c.t_3 * (M - 7.8)) * ln(R + c.c_4 * exp(c.t_9 * (M - 6)))
                + option(q, "scale_atten", 1.0) * c.t_6 * R
                + bchydro_mag(M, c, d) + c.t_16 * ln(maxi(R, 40) / 40))

    def ln_resp(i):
        c, p = Row(T, i), Row(T, find(T, 0.01))
        pga = exp(rock(p) + (p.t_12 + p.b * p.n) * ln(1000 / p.v_lin))
        return rock(c) + bchydro_site(c, q.v_s30, pga)

    return {"ln_resp": ln_resp, "ln_std": lambda i: sqrt(Row(T, i).phi ** 2 + Row(T, i).tau ** 2)}


# ------------------------------------------------ Derras, Bard & Cotton (2014)
DBC = "derras_bard_cotton_2014.json"


@model("DerrasBardCotton2014", None, periods=lambda: g.JSON[DBC]["period"])
def dbc14(q):
    """One hidden layer of five neurons; inputs and outputs scaled to [-1, 1]."""
    d = Data(DBC)
    mech = {"NS": 1.0, "RS": 3.0, "SS": 4.0}[q.mechanism]
    given = (("log10_dist_jb", log10(q.dist_jb)), ("mag", q.mag), ("log10_v_s30", log10(q.v_s30)),
             ("depth_hyp", q.depth_hyp), ("mechanism", X(nd(mech))))
    p = [2 * (v - d("min_max", k, 0)) / (d("min_max", k, 1) - d("min_max", k, 0)) - 1 for k, v in given]
    hid = [tanh(d("b_1", j) + sum((d("w_1", j, k) * p[k] for k in range(5)), X(g.ZERO))) for j in range(5)]

    def ln_resp(i):
        y = d("b_2", i) + sum((d("w_2", i, j) * hid[j] for j in range(5)), X(g.ZERO))
        lo, hi = d("min_max", "log10_resp", i, 0), d("min_max", "log10_resp", i, 1)
        # m/s and m/s2 to cm/s and g
        scale = 0.01 if g.JSON[DBC]["period"][i] < 0 else 9.80665
        return LN10 * (0.5 * (y + 1) * (hi - lo) + lo) - ln(X(nd(scale)))

    return {"ln_resp": ln_resp, "ln_std": lambda i: LN10 * d("log10_std", "total", i)}


# ------------------------------------------------ Hermkes, Kuehn & Riggelsen (2014)
@model("HermkesKuehnRiggelsen2014", None, pga=0.01, periods=lambda: [-1.0, 0.01, 0.1, 0.5, 1.0, 4.0])
def hkr14(q):
    """Predictions tabulated as pairs of median and variance for each period."""
    f = "hermkes_kuehn_riggelsen_2014.npz:"
    flag = lambda m: g.const(1.0 if q.mechanism == m else 0.0)
    near = g.mk("op:ndinterp", (g.mk("data", (), (f + "events",)), g.mk("data", (), (f + "predictions",)), q.mag.n,
                                q.depth_hyp.n, flag("RS"), flag("SS"), flag("NS"), q.dist_jb.n, q.v_s30.n), ("nearest",))
    return {"ln_resp": lambda i: X(g.index(near, 2 * i)), "ln_std": lambda i: sqrt(X(g.index(near, 2 * i + 1)))}
