"""Ground-motion models for active crustal regions (NGA-West2 and Europe), as
published.  Each function returns the natural logarithm of the median and the
standard deviation (natural log units) of table row i."""
from .core import *


# ------------------------------------------------ Abrahamson, Silva & Kamai (2014)
def ask14_z1(vs, region):
    """Equations 18 and 19 (km)."""
    if region == "japan":
        return exp(-5.23 / 2 * ln((vs ** 2 + 412.0 ** 2) / (1360.0 ** 2 + 412.0 ** 2))) / 1000
    return exp(-7.67 / 4 * ln((vs ** 4 + 610.0 ** 4) / (1360.0 ** 4 + 610.0 ** 4))) / 1000


@model("AbrahamsonSilvaKamai2014", "abrahamson_silva_kamai_2014")
def ask14(q):
    T = "abrahamson_silva_kamai_2014"
    M, R = q.mag, q.dist_rup

    def source(c):
        # f1, Equations 2 to 4
        c4m = c.c4 - (c.c4 - 1) * clip(5 - M, 0, 1)
        lr = ln(sqrt(R ** 2 + c4m ** 2))
        f1 = piecewise(
            (M <= c.m2, c.a1 + c.a4 * (c.m2 - c.m1) + c.a8 * (8.5 - c.m2) ** 2 + c.a6 * (M - c.m2) + c.a7 * (M - c.m2) ** 2
             + (c.a2 + c.a3 * (c.m2 - c.m1)) * lr + c.a17 * R),
            (M <= c.m1, c.a1 + c.a4 * (M - c.m1) + c.a8 * (8.5 - M) ** 2 + (c.a2 + c.a3 * (M - c.m1)) * lr + c.a17 * R),
            c.a1 + c.a5 * (M - c.m1) + c.a8 * (8.5 - M) ** 2 + (c.a2 + c.a3 * (M - c.m1)) * lr + c.a17 * R)
        # f7, f8: style of faulting
        taper = clip(M - 4, 0, 1)
        f = f1 + {"RS": c.a11 * taper, "NS": c.a12 * taper}.get(q.mechanism, X(g.ZERO))
        # f6: depth to the top of the rupture
        f = f + c.a15 * clip(q.depth_tor / 20, 0, 1)
        # f4: hanging wall
        if q.on_hanging_wall:
            t1 = where(q.dip > 30, (90 - q.dip) / 45, 60.0 / 45)
            a2 = 0.2
            t2 = piecewise((M <= 5.5, 0), (M < 6.5, 1 + a2 * (M - 6.5) - (1 - a2) * (M - 6.5) ** 2), 1 + a2 * (M - 6.5))
            r1 = q.width * cosd(q.dip)
            r2 = 3 * r1
            x = q.dist_x
            t3 = piecewise((x < r1, 0.25 + 1.5 * (x / r1) - 0.75 * (x / r1) ** 2), (x < r2, 1 - (x - r1) / (r2 - r1)), 0)
            t4 = clip(1 - q.depth_tor ** 2 / 100, 0, 1)
            if q.dist_y0 is None:
                t5 = clip(1 - q.dist_jb / 30, 0, 1)
            else:
                t5 = clip(1 - (q.dist_y0 - x * tand(20.0)) / 5, 0, 1)
            f = f + c.a13 * t1 * t2 * t3 * t4 * t5
        # f11: aftershocks
        if q.is_aftershock:
            f = f + c.a14 * clip(1 - (q.dist_crjb - 5) / 10, 0, 1)
        return f

    def vs_star(c, vs):
        p = c.known("period")
        v1 = 1500.0 if p <= 0.5 else (None if p < 3.0 else 800.0)
        if v1 == 1500.0:
            return mini(vs, v1)
        return mini(vs, exp(-0.35 * ln(clip(c.period, 0.5, 3.0) / 0.5) + ln(1500.0)))

    def regional(c, vs):
        if q.region == "taiwan":
            return c.a31 * ln(vs_star(c, vs) / c.v_lin) + c.a25 * R
        if q.region == "china":
            return c.a28 * R
        if q.region == "japan":
            return interp(vs, [150, 250, 350, 450, 600, 850, 1150], [c.a36, c.a37, c.a38, c.a39, c.a40, c.a41, c.a42]) + c.a29 * R
        return X(g.ZERO)

    def linear(c, vs):
        return (c.a10 + c.b * c.n) * ln(vs_star(c, vs) / c.v_lin)

    def nonlinear(c, vs, sa):
        r = vs_star(c, vs) / c.v_lin
        return c.a10 * ln(r) - c.b * ln(sa + c.c) + c.b * ln(sa + c.c * r ** c.n)

    REF = g.const(1180.0)

    def ln_ref(i):
        c = Row(T, i)
        # the reference condition is above v_lin of every period
        return source(c) + regional(c, X(REF)) + linear(c, X(REF))

    def ln_resp(i):
        c = Row(T, i)
        vs = q.v_s30
        sa = exp(ln_ref(i))
        f = source(c) + regional(c, vs) + where(vs_star(c, vs) / c.v_lin < 1, nonlinear(c, vs, sa), linear(c, vs))
        if q.depth_1_0 is not None:
            slope = interp(vs, [150, 250, 400, 700], [c.a43, c.a44, c.a45, c.a46])
            basin = slope * ln((q.depth_1_0 + 0.01) / (ask14_z1(vs, q.region) + 0.01))
            f = f + where(X(g.eq(vs.n, REF)), 0, basin)
        return f

    def ln_std(i):
        c = Row(T, i)
        vs = q.v_s30
        if q.region == "japan":
            phi_al = c.s5 + (c.s6 - c.s5) * clip((R - 30) / 50, 0, 1)
        elif q.vs_source == "measured":
            phi_al = c.s1m + (c.s2m - c.s1m) * clip((M - 4) / 2, 0, 1)
        else:
            phi_al = c.s1e + (c.s2e - c.s1e) * clip((M - 4) / 2, 0, 1)
        tau_al = c.s3 + (c.s4 - c.s3) * clip((M - 5) / 2, 0, 1)
        phi_b2 = maxi(phi_al ** 2 - 0.4 ** 2, 0)
        sa = exp(ln_ref(i))
        d = where(vs >= c.v_lin, 0, -c.b * sa / (sa + c.c) + c.b * sa / (sa + c.c * (vs / c.v_lin) ** c.n))
        return sqrt(phi_b2 * (1 + d) ** 2 + 0.4 ** 2 + (tau_al * (1 + d)) ** 2)

    return {"ln_resp": ln_resp, "ln_std": ln_std}


# ------------------------------------------------ Boore, Stewart, Seyhan & Atkinson (2014)
def cy14_z1(vs, region):
    """Equations 1 of Chiou & Youngs (2014), km."""
    if region == "japan":
        return exp(-5.23 / 2 * ln((vs ** 2 + 412.39 ** 2) / (1360.0 ** 2 + 412.39 ** 2))) / 1000
    return exp(-7.15 / 4 * ln((vs ** 4 + 570.94 ** 4) / (1360.0 ** 4 + 570.94 ** 4))) / 1000


@model("BooreStewartSeyhanAtkinson2014", "boore_stewart_seyhan_atkinson-2014")
def bssa14(q):
    T = "boore_stewart_seyhan_atkinson-2014"
    M, R = q.mag, q.dist_jb

    def event_path(c):
        fe = {"SS": c.e_1, "NS": c.e_2, "RS": c.e_3}.get(q.mechanism, c.e_0)
        fe = fe + where(M <= c.M_h, c.e_4 * (M - c.M_h) + c.e_5 * (M - c.M_h) ** 2, c.e_6 * (M - c.M_h))
        if q.region in ("china", "turkey"):
            dc3 = c.dc_3ct
        elif q.region in ("italy", "japan"):
            dc3 = c.dc_3ij
        else:
            dc3 = c.dc_3global
        r = sqrt(R ** 2 + c.h ** 2)
        return fe + (c.c_1 + c.c_2 * (M - c.M_ref)) * ln(r / c.R_ref) + (c.c_3 + dc3) * (r - c.R_ref)

    def ln_resp(i):
        c = Row(T, i)
        vs = q.v_s30
        pga = exp(event_path(Row(T, find(T, 0.0))))
        f_lin = c.c * ln(mini(vs, c.V_c) / c.V_ref)
        f2 = c.f_4 * (exp(c.f_5 * (mini(vs, 760) - 360)) - exp(c.f_5 * (760 - 360.0)))
        f = event_path(c) + f_lin + c.f_1 + f2 * ln((pga + c.f_3) / c.f_3)
        if c.known("period") >= 0.65 and q.depth_1_0 is not None:
            f = f + mini(c.f_6 * (q.depth_1_0 - cy14_z1(vs, q.region)), c.f_7)
        elif c.known("period") >= 0.65:
            f = f + mini(0, c.f_7)
        return f

    def ln_std(i):
        c = Row(T, i)
        t = clip(M - 4.5, 0, 1)
        tau = c.tau_1 + (c.tau_2 - c.tau_1) * t
        phi = c.phi_1 + (c.phi_2 - c.phi_1) * t
        phi = phi + c.dphi_R * clip(ln(maxi(R, 0.1) / c.R_1) / ln(c.R_2 / c.R_1), 0, 1)
        phi = phi - c.dphi_V * clip(ln(c.V_2 / q.v_s30) / ln(c.V_2 / c.V_1), 0, 1)
        return sqrt(tau ** 2 + phi ** 2)

    return {"ln_resp": ln_resp, "ln_std": ln_std}


# ------------------------------------------------ Campbell & Bozorgnia (2014)
def cb14_z25(vs, region):
    if region == "japan":
        return exp(5.359 - 1.102 * ln(vs))
    return exp(7.089 - 1.144 * ln(vs))


@model("CampbellBozorgnia2014", "campbell_bozorgnia_2014")
def cb14(q):
    T = "campbell_bozorgnia_2014"
    M, R = q.mag, q.dist_rup
    C, N = 1.88, 1.18
    jp = q.region == "japan"

    def source(c):
        f_mag = c.c_0 + c.c_1 * M + c.c_2 * maxi(M - 4.5, 0) + c.c_3 * maxi(M - 5.5, 0) + c.c_4 * maxi(M - 6.5, 0)
        f_dis = (c.c_5 + c.c_6 * M) * ln(sqrt(R ** 2 + c.c_7 ** 2))
        f_flt = {"RS": c.c_8, "NS": c.c_9}.get(q.mechanism, X(g.ZERO)) * clip(M - 4.5, 0, 1)
        # hanging wall
        r1 = q.width * cosd(q.dip)
        r2 = 62 * M - 350
        x = q.dist_x
        f_rx = piecewise((x < 0, 0), (x <= r1, c.h_1 + c.h_2 * (x / r1) + c.h_3 * (x / r1) ** 2),
                         maxi(c.h_4 + c.h_5 * ((x - r1) / (r2 - r1)) + c.h_6 * ((x - r1) / (r2 - r1)) ** 2, 0))
        f_rrup = where(X(g.eq(R.n, g.ZERO)), 1, (R - q.dist_jb) / R)
        f_m = where(M <= 5.5, 0, mini(M - 5.5, 1) * (1 + c.a_2 * (M - 6.5)))
        f_z = where(q.depth_tor > 16.66, 0, 1 - 0.06 * q.depth_tor)
        f_hng = c.c_10 * f_rx * f_rrup * f_m * f_z * (90 - q.dip) / 45
        f_hyp = clip(q.depth_hyp - 7, 0, 13) * (c.c_17 + (c.c_18 - c.c_17) * clip(M - 5.5, 0, 1))
        f_dip = c.c_19 * q.dip * clip(5.5 - M, 0, 1)
        dc = c.dc_20jp if q.region in ("japan", "italy") else c.dc_20ch if q.region == "china" else c.dc_20ca
        f_atn = (c.c_20 + dc) * maxi(R - 80, 0)
        return f_mag + f_dis + f_flt + f_hng + f_hyp + f_dip + f_atn

    def basin(c, z):
        return piecewise((z <= 1, (c.c_14 + (c.c_15 if jp else 0)) * (z - 1)), (z <= 3, 0),
                         c.c_16 * c.k_3 * exp(-0.75) * (1 - exp(-0.25 * (z - 3))))

    def site(c, vs, pga):
        r = vs / c.k_1
        lin = (c.c_11 + c.k_2 * N) * ln(r)
        if pga is None:
            f = lin
        else:
            f = where(vs <= c.k_1, c.c_11 * ln(r) + c.k_2 * (ln(pga + C * r ** N) - ln(pga + C)), lin)
        if jp:
            # Equations 17 to 19
            f = f + where(vs <= 200, (c.c_12 + c.k_2 * N) * (ln(r) - ln(200 / c.k_1)), 0) + (c.c_13 + c.k_2 * N) * ln(r)
        return f

    def ref_pga():
        c = Row(T, find(T, 0.0))
        vs = X(g.const(1100.0))
        return exp(source(c) + site(c, vs, None) + basin(c, cb14_z25(vs, q.region)))

    def raw(i):
        c = Row(T, i)
        return source(c) + site(c, q.v_s30, ref_pga()) + basin(c, q.depth_2_5)

    def ln_resp(i):
        p = Row(T, i).known("period")
        if 0 < p < 0.25:
            return maxi(raw(i), raw(find(T, 0.0)))
        return raw(i)

    def ln_std(i):
        c, p = Row(T, i), Row(T, find(T, 0.0))
        t = clip(5.5 - M, 0, 1)
        tau = lambda c: c.tau_2 + (c.tau_1 - c.tau_2) * t
        phi = lambda c: c.phi_2 + (c.phi_1 - c.phi_2) * t
        a = ref_pga()
        r = q.v_s30 / c.k_1
        al = where(q.v_s30 < c.k_1, c.k_2 * a * (1 / (a + C * r ** N) - 1 / (a + C)), 0)
        t2 = tau(c) ** 2 + al ** 2 * tau(p) ** 2 + 2 * al * c.rho_lnPGAlnY * tau(c) * tau(p)
        py, pp = sqrt(phi(c) ** 2 - c.phi_lnAF ** 2), sqrt(phi(p) ** 2 - p.phi_lnAF ** 2)
        p2 = py ** 2 + c.phi_lnAF ** 2 + al ** 2 * pp ** 2 + 2 * al * c.rho_lnPGAlnY * py * pp
        return sqrt(t2 + p2)

    return {"ln_resp": ln_resp, "ln_std": ln_std}


# ------------------------------------------------ Chiou & Youngs (2014)
def cy14_ztor(M, mechanism):
    if mechanism == "RS":
        return maxi(2.704 - 1.226 * maxi(M - 5.849, 0), 0) ** 2
    return maxi(2.673 - 1.136 * maxi(M - 4.970, 0), 0) ** 2


@model("ChiouYoungs2014", "chiou_youngs_2014")
def cy14(q):
    T = "chiou_youngs_2014"
    M, R = q.mag, q.dist_rup
    jp = q.region == "japan"

    def ln_ref(c):
        ch = cosh(2 * maxi(M - 4.5, 0))
        f = c.c_1
        if q.mechanism == "RS":
            f = f + c.c_1a + c.c_1c / ch
        elif q.mechanism == "NS":
            f = f + c.c_1b + c.c_1d / ch
        f = f + (c.c_7 + c.c_7b / ch) * (q.depth_tor - cy14_ztor(M, q.mechanism))
        f = f + (c.c_11 + c.c_11b / ch) * cosd(q.dip) ** 2
        f = f + c.c_2 * (M - 6) + (c.c_2 - c.c_3) / c.c_n * ln(1 + exp(c.c_n * (c.c_m - M)))
        f = f + c.c_4 * ln(R + c.c_5 * cosh(c.c_6 * maxi(M - c.c_hm, 0)))
        f = f + (c.c_4a - c.c_4) * ln(sqrt(R ** 2 + c.c_rb ** 2))
        if q.region in ("japan", "italy"):
            k = where((M > 6) & (M < 6.9), c.gamma_ji, 1)
        elif q.region == "china":
            k = c.gamma_c
        else:
            k = X(g.ONE)
        f = f + k * (c.c_gamma1 + c.c_gamma2 / cosh(maxi(M - c.c_gamma3, 0))) * R
        f = f + (c.c_8 * maxi(1 - maxi(R - 40, 0) / 30, 0) * mini(maxi(M - 5.5, 0) / 0.8, 1)
                 * exp(-c.c_8a * (M - c.c_8b) ** 2) * q.dpp_centered)
        if q.on_hanging_wall:
            f = f + (c.c_9 * cosd(q.dip) * (c.c_9a + (1 - c.c_9a) * tanh(q.dist_x / c.c_9b))
                     * (1 - sqrt(q.dist_jb ** 2 + q.depth_tor ** 2) / (R + 1)))
        return f

    def nl(c):
        vs = q.v_s30
        return c.phi_2 * (exp(c.phi_3 * (mini(vs, 1130.0) - 360)) - exp(c.phi_3 * (1130.0 - 360)))

    def ln_resp(i):
        c = Row(T, i)
        y = ln_ref(c)
        p1, p5, p6 = (c.phi_1jp, c.phi_5jp, c.phi_6jp) if jp else (c.phi_1, c.phi_5, c.phi_6)
        dz = 1000 * (q.depth_1_0 - cy14_z1(q.v_s30, q.region))
        return (y + p1 * mini(ln(q.v_s30 / 1130.0), 0) + nl(c) * ln((exp(y) + c.phi_4) / c.phi_4) + p5 * (1 - exp(-dz / p6)))

    def ln_std(i):
        c = Row(T, i)
        y = exp(ln_ref(c))
        t = clip(M, 5, 6.5) - 5
        tau = c.tau_1 + (c.tau_2 - c.tau_1) / 1.5 * t
        nl0 = nl(c) * y / (y + c.phi_4)
        s2 = c.sigma_2jp if jp else c.sigma_2
        sig = (c.sigma_1 + (s2 - c.sigma_1) / 1.5 * t) * sqrt(
            (X(nd(0.7)) if q.vs_source == "measured" else c.sigma_3) + (1 + nl0) ** 2)
        return sqrt((1 + nl0) ** 2 * tau ** 2 + sig ** 2)

    return {"ln_resp": ln_resp, "ln_std": ln_std}


# ------------------------------------------------ Idriss (2014)
@model("Idriss2014", "idriss_2014-small", pga=0.01)
def idriss14(q):
    M, R = q.mag, q.dist_rup

    def ln_resp(i):
        s, l = Row("idriss_2014-small", i), Row("idriss_2014-large", i)
        f = lambda c: (c.alpha_1 + c.alpha_2 * M + c.alpha_3 * (8.5 - M) ** 2 - (c.beta_1 + c.beta_2 * M) * ln(R + 10)
                       + c.gamma * R + c.epsilon * ln(q.v_s30) + (c.phi if q.mechanism == "RS" else 0))
        return where(M <= 6.75, f(s), f(l))

    def ln_std(i):
        c = Row("idriss_2014-small", i)
        return 1.18 + 0.035 * ln(clip(c.period, 0.05, 3)) - 0.06 * clip(M, 5, 7.5)

    return {"ln_resp": ln_resp, "ln_std": ln_std}


# ------------------------------------------------ Akkar, Sandikkaya & Bommer (2014)
@model("AkkarSandikkayaBommer2014", "akkar-sandikkaya-bommer-2014-dist_jb")
def asb14(q):
    M = q.mag
    for k in ("dist_jb", "dist_hyp", "dist_epi"):
        if getattr(q, k) is not None:
            T, R = "akkar-sandikkaya-bommer-2014-" + k, getattr(q, k)
            break
    else:
        return {}

    def ref(c):
        f = c.a_1 + c.a_3 * (8.5 - M) ** 2 + (c.a_4 + c.a_5 * (M - c.c_1)) * ln(sqrt(R ** 2 + c.a_6 ** 2))
        f = f + where(M <= c.c_1, c.a_2, c.a_7) * (M - c.c_1)
        return f + {"NS": c.a_8, "RS": c.a_9}.get(q.mechanism, X(g.ZERO))

    def ln_resp(i):
        c = Row(T, i)
        vs = q.v_s30
        pga = exp(ref(Row(T, find(T, 0.0))))
        r = vs / 750.0
        lo = c.b_1 * ln(r) + c.b_2 * ln((pga + c.c * r ** c.n) / ((pga + c.c) * r ** c.n))
        return ref(c) + where(vs <= 750, lo, c.b_1 * ln(mini(vs, c.v_con) / 750.0))

    return {"ln_resp": ln_resp, "ln_std": lambda i: Row(T, i).sd_total}
