FULL = """
import warnings, logging
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
import numpy as np
import pygmm
"""
BUGS = {

"c11-bssa-basin-cap-rows": dict(prop="C11", edits=[("boore_stewart_seyhan_atkinson_2014.py",
"""        F_dz1[mask] = np.minimum(c.f_6 * delta_depth_1_0, c.f_7)[mask]
""", """        n = np.count_nonzero(mask)
        F_dz1[mask] = np.minimum(c.f_6[mask] * delta_depth_1_0, c.f_7[-n - 1 : -1])
""")], demo=FULL + """
c = pygmm.BooreStewartSeyhanAtkinson2014.COEFF
T = pygmm.BooreStewartSeyhanAtkinson2014.PERIODS
d = pygmm.BooreStewartSeyhanAtkinson2014.calc_site_term(0.1, 400.0, 5.0, "california") \\
    - pygmm.BooreStewartSeyhanAtkinson2014.calc_site_term(0.1, 400.0, None, "california")
m = T >= 0.65
assert np.allclose(d[m], np.asarray(c.f_7)[m]), (d[m][:4], np.asarray(c.f_7)[m][:4])
""", needs="a basin deep enough to reach the cap of the basin term at long periods",
what="the cap of the basin term of each period is the one tabulated for the period before it"),

"c17-ln-stds-fill": dict(prop="C17", edits=[("model.py",
"""                self._ln_std[self.INDICES_PSA],
                kind=kind,
                copy=False,
                bounds_error=False,
                fill_value=np.nan,
            )(np.log(periods))
""", """                self._ln_std[self.INDICES_PSA],
                kind=kind,
                copy=False,
                bounds_error=False,
                fill_value=tuple(self._ln_std[self.INDICES_PSA][[0, -1]]),
            )(np.log(periods))
""")], demo=FULL + """
m = pygmm.BooreStewartSeyhanAtkinson2014(pygmm.Scenario(mag=6.5, dist_jb=20, v_s30=400, mechanism="SS"))
v = m.interp_ln_stds([0.001, 1.0, 20.0])
assert np.isnan(v[0]) and np.isnan(v[2]) and np.isfinite(v[1]), v
""", needs="standard deviations interpolated at a period outside of the tabulated range",
what="standard deviations outside of the period range are silently the end values, the medians are NaN"),

"c18-copy-with-none": dict(prop="C18", edits=[("model.py",
"""        other = self.copy()
        other.update(**kwds)
        return other
""", """        other = self.copy()
        other.update({k: v for k, v in kwds.items() if v})
        return other
""")], demo=FULL + """
s = pygmm.Scenario(mag=6.5, depth_tor=5.0, is_aftershock=True)
t = s.copy_with(depth_tor=0, is_aftershock=False)
assert t.depth_tor == 0 and t.is_aftershock is False, dict(t)
""", needs="copy_with given zero, False or None",
what="copy_with ignores values that are zero, False or None"),

"c31-bssa-soft-soil-phi": dict(prop="C31", edits=[("boore_stewart_seyhan_atkinson_2014.py",
"""        phi -= c.dphi_V * np.clip(np.log(c.V_2 / s.v_s30) / np.log(c.V_2 / c.V_1), 0, 1)
""", """        phi -= c.dphi_V * np.maximum(np.log(c.V_2 / s.v_s30) / np.log(c.V_2 / c.V_1), 0)
""")], demo=FULL + """
f = lambda v: pygmm.BooreStewartSeyhanAtkinson2014(pygmm.Scenario(mag=6.5, dist_jb=20, v_s30=v, mechanism="SS")).ln_stds
assert np.allclose(f(160.0), f(220.0)), "phi keeps falling below V_1"
""", needs="a site softer than 225 m/s",
what="the reduction of the within-event standard deviation is not limited on soft sites"),

"c33-ba19-depth-cap": dict(prop="C33", edits=[("bayless_abrahamson_2019.py",
"""        f_Ztor = c.c9 * min(s.depth_tor, 20)
""", """        f_Ztor = c.c9 * s.depth_tor
""")], demo=FULL + """
f = lambda z: pygmm.BaylessAbrahamson2019(pygmm.Scenario(mag=6.5, dist_rup=40, v_s30=400, depth_tor=z)).ln_eas
assert np.allclose(f(20.0), f(30.0))
""", needs="a rupture deeper than 20 km",
what="the depth scaling of the Fourier amplitudes is not limited at 20 km"),

"c37-bssa-basin-period": dict(prop="C37", edits=[("boore_stewart_seyhan_atkinson_2014.py",
"""        mask = c.period >= 0.65
""", """        mask = c.period > 0.65
""")], demo=FULL + """
M = pygmm.BooreStewartSeyhanAtkinson2014
i = int(np.argmin(abs(M.PERIODS - 0.65)))
assert abs(M.PERIODS[i] - 0.65) < 1e-9
d = M.calc_site_term(0.1, 400.0, 5.0, "california") - M.calc_site_term(0.1, 400.0, None, "california")
assert d[i] != 0
""", needs="a basin depth that differs from the average, at the period of 0.65 s",
what="the basin response is left out at 0.65 s"),

"c39-aga16-default-atten": dict(prop="C39", edits=[("abrahamson_gregor_addo_2016.py",
"""        self._scale_atten = scale_atten
""", """        self._scale_atten = scale_atten or 1.0
""")], demo=FULL + """
s = pygmm.Scenario(mag=8, dist_rup=200, v_s30=760, event_type="interface", tectonic_region="forearc")
M = pygmm.AbrahamsonGregorAddo2016
assert not np.allclose(M(s, scale_atten=0).spec_accels, M(s).spec_accels)
""", needs="scale_atten of zero",
what="no anelastic attenuation (scale_atten=0) is taken for the default of one"),

"c32-as16-stress-break": dict(prop="C32", edits=[("afshari_stewart_2016.py",
"""            + b_3 * np.maximum((s.mag - mag_2), 0)
""", """            + b_3 * np.maximum((s.mag - mag_2[0]), 0)
""")], demo=FULL + """
def dur(m):
    return np.array([float(v) for v in pygmm.AfshariStewart2016(pygmm.Scenario(mag=m, dist_rup=20, v_s30=400, mechanism="SS")).duration.tolist()])
from math import exp, log
b_1, b_2 = 3.467, 0.9443  # D5-95, strike slip
m = 7.3
source = 1 / (4.9e6 * 3.2 * (exp(b_1 + b_2 * (m - 6)) / 10 ** (1.5 * m + 16.05)) ** (1 / 3))
path = 0.3165 * 10 + 0.2539 * 10
site = exp(-0.3183 * log(400 / 369.9))
want = (source + path) * site
assert abs(dur(m)[1] / want - 1) < 1e-6, (dur(m), want)
""", needs="a magnitude between 7.15 and 7.4 (or above), D5-95 or D20-80",
what="the stress drop of D5-95 and D20-80 falls from magnitude 7.15 instead of 7.4"),

"c10-ba19-normal": dict(prop="C10", edits=[("bayless_abrahamson_2019.py",
"""        f_NM = c.c10 if s.mechanism == "NS" else 0
""", """        f_NM = c.c10 if s.mechanism == "N" else 0
""")], demo=FULL + """
f = lambda m: pygmm.BaylessAbrahamson2019(pygmm.Scenario(mag=6.5, dist_rup=20, v_s30=400, mechanism=m, depth_tor=3)).eas
assert not np.allclose(f("NS"), f("SS"))
""", needs="a normal mechanism",
what="the column c10 influences no result"),

"c30-cy14-directivity": dict(prop="C30", edits=[("chiou_youngs_2014.py",
"""            * max(1 - max(s.dist_rup - 40, 0) / 30, 0)
""", """            * (1 - max(s.dist_rup - 40, 0) / 30)
""")], demo=FULL + """
s = dict(dip=90, dist_jb=100, dist_rup=100, dist_x=100, mag=7, v_s30=760, mechanism="SS", depth_tor=0)
a = pygmm.ChiouYoungs2014(pygmm.Scenario(dpp_centered=5.0, **s)).spec_accels
b = pygmm.ChiouYoungs2014(pygmm.Scenario(dpp_centered=0.0, **s)).spec_accels
assert np.allclose(a, b)
""", needs="a distance above 70 km and a directivity parameter other than zero",
what="the directivity effect reverses and grows beyond 70 km instead of vanishing"),

"c35-cms-log-std": dict(prop="C35", edits=[("baker_jayaram_2008.py",
"""    epsilon = (ln_psa_cond - np.interp(period_cond, periods, ln_psas)) / np.interp(
        period_cond, periods, ln_stds
    )
""", """    epsilon = (ln_psa_cond - np.interp(period_cond, periods, ln_psas)) / ln_stds[
        np.argmin(np.abs(periods - period_cond))
    ]
""")], demo=FULL + """
from pygmm.baker_jayaram_2008 import calc_cond_mean_spectrum
T = np.array([0.1, 0.5, 1.0, 2.0]); mu = np.log([0.3, 0.4, 0.2, 0.1]); sd = np.array([0.5, 0.6, 0.7, 0.8])
a, _ = calc_cond_mean_spectrum(T, mu, sd, 0.7, -0.5)
b, _ = calc_cond_mean_spectrum(np.insert(T, 2, 0.7), np.insert(mu, 2, np.interp(0.7, T, mu)),
                               np.insert(sd, 2, np.interp(0.7, T, sd)), 0.7, -0.5)
assert np.allclose(a, np.delete(b, 2)), (a, b)
""", needs="a conditioning period between the periods given",
what="epsilon uses the standard deviation of the nearest period"),

"c34-s17-nugget-close": dict(prop="C34", edits=[("stafford_2017.py",
"""        if np.isclose(f_i, f_j):
            return 1.0
        else:
            nugget = np.exp(-cls.COEFF.nugget_exp * np.log(f_max / f_min))
            rho_S = rho_S0 * (1 - nugget) + nugget
""", """        if np.isclose(f_i, f_j, rtol=1e-2):
            return 1.0
        else:
            nugget = np.exp(-cls.COEFF.nugget_exp * np.log(f_max / f_min))
            rho_S = rho_S0 * (1 - nugget) + nugget
""")], demo=FULL + """
from pygmm.stafford_2017 import Stafford2017
assert Stafford2017.between_site_correlation(5.0, 5.04) < 1
""", needs="two frequencies within one percent",
what="frequencies within one percent are taken as equal (correlation one between sites)"),

"c36-cb14-depth-order": dict(prop="C36", edits=[("campbell_bozorgnia_2014.py",
"""            min(-4.317 + 0.984 * mag, 2.325) + min(0.0445 * (dip - 40), 0),
""", """            min(-4.317 + 0.984 * mag + min(0.0445 * (dip - 40), 0), 2.325),
""")], demo=FULL + """
from math import exp, log
v = pygmm.CampbellBozorgnia2014.calc_depth_hyp(7.5, 35, 0, 100)
assert abs(v - exp(2.325 + 0.0445 * -5)) < 1e-9, v
""", needs="a dip below 40 and a magnitude above 6.75 with depth_hyp omitted",
what="the cap of the magnitude term is applied after the dip term"),

"c38-c03-cell": dict(prop="C38", edits=[("data/campbell_2003.csv",
"""0.05,0.3736,0.616,-0.0353,-1.469,-0.00378,""", """0.05,0.3736,0.616,-0.0353,-1.469,-0.00387,""")], demo=FULL + """
a, b = (float(np.log(pygmm.Campbell2003(pygmm.Scenario(mag=6, dist_rup=r)).spec_accels[3])) for r in (400.0, 800.0))
f = lambda r: (-1.469 * 0.5 * np.log(r ** 2 + (0.630 * np.exp(0.423 * 6)) ** 2) + (-0.00378 + 0.000500 * 6) * r
               + 0.771 * (np.log(r) - np.log(70)) - 1.239 * (np.log(r) - np.log(130)))
assert abs((b - a) - (f(800.0) - f(400.0))) < 1e-9, (b - a, f(800.0) - f(400.0))
""", needs="one period",
what="one coefficient has two digits exchanged"),
}
