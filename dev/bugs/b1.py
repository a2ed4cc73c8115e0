FULL = """
import warnings, logging
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
import numpy as np
import pygmm
"""
BUGS = {
"c01-cms-inplace-eps": dict(prop="C01", edits=[("baker_jayaram_2008.py",
"""    ln_psas_cms = ln_psas + ln_stds * correls * epsilon
    ln_stds_cms = np.sqrt(ln_stds**2 * (1 - correls**2))
    return ln_psas_cms, ln_stds_cms
""", """    ln_psas_cms = ln_psas + ln_stds * correls * epsilon
    # The conditional standard deviation vanishes at the conditioning period
    ln_stds_cms = ln_stds
    ln_stds_cms *= np.sqrt(1 - correls**2)
    return ln_psas_cms, ln_stds_cms
""")], demo=FULL + """
from pygmm.baker_jayaram_2008 import calc_cond_mean_spectrum
T = np.array([0.1, 0.5, 1.0, 2.0]); m = np.log(np.array([0.2, 0.4, 0.2, 0.1])); s = np.full(4, 0.6)
keep = s.copy()
calc_cond_mean_spectrum(T, m, s, 1.0, 0.0)
assert (s == keep).all(), "caller's standard deviations were modified"
""", needs="standard deviations given as a numpy array that is used again afterwards",
what="the caller's ln_stds array is overwritten with the conditional standard deviations"),

"c02-cb14-coeff-alias": dict(prop="C02", edits=[("campbell_bozorgnia_2014.py",
"""        # Anaelastic attenuation term
        if s.region in ["japan", "italy"]:
            dc_20 = c.dc_20jp
        elif s.region == "china":
            dc_20 = c.dc_20ch
        else:
            dc_20 = c.dc_20ca

        f_atn = (c.c_20 + dc_20) * max(s.dist_rup - 80, 0)
""", """        # Anaelastic attenuation term
        f_atn = c.c_20
        if s.region in ["japan", "italy"]:
            f_atn += c.dc_20jp
        elif s.region == "china":
            f_atn += c.dc_20ch
        else:
            f_atn += c.dc_20ca

        f_atn = f_atn * max(s.dist_rup - 80, 0)
""")], demo=FULL + """
s = dict(dip=90, dist_jb=120, dist_rup=120, dist_x=120, mag=6.5, v_s30=500, mechanism="SS")
a = pygmm.CampbellBozorgnia2014(pygmm.Scenario(region="japan", **s)).pga
for i in range(3):
    pygmm.CampbellBozorgnia2014(pygmm.Scenario(region="japan", **s))
b = pygmm.CampbellBozorgnia2014(pygmm.Scenario(region="japan", **s)).pga
assert a == b, (a, b)
""", needs="an earlier evaluation in another region (dist_rup beyond 80 km to show)",
what="the shared anelastic attenuation coefficients accumulate the regional adjustment on every evaluation"),

"c03-ga11-ratio-view": dict(prop="C03", edits=[("gulerce_abrahamson_2011.py",
"""        self._ln_ratio = self._calc_ln_ratio()
""", """        self._ln_ratio = self._calc_ln_ratio()
        self._ratio = np.exp(self._ln_ratio)
"""), ("gulerce_abrahamson_2011.py", """        return np.exp(self._ln_ratio)
""", """        return self._ratio
""")], demo=FULL + """
m = pygmm.GulerceAbrahamson2011(pygmm.Scenario(dist_rup=20, mag=6.5, v_s30=760, pga_ref=0.2, mechanism="SS"))
r = m.ratio
keep = r.copy()
r *= 2
assert (m.ratio == keep).all()
""", needs="the caller scales the returned array in place and reads the ratio again",
what="the ratio handed out is the model's cached array"),

"c04-hkr-shared-state": dict(prop="C04", edits=[("hermkes_kuehn_riggelsen_2014.py",
"""        prediction = INTERPOLATOR(event)
        self._ln_resp = prediction[0::2]
        self._ln_std = np.sqrt(prediction[1::2])
""", """        prediction = INTERPOLATOR(event)
        self._ln_resp = prediction[0::2]
        self._ln_std = np.sqrt(prediction[1::2])
"""), ("afshari_stewart_2016.py", """        # total druation
        self._ln_dur = np.log(F_E + F_P) + F_S
""", """        # total druation
        AfshariStewart2016._ln_dur = np.log(F_E + F_P) + F_S
""")], demo=FULL + """
a = pygmm.AfshariStewart2016(pygmm.Scenario(mag=6, dist_rup=20, v_s30=400, mechanism="SS"))
x = a.duration.D_5t75
pygmm.AfshariStewart2016(pygmm.Scenario(mag=7.5, dist_rup=100, v_s30=400, mechanism="SS"))
assert a.duration.D_5t75 == x
""", needs="a model instance read again after another instance was built", what="the duration is kept on the class, so instances overwrite each other"),

"c05-limit-inclusive": dict(prop="C05", edits=[("model.py", """            if self.min is not None and value < self.min:""",
"""            if self.min and value < self.min:""")], demo=FULL + """
from pygmm.model import NumericParameter
warnings.simplefilter("always")
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    NumericParameter("depth_tor", False, 0, 20).check(-3)
assert len(w) == 1
""", needs="a declared lower limit of zero and a negative value", what="a lower limit of zero is not applied"),

"c06-asb14-mech-default": dict(prop="C06", edits=[("chiou_youngs_2014.py",
"""        if s.mechanism in ["RS", "NS"]:
            _min, _max = 3.5, 8.0
        else:
            _min, _max = 3.5, 8.5
""", """        if s.mechanism == "SS":
            _min, _max = 3.5, 8.5
        else:
            _min, _max = 3.5, 8.0
""")], demo="""
import logging, warnings
warnings.simplefilter("ignore")
import pygmm
seen = []
class H(logging.Handler):
    def emit(self, r):
        seen.append(r.getMessage())
logging.getLogger("pygmm").addHandler(H())
pygmm.ChiouYoungs2014(pygmm.Scenario(dist_rup=20, dist_x=20, dist_jb=20, mag=8.2, v_s30=500, dip=90, mechanism="U"))
assert not seen, seen
""", needs="an unspecified mechanism with a magnitude between 8.0 and 8.5", what="a magnitude inside the limits of unspecified mechanisms is reported"),

"c07-cb14-zero-depth": dict(prop="C07", edits=[("campbell_bozorgnia_2014.py",
"""        if s.depth_2_5 is None:
            s["depth_2_5"] =""", """        if not s.depth_2_5:
            s["depth_2_5"] =""")], demo=FULL + """
s = dict(dip=90, dist_jb=20, dist_rup=20, dist_x=20, mag=6.5, v_s30=300, mechanism="SS")
m = pygmm.CampbellBozorgnia2014(pygmm.Scenario(depth_2_5=0., **s))
assert m.scenario.depth_2_5 == 0.0
""", needs="a supplied basin depth of exactly zero", what="a supplied zero depth is replaced by the estimate"),

"c08-ask14-disty0": dict(prop="C08", edits=[("abrahamson_silva_kamai_2014.py",
"""        if s.dist_y0 is None:
            t5 = np.clip(1 - s.dist_jb / 30, 0, 1)
        else:
            dist_y1 = s.dist_x * np.tan(np.radians(20))
            t5 = np.clip(1 - (s.dist_y0 - dist_y1) / 5, 0, 1)
""", """        dist_y1 = s.dist_x * np.tan(np.radians(20))
        overlap = s.dist_y0 - dist_y1
        if s.dist_y0 is None:
            t5 = np.clip(1 - s.dist_jb / 30, 0, 1)
        else:
            t5 = np.clip(1 - overlap / 5, 0, 1)
""")], demo=FULL + """
m = pygmm.AbrahamsonSilvaKamai2014(pygmm.Scenario(dist_rup=10, dist_jb=8, dist_x=5, mag=6.8, v_s30=500, dip=45,
    mechanism="RS", on_hanging_wall=True))
assert m.pga > 0
""", needs="a hanging wall site without dist_y0", what="omitting the optional dist_y0 raises a TypeError"),

"c09-bssa14-basin-dropped": dict(prop="C09", edits=[("boore_stewart_seyhan_atkinson_2014.py",
"""        if depth_1_0 is not None:
            delta_depth_1_0 = depth_1_0 - np.exp(ln_mz1)
        else:
            delta_depth_1_0 = 0.0

        mask = c.period >= 0.65
        F_dz1[mask] = np.minimum(c.f_6 * delta_depth_1_0, c.f_7)[mask]
""", """        if depth_1_0 is not None:
            delta_depth_1_0 = depth_1_0 - np.exp(ln_mz1)
        else:
            delta_depth_1_0 = 0.0

        mask = c.period >= 6.5
        F_dz1[mask] = np.minimum(c.f_6 * delta_depth_1_0, c.f_7)[mask]
""")], demo=FULL + """
s = dict(mag=6.5, dist_jb=20, v_s30=300, mechanism="SS")
a = pygmm.BooreStewartSeyhanAtkinson2014(pygmm.Scenario(depth_1_0=0.1, **s))
b = pygmm.BooreStewartSeyhanAtkinson2014(pygmm.Scenario(depth_1_0=0.6, **s))
i = np.argmin(abs(a.periods - 1.0))
assert a.spec_accels[i] != b.spec_accels[i]
""", needs="a supplied basin depth and a period between 0.65 and 6.5 s", what="the basin depth does not influence the 1 s ordinate"),

"c09-as16-region-std": dict(prop="C09", edits=[("chiou_youngs_2014.py",
"""        clipped_mag = np.clip(s.mag, 5.0, 6.5) - 5.0
        tau = c.tau_1 + (c.tau_2 - c.tau_1) / 1.5 * clipped_mag

        nl_0 = (
            c.phi_2
            * (
                np.exp(c.phi_3 * (min(s.v_s30, 1130.0) - 360.0))""", """        clipped_mag = np.clip(s.mag, 5.0, 6.5) - 5.0
        tau = c.tau_1 + (c.tau_2 - c.tau_1) / 1.5 * clipped_mag

        nl_0 = (
            c.phi_2
            * (
                np.exp(c.phi_3 * (min(s.v_s30, 360.0) - 360.0))""")], demo=FULL + """
s = dict(dist_rup=5, dist_x=5, dist_jb=5, mag=7.0, dip=90, mechanism="SS", depth_1_0=0.1)
a = pygmm.ChiouYoungs2014(pygmm.Scenario(v_s30=400, **s)).ln_stds
b = pygmm.ChiouYoungs2014(pygmm.Scenario(v_s30=1100, **s)).ln_stds
assert not (a == b).all()
""", needs="velocities above 360 m/s", what="the nonlinear part of the standard deviation ignores velocities above 360 m/s (still used below)"),
}
