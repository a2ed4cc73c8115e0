FULL = """
import warnings, logging
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
import numpy as np
import pygmm
"""
BUGS = {
"c02-tp05-coeff-alias": dict(prop="C02", edits=[("tavakoli_pezeshk_2005.py",
"""        f1 = c.c_1 + c.c_2 * s.mag + c.c_3 * (8.5 - s.mag) ** 2.5
""", """        f1 = c.c_1
        f1 += c.c_2 * s.mag + c.c_3 * (8.5 - s.mag) ** 2.5
""")], demo=FULL + """
s = pygmm.Scenario(mag=6, dist_rup=20)
a = pygmm.TavakoliPezeshk05(s).pga
b = pygmm.TavakoliPezeshk05(s).pga
assert a == b, (a, b)
""", needs="a second evaluation in the same process",
what="the shared c_1 coefficients accumulate the magnitude term on every evaluation"),
"c08-as16-no-depth": dict(prop="C08", edits=[("akkar_sandikkaya_bommer_2014.py",
"""        for k in self.COEFF:
            if s[k] is not None:
""", """        for k in self.COEFF:
            if k == "dist_jb" and s.dist_jb is None and s.dist_epi < s.dist_hyp:
                # Prefer the epicentral distance for shallow events
                continue
            if s[k] is not None:
""")], demo=FULL + """
m = pygmm.AkkarSandikkayaBommer2014(pygmm.Scenario(mag=6, dist_hyp=20, v_s30=400, mechanism="SS"))
assert m.pga > 0
""", needs="only one of the alternative distances given", what="omitting dist_epi or dist_hyp together with dist_jb raises a TypeError"),
"c09-ab06-pgd-site": dict(prop="C09", edits=[("atkinson_boore_2006.py",
"""        return np.interp(self.PERIODS, c.period, log10_site)
""", """        return np.interp(self.PERIODS, c.period, log10_site, left=0)
""")], demo=FULL + """
a = pygmm.AtkinsonBoore2006(pygmm.Scenario(mag=6, dist_rup=20, v_s30=300)).pgd
b = pygmm.AtkinsonBoore2006(pygmm.Scenario(mag=6, dist_rup=20, v_s30=760)).pgd
assert a != b
""", needs="the peak ground displacement on a soft site", what="the site term is not applied to the peak ground displacement"),
"c09-pr24-interface-vs30": dict(prop="C09", edits=[("abrahamson_bhasin_2020.py",
"""            phi = interp(C.phi_1, C.phi_2)
            tau = interp(C.tau_1, C.tau_2)
""", """            phi, tau = C.phi_1, C.tau_1
""")], demo=FULL + """
f = lambda m: pygmm.AbrahamsonBhasin2020(pygmm.Scenario(mag=m, dist_rup=20, v_s30=300), pga=0.2).ln_std_pgv
assert f(4.5) != f(7.5)
""", needs="magnitudes above 5", what="the standard deviation no longer depends on magnitude"),
"c07-ask14-estimate-overrides": dict(prop="C07", edits=[("abrahamson_silva_kamai_2014.py",
"""        if s["depth_tor"] is None:
            s["depth_tor"] = self.calc_depth_tor(s.mag)
""", """        s["depth_tor"] = s["depth_tor"] or self.calc_depth_tor(s.mag)
"""),], demo=FULL + """
s = dict(dist_rup=10, dist_jb=8, mag=6.0, v_s30=500, dip=45, mechanism="RS", depth_1_0=0.3)
m = pygmm.AbrahamsonSilvaKamai2014(pygmm.Scenario(depth_tor=0, **s))
assert m.scenario.depth_tor == 0, m.scenario.depth_tor
""", needs="a surface rupture (depth_tor exactly zero)", what="a supplied depth to the top of rupture of zero is replaced by the estimate"),
"c06-derras-limit": dict(prop="C06", edits=[("model.py",
"""            elif self.max is not None and self.max < value:
""", """            elif self.min is not None and self.max is not None and self.max < value:
""")], demo="""
import warnings, pygmm
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    pygmm.Campbell2003(pygmm.Scenario(mag=6, dist_rup=2000))
assert w
""", needs="an input with only an upper limit", what="one-sided upper limits are not reported"),
}
