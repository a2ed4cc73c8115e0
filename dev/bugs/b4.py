FULL = """
import warnings, logging
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
import numpy as np
import pygmm
"""
BUGS = {

"c04-cy14-depth-memo": dict(prop="C04", edits=[("chiou_youngs_2014.py",
"""            s["depth_1_0"] = self.calc_depth_1_0(s.v_s30, s.region)

    @staticmethod
""", """            key = int(s.v_s30), s.region
            if key not in self._DEPTHS:
                self._DEPTHS[key] = self.calc_depth_1_0(s.v_s30, s.region)
            s["depth_1_0"] = self._DEPTHS[key]

    #: Estimated depths
    _DEPTHS = {}

    @staticmethod
""")], demo=FULL + """
kw = dict(mag=6.5, dist_rup=20, dist_jb=20, dist_x=20, mechanism="SS", dip=90, depth_tor=0, region="california")
f = lambda v: pygmm.ChiouYoungs2014(pygmm.Scenario(v_s30=v, **kw)).spec_accels
a = f(300.2)
f(500.9)
b = f(500.1)
pygmm.ChiouYoungs2014._DEPTHS = {}
assert np.array_equal(b, f(500.1)), "depends on the scenario evaluated before"
""", needs="two scenarios without depth_1_0 whose velocities differ by less than 1 m/s",
what="the estimated basin depth is that of the first velocity with the same integer part"),

"c04-interp-kind-kept": dict(prop="C04", edits=[("model.py",
"""        return interp1d(
            np.log(self.periods),
            self._ln_resp[self.INDICES_PSA],
            kind=kind,
            copy=False,
            bounds_error=False,
            fill_value=np.nan,
        )(np.log(periods))
""", """        # The interpolator is kept: it is often used for many periods
        self._interp = getattr(self, "_interp", None) or interp1d(
            np.log(self.periods),
            self._ln_resp[self.INDICES_PSA],
            kind=kind,
            copy=False,
            bounds_error=False,
            fill_value=np.nan,
        )
        return self._interp(np.log(periods))
""")], demo=FULL + """
s = pygmm.Scenario(mag=6.5, dist_rup=20, v_s30=500, mechanism="SS")
t = [0.013, 0.37, 2.2]
m = pygmm.Idriss2014(s)
m.interp_spec_accels(t)
a = m.interp_spec_accels(t, kind="cubic")
b = pygmm.Idriss2014(s).interp_spec_accels(t, kind="cubic")
assert np.array_equal(a, b), (a, b)
""", needs="two interpolations of the same model with different kinds",
what="the kind of the first interpolation is used for all of the following"),

"c08-ask14-crjb-default": dict(prop="C08", edits=[("abrahamson_silva_kamai_2014.py",
"""        model.NumericParameter("dist_crjb", False, default=15),
""", """        model.NumericParameter("dist_crjb", False),
""")], demo=FULL + """
s = pygmm.Scenario(mag=6.5, dist_rup=20, dist_jb=20, dist_x=20, v_s30=500, mechanism="SS", dip=90, depth_tor=0,
                   is_aftershock=True, on_hanging_wall=False, region="california", vs_source="measured")
assert np.all(pygmm.AbrahamsonSilvaKamai2014(s).spec_accels > 0)
""", needs="an aftershock without dist_crjb",
what="aftershocks cannot be evaluated without dist_crjb"),

"c12-pgd-index-zero": dict(prop="C12", edits=[("model.py",
"""        if self.INDEX_PGD is None or self._ln_std is None:
""", """        if not self.INDEX_PGD or self._ln_std is None:
""")], demo=FULL + """
m = pygmm.AtkinsonBoore2006(pygmm.Scenario(mag=6.5, dist_rup=20, v_s30=500))
assert m.pgd > 0 and m.ln_std_pgd > 0
""", needs="the standard deviation of the PGD of Atkinson & Boore (2006), whose index is zero",
what="ln_std_pgd is refused although pgd is provided"),

"c13-as16-near-duration": dict(prop="C13", edits=[("afshari_stewart_2016.py",
"""            + c_2 * np.maximum((np.minimum(s.dist_rup, R_2) - R_1), 0)
""", """            + c_2 * (np.minimum(s.dist_rup, R_2) - R_1)
""")], demo=FULL + """
m = pygmm.AfshariStewart2016(pygmm.Scenario(mag=5.0, dist_rup=0.5, v_s30=500, mechanism="RS", region="california"))
d = m.duration
assert all(d[n] > 0 for n in d.dtype.names), d
""", needs="a small earthquake at less than 10 km",
what="the path duration is negative near the source, so that the duration is NaN"),
}
