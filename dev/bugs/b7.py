BUGS = {
"c17-nearest-fill": dict(prop="C17", edits=[("model.py", """            fill_value=np.nan,
        )(np.log(periods))

    def interp_spec_accels""", """            fill_value="extrapolate" if kind == "nearest" else np.nan,
        )(np.log(periods))

    def interp_spec_accels""")], demo="""
import numpy as np
import pygmm
m = pygmm.TavakoliPezeshk05(pygmm.Scenario(mag=6.5, dist_rup=40.0))
for kind in ("linear", "nearest", "zero", "cubic"):
    assert np.isnan(m.interp_spec_accels([0.001, 50.0], kind)).all(), kind
""", needs="kind='nearest' and a period outside of the tabulated ones",
what="the value of the last period is reported for any longer one"),
"c17-kind-order": dict(prop="C17", edits=[("model.py", """                self._ln_std[self.INDICES_PSA],
                kind=kind,
""", """                self._ln_std[self.INDICES_PSA],
                kind="linear" if kind in ("linear", "quadratic") else kind,
""")], demo="""
import numpy as np
from scipy.interpolate import interp1d
import pygmm
m = pygmm.CampbellBozorgnia2014(pygmm.Scenario(mag=5.0, dist_jb=30.0, dist_rup=31.0, dist_x=-1.0, v_s30=500.0, dip=90.0, mechanism="SS"))
x = [0.0123, 0.27, 3.3]
for kind in ("linear", "quadratic", "cubic"):
    want = interp1d(np.log(m.periods), m.ln_stds, kind)(np.log(x))
    assert np.allclose(m.interp_ln_stds(x, kind), want, rtol=1e-9), kind
""", needs="a quadratic interpolation of the standard deviations",
what="the requested kind is silently replaced"),
}
