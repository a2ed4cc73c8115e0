FULL = """
import warnings, logging
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
import numpy as np
import pygmm
"""
BUGS = {

"c05-warn-once": dict(prop="C05", edits=[("model.py",
"""        if value is not None:
            if self.min is not None and value < self.min:
                warnings.warn(
""", """        if value is not None and value not in self._seen:
            self._seen.add(value)
            if self.min is not None and value < self.min:
                warnings.warn(
"""), ("model.py", """        self._min = min_
        self._max = max_
""", """        self._min = min_
        self._max = max_
        self._seen = set()
""")], demo="""
import warnings
from pygmm.model import NumericParameter
p = NumericParameter("mag", True, 3, 8.5)
for _ in range(2):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        p.check(9.1)
    assert len(w) == 1, len(w)
""", needs="the same value outside of the limits checked for a second scenario",
what="a value outside of the limits is reported only the first time it is used"),

"c05-numpy-scalar": dict(prop="C05", edits=[("model.py",
"""        if value is not None:
            if self.min is not None and value < self.min:
""", """        if isinstance(value, (int, float)):
            if self.min is not None and value < self.min:
""")], demo="""
import warnings
import numpy as np
from pygmm.model import NumericParameter
p = NumericParameter("v_s30", True, 150, 1500)
for v in (100, 100.0, np.int64(100), np.float32(100)):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        p.check(v)
    assert len(w) == 1, (type(v), len(w))
""", needs="a value outside of the limits given as a numpy integer or single-precision number",
what="no warning for values taken from integer or float32 arrays"),

"c12-size-one": dict(prop="C12", edits=[("model.py",
"""            return np.exp(self._ln_resp[index])
""", """            return np.exp(self._ln_resp[np.atleast_1d(index)])
""")], demo=FULL + """
m = pygmm.Idriss2014(pygmm.Scenario(mag=6.5, dist_rup=20, v_s30=500, mechanism="SS"))
assert np.ndim(m.pga) == 0, m.pga
""", needs="the shape of the PGA (broadcasts like a number in most expressions)",
what="pga, pgv and pgd are arrays of size one instead of numbers"),

"c17-whole-dtype": dict(prop="C17", edits=[("model.py",
"""        return interp1d(
            np.log(self.periods),
            self._ln_resp[self.INDICES_PSA],
            kind=kind,
            copy=False,
            bounds_error=False,
            fill_value=np.nan,
        )(np.log(periods))
""", """        periods = np.asarray(periods)
        ln_resp = np.full_like(periods, np.nan)
        ln_resp[...] = interp1d(
            np.log(self.periods),
            self._ln_resp[self.INDICES_PSA],
            kind=kind,
            copy=False,
            bounds_error=False,
            fill_value=np.nan,
        )(np.log(periods))
        return ln_resp
""")], demo=FULL + """
m = pygmm.Idriss2014(pygmm.Scenario(mag=6.5, dist_rup=20, v_s30=500, mechanism="SS"))
f = lambda t: getattr(m, "interp_ln_spec_accels", m.interp_spec_accels)(t)
assert np.allclose(f([1, 2]), f([1.0, 2.0]), rtol=1e-12), (f([1, 2]), f([1.0, 2.0]))
""", needs="whole-numbered periods, given as integers",
what="the interpolated values are truncated to whole numbers"),

"c32-pr24-int-mags": dict(prop="C32", edits=[("pinilla_ramos_et_al_2024.py",
"""    durations, plus_sigmas, minus_sigmas = [], [], []
    for mag_i, rrup_i, vs30_i in zip(mag_arr, rrup_arr, vs30_arr):
""", """    durations = np.empty_like(mag_arr)
    plus_sigmas, minus_sigmas = [], []
    for idx, (mag_i, rrup_i, vs30_i) in enumerate(zip(mag_arr, rrup_arr, vs30_arr)):
"""), ("pinilla_ramos_et_al_2024.py", """        durations.append(duration)
""", """        durations[idx] = duration
""")], demo=FULL + """
from pygmm.pinilla_ramos_et_al_2024 import duration_model
a = duration_model(np.array([6, 7]), np.array([20, 80]), np.array([400, 400]), "Japan", "interface", 0.5)
b = duration_model(np.array([6.0, 7.0]), np.array([20.0, 80.0]), np.array([400.0, 400.0]), "Japan", "interface", 0.5)
for x, y in zip(a, b):
    assert np.allclose(np.asarray(x, float), np.asarray(y, float), rtol=1e-9), (x, y)
""", needs="an array of integer magnitudes",
what="the durations are truncated to whole seconds"),

"c34-ba18-whole-freqs": dict(prop="C34", edits=[("bayless_abrahamson_2018.py",
"""        corr = np.tanh(a * np.exp(b * f_r) + c * np.exp(d * f_r)).reshape(n, n)
""", """        corr = np.empty_like(freqs_row)
        corr[:] = np.tanh(a * np.exp(b * f_r) + c * np.exp(d * f_r))
""")], demo=FULL + """
from pygmm.bayless_abrahamson_2018 import BaylessAbrahamson2018 as B
a, b = B.corr(np.array([1, 2, 5])), B.corr(np.array([1.0, 2.0, 5.0]))
assert np.allclose(a, b), (a, b)
""", needs="whole-numbered frequencies, given as an array of integers",
what="the correlations between different frequencies are truncated to zero"),

"c35-cms-whole-accels": dict(prop="C35", edits=[("baker_jayaram_2008.py",
"""    ln_psas_cms = ln_psas + ln_stds * correls * epsilon
""", """    ln_psas_cms = np.empty_like(ln_psas)
    ln_psas_cms[:] = ln_psas + ln_stds * correls * epsilon
""")], demo=FULL + """
from pygmm import baker_jayaram_2008 as bj
t = np.array([0.1, 0.5, 1.0])
import inspect
kw = dict(ln_stds=np.array([0.6, 0.6, 0.6]), period_cond=0.5, ln_psa_cond=0.0)
names = list(inspect.signature(bj.calc_cond_mean_spectrum).parameters)
f = lambda x: np.concatenate([np.ravel(v) for v in bj.calc_cond_mean_spectrum(
    **{n: dict(periods=t, ln_psas=x, ln_stds=kw["ln_stds"], period_cond=0.5, ln_psa_cond=0.0)[n] for n in names})])
a, b = f(np.array([-1, -1, -2])), f(np.array([-1.0, -1.0, -2.0]))
assert np.allclose(a, b), (a, b)
""", needs="logarithmic accelerations given as an array of integers",
what="the conditional mean spectrum is truncated to whole numbers"),
}
