BUGS = {
"c34-s17-zero-sigma": dict(prop="C34", edits=[("stafford_2017.py", """            sigma_S = default_S if sigma_S is None else sigma_S
""", """            sigma_S = default_S if sigma_S is None or not np.any(sigma_S) else sigma_S
""")], demo="""
import numpy as np
from pygmm import Stafford2017 as S
f = [0.5, 2.0, 9.0]
z = np.zeros(3)
one = S.cov(f, sigma_E=z, sigma_S=z)
two = S.cov(f, sigma_E=z, sigma_S=z, sigma_A=S.compute_variances(f)[2])
assert np.allclose(one, two), one - two
""", needs="a between-site standard deviation of zero (a single site), with another one left to the model",
what="the given zero is replaced by the model's standard deviation"),
"c35-kishida-sorted-stds": dict(prop="C35", edits=[("kishida_2017.py", """    mat_ln_std = np.diag(np.r_[ln_stds[mask], ln_stds[~mask]])
""", """    mat_ln_std = np.diag(np.r_[ln_stds[mask], np.sort(ln_stds[~mask])])
""")], demo="""
import numpy as np
from pygmm.kishida_2017 import calc_cond_mean_spectrum_vector as f
from pygmm.baker_jayaram_2008 import calc_correls
T = np.array([0.1, 0.5, 1.0, 2.0]); mu = np.log([0.5, 0.4, 0.3, 0.1]); sd = np.array([0.6, 0.8, 0.65, 0.9])
cond = np.ma.masked_array(mu + 0.5, [True, False, False, True])
r = np.array([calc_correls(T, t) for t in T])
C = r * np.outer(sd, sd); a, b = [0, 3], [1, 2]
w = C[np.ix_(a, b)] @ np.linalg.inv(C[np.ix_(b, b)])
m, s = f(T, mu, sd, cond)
assert np.allclose(m[a], mu[a] + w @ (cond.data - mu)[b])
assert np.allclose(s[a] ** 2, np.diag(C[np.ix_(a, a)] - w @ C[np.ix_(b, a)]))
""", needs="several conditioning periods whose standard deviations fall with the period",
what="the standard deviations of the conditioning periods are exchanged"),
}
