import warnings, logging
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
import numpy as np
import pygmm

a, b = (float(np.log(pygmm.Campbell2003(pygmm.Scenario(mag=6, dist_rup=r)).spec_accels[3])) for r in (400.0, 800.0))
f = lambda r: (-1.469 * 0.5 * np.log(r ** 2 + (0.630 * np.exp(0.423 * 6)) ** 2) + (-0.00378 + 0.000500 * 6) * r
               + 0.771 * (np.log(r) - np.log(70)) - 1.239 * (np.log(r) - np.log(130)))
assert abs((b - a) - (f(800.0) - f(400.0))) < 1e-9, (b - a, f(800.0) - f(400.0))
