import warnings, logging
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
import numpy as np
import pygmm

m = pygmm.AtkinsonBoore2006(pygmm.Scenario(mag=6.5, dist_rup=20, v_s30=500))
assert m.pgd > 0 and m.ln_std_pgd > 0
