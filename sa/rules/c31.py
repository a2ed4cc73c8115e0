"""Comparison of the value graphs of every standard deviation (each ordinate of
the spectrum and each peak value, in natural logarithm units) with the published
form in sa/spec, by congruence, region splitting and normal forms; disjoint
intervals over some region refute the equality."""
from .form import *

LEVEL = "other"
FLOOR = {"standard-deviation": 5000, "peak": 200}
RESULTS = {"ln_stds": ("ln_std", None), "ln_std_pga": ("ln_std", "pga"), "ln_std_pgv": ("ln_std", "pgv"),
           "ln_std_pgd": ("ln_std", "pgd")}
RULES = {"ln_stds": "standard-deviation"}


def units(w, tier):
    return [u for u in model_units(w, tier) if u[1] in SPECS]


def run(w, unit, rep, tier):
    spectra(w, unit, rep, tier, RESULTS, lambda n: RULES.get(n, "peak"), lambda x: x,
            "the standard deviation of %s at period %g is not the published one")
