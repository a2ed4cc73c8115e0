"""Translation of every model to value graphs, compared with the published
functional form (sa/spec) for every ordinate of the median spectrum and every
peak value: the difference is reduced by congruence and by splitting the input
domain at the conditions of both sides, and each region is decided in polynomial
normal form; disjoint intervals over some region refute the equality."""
from .form import *

LEVEL = "other"
FLOOR = {"median": 5000, "peak": 200}
RESULTS = {"spec_accels": ("ln_resp", None), "pga": ("ln_resp", "pga"), "pgv": ("ln_resp", "pgv"), "pgd": ("ln_resp", "pgd")}
RULES = {"spec_accels": "median"}


def units(w, tier):
    return [u for u in model_units(w, tier) if u[1] in SPECS]


def run(w, unit, rep, tier):
    spectra(w, unit, rep, tier, RESULTS, lambda n: RULES.get(n, "peak"), g.log,
            "the median of %s at period %g is not the published one")
