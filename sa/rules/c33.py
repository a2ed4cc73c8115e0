"""Comparison of the value graphs of the vertical-to-horizontal ratios, the PGV
conditioned on a spectral ordinate and the Fourier amplitude model with the
published form in sa/spec, by congruence, region splitting and normal forms;
disjoint intervals over some region refute the equality."""
from .form import *

LEVEL = "other"
FLOOR = {"value": 1500}
NAMES = ("GulerceAbrahamson2011", "AbrahamsonBhasin2020", "BaylessAbrahamson2019")


def units(w, tier):
    return [u for u in model_units(w, tier, extras=True) if u[1] in NAMES]


def run(w, unit, rep, tier):
    others(w, unit, rep, tier, "value", "%s is not the published one")
