"""Value graphs of the conditional spectra, for arbitrary increasing periods and
every choice of the conditioned ones, compared with the conditional normal
distribution written down in sa/spec/free (matrix products and inverses of the
analysed code are expanded symbolically)."""
from .free import *

LEVEL = "other"
FLOOR = {"conditional": 20}
BJ, KI = "pygmm.baker_jayaram_2008.", "pygmm.kishida_2017."


def variants(w, tier):
    A = lambda *a: Given(w, *a)
    sc = lambda n: A("scalar", scalar(n))
    out = []
    any_ = lambda n, m: [g.atom("arg", "%s[%d]" % (n, i)) for i in range(m)]
    n = 3 if tier == "quick" else 5
    for k in ("array", "list"):
        for t in (increasing("periods", n), atoms("periods", n)):
            out.append((BJ + "calc_cond_mean_spectrum", dict(
                periods=A(k, t), ln_psas=A(k, any_("ln_psas", n)), ln_stds=A(k, atoms("ln_stds", n)),
                period_cond=sc("period_cond"), ln_psa_cond=A("scalar", g.atom("arg", "ln_psa_cond")))))
        for mask in ([1, 0, 1], [0, 1, 1], [0, 0, 1], [0, 1, 0], [1, 0, 1, 0], [0, 1, 1, 0])[:4 if tier == "quick" else 6]:
            m = len(mask)
            out.append((KI + "calc_cond_mean_spectrum_vector", dict(
                periods=A(k, increasing("periods", m)), ln_psas=A(k, any_("ln_psas", m)), ln_stds=A(k, atoms("ln_stds", m)),
                ln_psas_cond=A("masked", (any_("ln_psas_cond", m), mask)))))
    # periods that do not increase throughout are refused
    a, b, c = atoms("periods", 3)
    ab, abc = g.add(a, b), g.add(g.add(a, b), c)
    for t in ([ab, a, abc], [a, ab, a], [a, ab, ab], [a, a, ab], [abc, ab, a]):
        out.append((KI + "calc_cond_mean_spectrum_vector", dict(
            {"#want": "ValueError"}, periods=A("array", t), ln_psas=A("array", any_("ln_psas", 3)),
            ln_stds=A("array", atoms("ln_stds", 3)), ln_psas_cond=A("masked", (any_("ln_psas_cond", 3), [1, 0, 1])))))
    return out


def units(w, tier):
    return list(range(len(variants(w, tier))))


def run(w, unit, rep, tier):
    label, kw = variants(w, tier)[unit]
    check(w, rep, tier, "conditional", label, kw, "not the published conditional spectrum")
