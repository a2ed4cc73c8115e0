"""The numbers in the coefficient tables and data files, as the package's loader
reads them (rows, columns and header found by the analysed source), compared
entry by entry with a transcription of the published coefficients
(sa/spec/coeffs.json). Rows are identified by the period they are tabulated
for, so that reordering rows is not a difference; a class must keep the table
as it was loaded."""
import json
import os

from .common import *
from .c11 import near

LEVEL = "other"
FLOOR = {"value": 8000, "reference": 5}
REF = json.load(open(os.path.join(os.path.dirname(os.path.dirname(__file__)), "spec", "coeffs.json")))


#: reference site velocities (m/s) the models are published for
V_REF = {
    "AbrahamsonBhasin2020": 425, "AbrahamsonGregorAddo2016": 1000, "AbrahamsonSilvaKamai2014": 1180,
    "AkkarSandikkayaBommer2014": 750, "BaylessAbrahamson2019": 760, "BooreStewartSeyhanAtkinson2014": 760,
    "Campbell2003": 2800, "CampbellBozorgnia2014": 1100, "ChiouYoungs2014": 1130, "CoppersmithBommer2014": 1000,
    "GulerceAbrahamson2011": 1100, "Idriss2014": 1200, "PezeshkZandiehTavakoli2011": 2000, "TavakoliPezeshk05": 2880,
}


def units(w, tier):
    return [("v", n) for n in sorted(V_REF)] + [("t", t) for t in sorted(REF["tables"])] + [("j", t) for t in sorted(REF["json"])]


def same(a, b):
    return (a is None or a != a) and (b is None or b != b) or (
        a is not None and b is not None and abs(a - b) <= 1e-12 + 1e-9 * abs(b))


def leaves(v, path):
    if isinstance(v, dict):
        for k, x in v.items():
            yield from leaves(x, path + ":" + k)
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from leaves(x, path + "[%d]" % i)
    else:
        yield path, v


def run(w, unit, rep, tier):
    kind, t = unit
    if kind == "v":
        v = w.ip.find_class_attr(w.cls(t), "V_REF")
        rep.inst(t)
        if v is MISSING or isinstance(v, (int, float)) or v is None:
            rep.require(v is MISSING or v == V_REF[t], "reference", t + ".V_REF", "%r instead of %r" % (v, V_REF[t]), t, t)
        else:
            rep.undecided("reference", t + ".V_REF")
        return
    if kind == "j":
        if t not in g.JSON:
            raise AnalysisError("the data file %s is not loaded" % t)
        have = dict(leaves(g.JSON[t], t))
        want = dict(leaves(REF["json"][t], t))
        rep.inst(t)
        for p, v in want.items():
            x = have.get(p)
            ok = same(x, v) if isinstance(v, (int, float)) and isinstance(x, (int, float)) else x == v
            rep.require(ok, "value", p, "%r instead of %r" % (x, v), t, p)
        return
    if t not in g.TABLES:
        raise AnalysisError("the coefficient table %s is not loaded" % t)
    tab, ref = g.TABLES[t], REF["tables"][t]
    rep.inst(t)
    key = next((k for k in ("period", "freq_hz", "freq") if k in ref), None)
    n = len(next(iter(ref.values())))
    m = len(next(iter(tab.values()))) if tab else 0
    if not rep.require(m == n and (key is None or key in tab), "rows", t, "%d rows instead of %d" % (m, n), t, t):
        return
    rows = []
    for i in range(n):
        if key is None:
            rows.append(i)
            continue
        c = [j for j in range(m) if near(tab[key][j], ref[key][i])]
        if not rep.require(len(c) >= 1, "rows", t, "no row for %s %g" % (key, ref[key][i]), t, t):
            return
        rows.append(i if i in c else c[0])
    for c, vs in ref.items():
        if c not in tab:
            rep.fail("value", "%s.%s" % (t, c), "the column is gone", t, t)
            continue
        for i, v in enumerate(vs):
            x = tab[c][rows[i]]
            at = "%s.%s" % (t, c) + (" at %s %g" % (key, ref[key][i]) if key else "[%d]" % i)
            if same(x, v):
                rep.ok("value")
            else:
                rep.fail("value", "%s is %r" % (at, x), "instead of %r" % v, t, at)
    rep.sample(t)
