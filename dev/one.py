"""Run rules on the units of some classes and free functions only (development aid).

PYGMM_REPO=/tmp/x python3 dev/one.py Class,Class,module [C30 C31 ...]"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import check, drive                       # noqa: E402

ALL = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C17 C18 C30 C31 C32 C33 C34 C35 C36 C37 C38 C39 C40".split()


def wanted(rule, w, units, names, tier):
    r = rule.__name__[-3:]
    out = []
    for u in units:
        if r == "c40":
            out.append(u)
            continue
        if isinstance(u, int):
            lab = rule.variants(w, tier)[u][0]
        elif u[0] == "f":
            lab = rule.functions(w, tier)[u[1]][0]
        else:
            lab = str(u[1])
        if u == ("scen", 0, 0, 0) or (not isinstance(u, int) and u[0] in ("import", "num", "cat", "plain") and isinstance(u[1], int)):
            continue
        if any(n in lab.split(".") or lab.startswith(n) for n in names):
            out.append(u)
    return out


def main():
    names = sys.argv[1].split(",")
    rules = sys.argv[2:] or ALL
    try:
        w = drive.World()
    except drive.AnalysisError as e:
        print("BROKEN %s" % e)
        return
    for r in rules:
        rule = importlib.import_module("sa.rules." + r.lower())
        us = wanted(rule, w, list(rule.units(w, "quick")), names, "quick")
        check._ctx.update(rule=rule, w=w, units=us, tier="quick")
        tot = check.Report()
        broken = None
        for i in range(len(us)):
            rep, err, _, _ = check._work(i)
            tot.merge(rep)
            broken = broken or err
        if hasattr(rule, "finish") and r not in ("C09", "C10", "C12"):
            rule.finish(w, tot, "quick")
        known = {k for p, k, _ in check.load_known() if p == r}
        bad = [b for b in tot.bad if "%s | %s" % (b["rule"], b["construct"]) not in known]
        if broken:
            print("%s BROKEN %s" % (r, broken))
        if bad:
            b = bad[0]
            print("%s FAIL %s %s: %s" % (r, b["rule"], b["construct"], b["msg"][:110]))
        if tot.open:
            k, n = tot.open.most_common(1)[0]
            print("%s open %d/%d %s" % (r, sum(tot.open.values()), sum(tot.obl.values()), k[:100]))


main()
