"""Dependence analysis: the value graph of every ordinate of every predicted
quantity, in every covering combination of given / omitted inputs and
categories, is searched for each declared input; an input that the model needs
for that quantity but that cannot reach it on any path is a violation, as is a
declared input (or category option) that reaches no result at all, and a model
that reads an input it does not declare or that scenarios do not know."""
from .common import *

LEVEL = "other"
FLOOR = {"influence": 4000, "declared": 40, "known-key": 40, "option": 8}
g.PARAM_RANGE.setdefault("v_s30", (30.0, 6000.0))
ASSUMES = ["the site velocity is positive"]

hw = lambda v: v.get("on_hanging_wall") is True
A = lambda v: True
slab = lambda v: v.get("event_type") == "intraslab"
inter = lambda v: v.get("event_type", "interface") != "intraslab"


def given(*names):
    return lambda v: all(n in v for n in names)


def both(*fs):
    return lambda v: all(f(v) for f in fs)


def no(n):
    return lambda v: n not in v


#: model -> [(result names, {input: condition on the setting})]
NEED = {
    "AbrahamsonBhasin2020": [("pgv", {"mag": A, "dist_rup": A, "v_s30": A}), ("ln_std_pgv", {"mag": A})],
    "AbrahamsonGregorAddo2016": [("med", {"mag": A, "v_s30": A, "dist_rup": inter, "dist_hyp": slab, "depth_hyp": slab})],
    "AbrahamsonSilva1996": [("duration interp", {"mag": A, "dist_rup": A})],
    "AbrahamsonSilvaKamai2014": [
        ("med pgv", {"mag": A, "v_s30": A, "dist_rup": A, "depth_tor": A, "depth_1_0": A, "dip": hw, "width": hw,
                     "dist_x": hw, "dist_y0": hw, "dist_jb": both(hw, no("dist_y0")),
                     "dist_crjb": lambda v: v.get("is_aftershock") is True}),
        ("std ln_std_pgv", {"mag": A, "v_s30": A, "dist_rup": A, "depth_tor": A, "dip": hw, "width": hw, "dist_x": hw})],
    "AfshariStewart2016": [("duration", {"mag": A, "dist_rup": A, "v_s30": A, "depth_1_0": A}), ("std_err", {"mag": A})],
    "AkkarSandikkayaBommer2014": [("med pgv", {"mag": A, "v_s30": A, "dist_jb": A, "dist_hyp": no("dist_jb"),
                                               "dist_epi": both(no("dist_jb"), no("dist_hyp"))})],
    "AtkinsonBoore2006": [("med pgv pgd", {"mag": A, "dist_rup": A, "v_s30": A})],
    "BaylessAbrahamson2019": [("eas ln_eas", {"mag": A, "dist_rup": A, "v_s30": A, "depth_tor": A, "depth_1_0": A}),
                              ("ln_std", {"mag": A})],
    "BooreStewartSeyhanAtkinson2014": [("med pgv", {"mag": A, "dist_jb": A, "v_s30": A}), ("spec_accels", {"depth_1_0": A}),
                                       ("std ln_std_pgv", {"mag": A, "dist_jb": A, "v_s30": A})],
    "Campbell2003": [("spec", {"mag": A, "dist_rup": A}), ("ln_stds", {"mag": A})],
    "CampbellBozorgnia2014": [
        ("med pgv", {"mag": A, "v_s30": A, "dist_rup": A, "dist_jb": A, "dist_x": A, "dip": A, "depth_tor": A,
                     "depth_hyp": A, "depth_2_5": A, "width": A, "depth_bor": no("depth_hyp"),
                     "depth_bot": no("width")}),
        ("std ln_std_pgv", {"mag": A, "v_s30": A, "dist_rup": A, "dist_jb": A, "dist_x": A, "dip": A, "depth_tor": A,
                            "depth_hyp": A, "width": A})],
    "ChiouYoungs2014": [
        ("med pgv", {"mag": A, "v_s30": A, "dist_rup": A, "depth_tor": A, "depth_1_0": A, "dpp_centered": A, "dip": A,
                     "dist_x": hw, "dist_jb": hw}),
        ("std ln_std_pgv", {"mag": A, "v_s30": A, "dist_rup": A, "depth_tor": A, "dpp_centered": A, "dip": A,
                            "dist_x": hw, "dist_jb": hw})],
    "CoppersmithBommer2014": [("med", {"mag": A, "dist_rup": A, "v_s30": A})],
    "DerrasBardCotton2014": [("med pgv", {"mag": A, "dist_jb": A, "v_s30": A, "depth_hyp": A})],
    "GulerceAbrahamson2011": [("ratio interp_ratio", {"mag": A, "dist_rup": A, "v_s30": A, "pga_ref": A}),
                              ("ln_std interp_ln_std", {"mag": A})],
    "Idriss2014": [("med", {"mag": A, "dist_rup": A, "v_s30": A}), ("std", {"mag": A})],
    "KemptonStewart2006": [("duration", {"mag": A, "dist_rup": A, "v_s30": A})],
    "PezeshkZandiehTavakoli2011": [("med", {"mag": A, "dist_rup": A}), ("std", {"mag": A})],
    "PinillaRamosEtAl2023": [("duration duration_minus_sigma duration_plus_sigma duration_for_energy",
                              {"mag": A, "dist_rup": A, "v_s30": A})],
    "PinillaRamosEtAl2024": [("duration duration_minus_sigma duration_plus_sigma duration_for_energy d575_median "
                              "d575_sigma d5x_median d5x_sigma", {"mag": A, "dist_rup": A, "v_s30": A})],
    "TavakoliPezeshk05": [("med", {"mag": A, "dist_rup": A}), ("std", {"mag": A})],
    "HermkesKuehnRiggelsen2014": [("med pgv std ln_std_pgv", {"mag": A, "dist_jb": A, "v_s30": A, "depth_hyp": A})],
}
GROUPS = {"med": ["spec_accels", "pga", "interp_spec_accels", "interp_ln_spec_accels"],
          "spec": ["spec_accels", "interp_spec_accels", "interp_ln_spec_accels"],
          "std": ["ln_stds", "ln_std_pga", "interp_ln_stds"]}


def units(w, tier):
    us = model_units(w, tier, True) + [("decl", c.name, 0, 0) for c in w.models]
    return us + [("cat", c.name, i, 0) for c in w.models for i, p in enumerate(w.params(c)) if p.kind == "cat"]


def need(c):
    out = {}
    for labs, ps in NEED.get(c.name, ()):
        for l in labs.split():
            for n in GROUPS.get(l, [l]):
                out.setdefault(n, {}).update(ps)
    return out


def pdeps(f):
    """params reaching every node / any node of a form."""
    per = [frozenset(d.data[0] for d in g.deps(n) if d.op == "param") for n in form_nodes(f)]
    unk = any(g.has_unk(n) for n in form_nodes(f))
    return per, unk


def run(w, unit, rep, tier):
    ip = w.ip
    c = w.cls(unit[1])
    if unit[0] == "decl":
        keys = set(ip.items(ip.getattr(w.Scenario, "KNOWN_KEYS")))
        for p in w.params(c):
            rep.require(p.name in keys, "known-key", "%s.%s" % (c.name, p.name),
                        "the declared input %s is not an input scenarios accept" % p.name, c.name, c.name)
        if c.name not in NEED:
            rep.undecided("influence", "%s has no table" % c.name)
        return
    if unit[0] == "cat":
        p = w.params(c)[unit[2]]
        con = "%s.%s" % (c.name, p.name)
        diff = None
        for vals in cases_of(w, c, tier):
            ex = working_extra(w, c, vals)
            ref = None
            for o in p.options:
                with Case(w, c, {**vals, p.name: o}, ex) as k:
                    r = {l: f for l, f in results(w, k, methods=False).items() if l not in ("scenario", "constructor")}
                if not r:
                    continue
                if ref is None:
                    ref = r
                elif any(form_same(ref[l], r.get(l)) is not True for l in ref):
                    diff = o
                    break
            if diff is not None:
                break
        rep.require(diff is not None, "option", con, "the declared category %s does not influence any result in any "
                    "setting" % p.name, c.name, "all settings")
        return
    with get_case(w, unit, tier) as k:
        if k.m is None:
            return
        tab = need(c)
        vals = k.values
        for lab, val, exc, kw in api.observe(w, k):
            if exc is not None:
                continue
            n = lab.split("(")[0]
            f = vnodes(ip, val)
            per, unk = pdeps(f)
            al = frozenset().union(*per) if per else frozenset()
            for p in vals:
                if p in al:
                    rep.facts.add(("used", c.name, p))
            con = "%s.%s" % (c.name, n)
            rep.inst(con)
            if n in tab and n != "scenario":
                for p, cond in tab[n].items():
                    if p not in vals or not isinstance(vals[p], Num) or not cond(vals):
                        continue
                    miss = sum(p not in s for s in per)
                    if not per or miss and unk:
                        rep.undecided("influence", con)
                    elif not miss:
                        rep.ok("influence")
                    else:
                        rep.fail("influence", "%s <- %s" % (con, p), "%s does not influence %s of the %d values of %s"
                                 % (p, "any" if miss == len(per) else miss, len(per), n), con, k.label())
        rep.sample(k.label())


def finish(w, rep, tier):
    used = {f[1:] for f in rep.facts if f[0] == "used"}
    for c in w.models:
        for p in w.params(c):
            con = "%s.%s" % (c.name, p.name)
            if p.kind == "num":
                rep.require((c.name, p.name) in used, "declared", con,
                            "the declared input %s does not influence any result in any setting" % p.name, c.name, "all settings")
