"""Use analysis of the coefficient tables: the value graphs of all results of
all covering settings are searched for every column of every table the package
ships; a column that no result of any model can depend on has lost its effect
(a dropped, shadowed or misnamed coefficient), except those that the models
document as not applied. The tables are parsed as the loader does; the value of
every element of every result must depend on finite cells only (a blank or
malformed cell that reaches a result is a violation)."""
from .common import *

LEVEL = "other"
FLOOR = {"used": 120, "finite": 2000, "read": 10}

#: columns that the models knowingly leave out: components of a total that is
#: used, documentation of a constant, and periods of companion tables
UNUSED = {
    "abrahamson_gregor_addo_2016.csv": {"sigma"},
    "coppersmith_bommer_2014.csv": {"sigma"},
    "akkar-sandikkaya-bommer-2014-dist_jb.csv": {"v_ref", "sd_within", "sd_between"},
    "akkar-sandikkaya-bommer-2014-dist_hyp.csv": {"v_ref", "sd_within", "sd_between", "period"},
    "akkar-sandikkaya-bommer-2014-dist_epi.csv": {"v_ref", "sd_within", "sd_between", "period"},
    "atkinson_boore_2006-rock.csv": None,
    "campbell_bozorgnia_2014.csv": {"phi_c", "sigma_s", "sigma_arbs", "sigma_l", "sigma_arbl"},
    "idriss_2014-large.csv": {"period"},
}


def units(w, tier):
    return model_units(w, tier) + free_units(w)


def collect(rep, forms):
    seen = set()
    for f in forms:
        for n in form_nodes(f):
            if n in seen:
                continue
            seen.add(n)
            for d in g.deps(n):
                if d.op in ("cell", "col"):
                    rep.facts.add(("col", d.data[0], d.data[1]))


def blank(n):
    for d in g.deps(n):
        if d.op == "cell":
            v = g.known(d)
            if v is None or v != v or v in (float("inf"), float("-inf")):
                return d.data
    return None


def run(w, unit, rep, tier):
    ip = w.ip
    if unit[0] == "free":
        f = frees(w)[unit[2]]
        assign = list(f.variants())[unit[3]]
        m = ip.mark()
        kw, val, exc = f.run(assign)
        if exc is None:
            collect(rep, [vnodes(ip, val)])
        ip.rollback(m)
        rep.inst(f.label)
        return
    c = w.cls(unit[1])
    vals = cases_of(w, c, tier)[unit[2]]
    with Case(w, c, vals, working_extra(w, c, vals)) as k:
        if k.m is None:
            return
        rep.inst(c.name)
        collect(rep, results(w, k).values())
        if unit[2] < 4:
            for n, kind, _ in api.public_members(w, c):
                v, e = k.get(n) if kind == "prop" and n != "scenario" else (None, True)
                els = elements(ip, v) if e is None else None
                for i, x in enumerate(els or ()):
                    bad = blank(x)
                    rep.require(bad is None, "finite", "%s.%s%s" % (c.name, n, " <- %s.%s" % bad[:2] if bad else ""),
                                "element %d depends on the blank or malformed cell %s" % (i, bad), c.name, k.label())
        rep.sample(k.label())


def finish(w, rep, tier):
    used = {f[1:] for f in rep.facts if f[0] == "col"}
    for t, info in sorted(w.ip.tables.items()):
        skip = UNUSED.get(t, set())
        if skip is None:
            continue
        any_ = any((t, c) in used for c in info["columns"])
        rep.require(any_, "read", t, "no result depends on the table", info["path"], t)
        for c in info["columns"]:
            if c not in skip and any_:
                rep.require((t, c) in used, "used", "%s.%s" % (t, c),
                            "the coefficient %s influences no result in any setting" % c, info["path"], t)
