"""Row-dependence analysis: every ordinate of every period- or frequency-
dependent result is traced through the value graph to the rows of the
coefficient tables it is computed from. The row must be the one of the
ordinate's own period (found by the period recorded in the table), plus only
the reference rows the publication uses for the nonlinear site term; companion
tables that are interpolated may contribute the two neighbouring rows. The
ordinates cover every tabulated period once, in increasing order, and the
medians, standard deviations and periods have equal lengths."""
from .common import *

LEVEL = "other"
FLOOR = {"own-row": 8000, "length": 200, "periods": 20}

#: periods of the reference motion that any ordinate may use, by table
REF = {
    "abrahamson_gregor_addo_2016.csv": [0.0],
    "coppersmith_bommer_2014.csv": [0.01],
    "akkar-sandikkaya-bommer-2014-dist_jb.csv": [0.0],
    "akkar-sandikkaya-bommer-2014-dist_hyp.csv": [0.0],
    "akkar-sandikkaya-bommer-2014-dist_epi.csv": [0.0],
    "boore_stewart_seyhan_atkinson-2014.csv": [0.0],
    "campbell_bozorgnia_2014.csv": [0.0],
    # the site amplification scales with the PGA on the B/C boundary
    "atkinson_boore_2006-bc.csv": [0.0],
    "atkinson_boore_2006-rock.csv": [0.0],
    "atkinson_boore_2006-sf.csv": [-1.0, 0.0101],
    "atkinson_boore_2006-site.csv": [],
}
INTERPOLATED = {"atkinson_boore_2006-sf.csv", "atkinson_boore_2006-site.csv"}
#: recorded period of the peak values
PEAK = {"pga": 0.0, "pgv": -1.0, "pgd": -2.0}
#: models whose peak acceleration is the shortest period
PGA_AT = {"CoppersmithBommer2014": 0.01, "Idriss2014": 0.01, "HermkesKuehnRiggelsen2014": 0.01}
MED = ["spec_accels"]
STD = ["ln_stds"]


def published(name):
    """Positive periods of the spectrum in the reference transcription."""
    from ..spec import core, nga, stable
    from .c38 import REF as C38
    sp = core.MODELS.get(name)
    if sp is None:
        return []
    if sp["table"] is not None:
        ps = C38["tables"][sp["table"] + ".csv"]["period"]
    elif name == "DerrasBardCotton2014":
        ps = C38["json"][stable.DBC]["period"]
    else:
        ps = sp["periods"]()
    return [p for p in ps if p > 0]


def units(w, tier):
    return [u for u in model_units(w, tier)]


def col_of(t):
    tab = g.TABLES[t]
    return tab.get("period") or tab.get("freq_hz")




def num_of(n):
    if n.op in ("const", "cell"):
        v = g.known(n)
        return float(v) if isinstance(v, (int, float)) else None
    lo_hi = g.iv(n)
    return lo_hi[0] if lo_hi[0] == lo_hi[1] else None


def rows_of(n):
    out = {}
    for d in g.deps(n):
        if d.op == "cell" and col_of(d.data[0]):
            out.setdefault(d.data[0], set()).add(d.data[2])
    return out


def near(a, b):
    return abs(a - b) <= 1e-9 + 1e-6 * abs(b)


def allowed(t, per):
    """(own rows, rows that may contribute)."""
    ps = col_of(t)
    own = [i for i, p in enumerate(ps) if near(p, per)]
    ok = set(own)
    if t in INTERPOLATED:
        below = [i for i, p in enumerate(ps) if p <= per]
        above = [i for i, p in enumerate(ps) if p >= per]
        if below:
            ok.add(max(below, key=lambda i: ps[i]))
        if above:
            ok.add(min(above, key=lambda i: ps[i]))
    for r in REF.get(t, ()):
        ok |= {i for i, p in enumerate(ps) if near(p, r)}
    return own, ok


def check(rep, con, i, n, per, lab):
    if g.has_unk(n):
        rep.undecided("own-row", con)
        return
    rows = rows_of(n)
    if any(d.op == "col" and col_of(d.data[0]) for d in g.deps(n)):
        rep.undecided("own-row", con + " (whole columns)")
        return
    for t, rs in rows.items():
        own, ok = allowed(t, per)
        bad = sorted(rs - ok)
        if bad:
            rep.fail("own-row", con, "the value at period %g uses the coefficients of period %s (%s row %s)" % (
                per, ", ".join("%g" % col_of(t)[r] for r in bad[:3]), t, bad[:3]), con, lab)
        elif own and t not in INTERPOLATED and not rs & set(own):
            rep.fail("own-row", con, "the value at period %g does not use its own coefficients in %s" % (per, t), con, lab)
        else:
            rep.ok("own-row")


def run(w, unit, rep, tier):
    ip = w.ip
    with get_case(w, unit, tier) as k:
        if k.m is None:
            return
        lab = k.label()
        c = k.cls
        if c.name == "BaylessAbrahamson2019":
            return fas(w, k, rep, lab)
        pv, e = k.get("periods")
        if c.name == "GulerceAbrahamson2011":
            pv = ip.find_class_attr(c, "PERIODS")
            pers = [num_of(x) for x in elements(ip, pv) or ()]
        else:
            if e is not None:
                return
            pers = [num_of(x) for x in elements(ip, pv) or ()]
        if not pers or any(p is None for p in pers):
            rep.undecided("periods", c.name)
            return
        rep.inst(c.name)
        if c.name != "GulerceAbrahamson2011":
            rep.require(all(a < b for a, b in zip(pers, pers[1:])), "periods", c.name,
                        "the periods of the spectrum are not in increasing order", c.name, lab)
            want = published(c.name)
            for q in pers if want else ():
                rep.require(any(near(q, p) for p in want), "periods", c.name,
                            "%g is not one of the published periods" % q, c.name, lab)
            for p in want:
                rep.require(any(near(q, p) for q in pers), "periods", c.name,
                            "the spectrum leaves out the published period %g" % p, c.name, lab)
            tabs = set()
            sv, e = k.get("spec_accels")
            for n in (elements(ip, sv) or ()) if e is None else ():
                tabs |= set(rows_of(n))
            for t in tabs - INTERPOLATED:
                want = [p for p in col_of(t) if p > 0]
                miss = [p for p in want if not any(near(p, q) for q in pers)]
                rep.require(not miss, "periods", "%s (%s)" % (c.name, t), "the spectrum leaves out the tabulated periods %s"
                            % miss[:4], c.name, lab)
        for n in ("spec_accels", "ln_stds", "ratio", "ln_std"):
            v, e = k.get(n)
            if e is not None:
                continue
            els = elements(ip, v)
            con = "%s.%s" % (c.name, n)
            if els is None:
                rep.undecided("length", con)
                continue
            rep.require(len(els) == len(pers), "length", con, "%d values for %d periods" % (len(els), len(pers)), con, lab)
            for i, (x, p) in enumerate(zip(els, pers)):
                check(rep, con, i, x, p, lab)
        for q, per in PEAK.items():
            if q == "pga" and c.name in PGA_AT:
                per = PGA_AT[c.name]
            for n in (q, "ln_std_" + q):
                v, e = k.get(n)
                if e is not None:
                    continue
                els = elements(ip, v)
                if els is None or len(els) != 1:
                    rep.undecided("own-row", "%s.%s" % (c.name, n))
                    continue
                check(rep, "%s.%s" % (c.name, n), 0, els[0], per, lab)
        rep.sample(lab)


def fas(w, k, rep, lab):
    """Fourier amplitudes: frequencies instead of periods."""
    ip = w.ip
    c = k.cls
    fr = [num_of(x) for x in elements(ip, k.get("freqs")[0])]
    t = "bayless_abrahamson_2019.csv"
    ps = col_of(t)
    rep.require(all(a < b for a, b in zip(fr, fr[1:])), "periods", c.name, "the frequencies are not increasing", c.name, lab)
    ref = [i for i, p in enumerate(ps) if near(p, 5.011872)]
    last = max(i for i, x in enumerate(g.TABLES[t]["c1"]) if x == x)
    for n in ("eas", "ln_eas", "ln_std"):
        els = elements(ip, k.get(n)[0])
        con = "%s.%s" % (c.name, n)
        if els is None:
            rep.undecided("length", con)
            continue
        rep.require(len(els) == len(fr), "length", con, "%d values for %d frequencies" % (len(els), len(fr)), con, lab)
        for i, x in enumerate(els):
            # the nonlinear term is smoothed over neighbours and replaced by its minimum
            rows = {d.data[2] for d in g.deps(x) if d.op == "cell" and d.data[0] == t
                    and (n == "ln_std" or d.data[1] not in ("f3", "f4", "f5"))}
            own = min(i, last) if n != "ln_std" else i
            ok = {own, i} | (set(ref) if n != "ln_std" else set())
            if n != "ln_std" and i > last:
                ok |= {last}
            bad = rows - ok
            if bad:
                rep.fail("own-row", con, "the value at %g Hz uses the coefficients of %s" % (
                    fr[i], ["%g Hz" % ps[r] for r in sorted(bad)[:3]]), con, lab)
            elif own not in rows:
                rep.fail("own-row", con, "the value at %g Hz does not use its own coefficients" % fr[i], con, lab)
            else:
                rep.ok("own-row")
