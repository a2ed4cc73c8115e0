"""Value-flow analysis of the scenario container: every documented key is read
back as the value that was given (by key, attribute and get), unknown keys are
refused, missing ones are AttributeError/KeyError, and copies are independent
of the original. Every model is evaluated on the scenario, on copies of it, on
the same inputs in another order, with further inputs that the model does not
declare, and while the caller changes the scenario afterwards; the value graphs
of all results have to be the same."""
from .common import *

LEVEL = "other"
FLOOR = {"keys": 800, "refused": 20, "copies": 300, "same-results": 4000}
KEYS = ("depth_1_0 depth_2_5 depth_tor depth_bor depth_bot depth_hyp dip dist_crjb dist_jb dist_epi dist_hyp dist_rup dist_x "
        "dist_y0 dpp_centered event_type is_aftershock mag mechanism on_hanging_wall pga_ref region site_cond tectonic_region "
        "v_s30 vs_source width").split()
UNKNOWN = ["magnitude", "Mag", "", "data", "keys", "dist", "vs30", "v_s30 ", "copy", "KNOWN_KEYS"]
WAYS = ["copy", "copy_with", "order", "partial", "undeclared", "changed later", "keywords"]


def units(w, tier):
    us = [("keys", i) for i in range(len(KEYS))] + [("unknown", 0), ("container", 0)]
    for u in model_units(w, tier):
        us.append(("way",) + u[1:3])
    return us


class At:
    """Calls into the analysed program, (value, exception name)."""

    def __init__(self, ip):
        self.ip = ip

    def _do(self, f):
        try:
            return f(), None
        except AbsRaise as e:
            return None, exc_name(e.exc)

    def make(self, cls, **kw):
        return self._do(lambda: self.ip.call(cls, [], kw))

    def item(self, s, k):
        return self._do(lambda: self.ip.getitem(s, k))

    def attr(self, s, k):
        return self._do(lambda: self.ip.getattr(s, k))

    def meth(self, s, n, *a, **kw):
        return self._do(lambda: self.ip.call(self.ip.getattr(s, n), list(a), kw))

    def put(self, s, k, v):
        return self._do(lambda: self.ip.setitem(s, k, v))

    def has(self, s, k):
        return self._do(lambda: self.ip.contains(s, k))


def eq(ip, a, b):
    return form_same(vnodes(ip, a), vnodes(ip, b))


def content(ip, at, s):
    """{key: form} of a scenario, by iteration over it."""
    d, e = at.meth(s, "items")
    if e is not None:
        return None
    out = {}
    for it in ip.items(d):
        k, v = ip.items(it)
        out[k] = vnodes(ip, v)
    return out


def run(w, unit, rep, tier):
    {"keys": keys, "unknown": unknown, "container": container, "way": way}[unit[0]](w, unit, rep, tier)


def keys(w, unit, rep, tier):
    ip, S = w.ip, w.Scenario
    at = At(ip)
    key = KEYS[unit[1]]
    other = KEYS[(unit[1] + 1) % len(KEYS)]
    third = KEYS[(unit[1] + 2) % len(KEYS)]
    con = "Scenario"
    rep.inst("Scenario." + key)
    x, y = w.pnum("given"), w.pnum("second")
    mark = ip.mark()
    for val in (x, 0, 0.0, False, True, None, "", "SS"):
        lab = "Scenario(%s=%s)" % (key, val if not isinstance(val, Num) else "*")
        ip.rollback(mark)
        s, e = at.make(S, **{key: val})
        if e is not None:
            rep.fail("keys", con, "%s raises %s" % (lab, e), con, lab)
            continue
        for what, (v, e) in (("[%r]" % key, at.item(s, key)), ("." + key, at.attr(s, key)),
                             (".get(%r)" % key, at.meth(s, "get", key)), (".get(%r, 5)" % key, at.meth(s, "get", key, 5))):
            if e is not None:
                rep.fail("keys", con, "%s%s raises %s" % (lab, what, e), con, lab)
            else:
                r = type(v) is type(val) and eq(ip, v, val) or eq(ip, v, val) and not isinstance(val, bool)
                rep.require(r, "keys", con, "%s%s is not the value that was given" % (lab, what), con, lab)
        v, e = at.has(s, key)
        rep.require(e is None and v is True, "keys", con, "%s does not contain the key" % lab, con, lab)
        c = content(ip, at, s)
        rep.require(c == {key: vnodes(ip, val)}, "keys", con, "%s holds %s" % (lab, sorted(c or ())), con, lab)
        # what is not given
        for what, (v, e), want in (("[%r]" % other, at.item(s, other), "KeyError"), ("." + other, at.attr(s, other), "AttributeError")):
            rep.require(e == want, "keys", con, "%s%s gives %s instead of %s" % (lab, what, e or "a value", want), con, lab)
        for n in (key.upper(), key.capitalize(), key.replace("_", ""), " " + key):
            if n not in KEYS:
                for what, (v, e), want in (("[%r]" % n, at.item(s, n), "KeyError"), (".%s" % n, at.attr(s, n), "AttributeError")):
                    rep.require(e == want, "keys", con, "%s%s gives %s instead of %s" % (lab, what, e or "a value", want), con, lab)
        v, e = at.meth(s, "get", other)
        rep.require(e is None and v is None, "keys", con, "%s.get(%r) is not None" % (lab, other), con, lab)
        v, e = at.meth(s, "get", other, y)
        rep.require(e is None and eq(ip, v, y), "keys", con, "%s.get(%r, default) is not the default" % (lab, other), con, lab)
        v, e = at.has(s, other)
        rep.require(e is None and v is False, "keys", con, "%s contains %s" % (lab, other), con, lab)
        t, e = at.meth(s, "__repr__")
        rep.require(e is None, "keys", con, "repr(%s) raises %s" % (lab, e), con, lab)
    # copies
    for how, upd, exp in (("copy", {}, {}), ("copy_with", {}, {}), ("copy_with", {other: y}, {other: y}),
                          ("copy_with", {key: y}, {key: y}), ("copy_with", {key: None, other: 0}, {key: None, other: 0}),
                          ("copy_with", {key: y, other: x}, {key: y, other: x})):
        ip.rollback(mark)
        s, e = at.make(S, **{key: x, third: False})
        if e is not None:
            continue
        lab = "Scenario(%s=*).%s(%s)" % (key, how, ", ".join("%s=%s" % (k, "*" if isinstance(v, Num) else v) for k, v in upd.items()))
        o, e = at.meth(s, how, **upd)
        if e is not None:
            rep.fail("copies", con, "%s raises %s" % (lab, e), con, lab)
            continue
        rep.require(isinstance(o, Inst) and o.cls is S, "copies", con, "%s is not a scenario" % lab, con, lab)
        if not isinstance(o, Inst):
            continue
        base = {key: vnodes(ip, x), third: vnodes(ip, False)}
        want = dict(base, **{k: vnodes(ip, v) for k, v in exp.items()})
        rep.require(content(ip, at, o) == want, "copies", con, "%s holds %s" % (lab, sorted(content(ip, at, o) or ())), con, lab)
        for k, v in exp.items():
            a, e = at.attr(o, k)
            rep.require(e is None and eq(ip, a, v), "copies", con, "%s.%s is not the value given" % (lab, k), con, lab)
        rep.require(content(ip, at, s) == base, "copies", con, "%s changes the original" % lab, con, lab)
        at.put(o, key, w.pnum("later"))
        at.put(o, third, 7)
        rep.require(content(ip, at, s) == base, "copies", con, "changing the result of %s changes the original" % lab, con, lab)
        o2, e = at.meth(s, how, **upd)
        at.put(s, key, w.pnum("later"))
        at.put(s, third, 8)
        rep.require(e is None and content(ip, at, o2) == want, "copies", con, "changing the original changes the result of %s" % lab, con, lab)
    ip.rollback(mark)


def unknown(w, unit, rep, tier):
    ip, S = w.ip, w.Scenario
    at = At(ip)
    con = "Scenario"
    rep.inst(con)
    mark = ip.mark()
    for bad in UNKNOWN:
        for first in (True, False):
            ip.rollback(mark)
            kw = {bad: 1, "mag": 6} if first else {"mag": 6, bad: 1}
            s, e = at.make(S, **kw)
            rep.require(e is not None, "refused", con, "the unknown key %r is accepted" % bad, con, bad)
            s, e = at.make(S, mag=6)
            if e is not None:
                rep.fail("keys", con, "Scenario(mag=6) raises %s" % e, con, bad)
                continue
            o, e = at.meth(s, "copy_with", **kw)
            rep.require(e is not None, "refused", con, "copy_with accepts the unknown key %r" % bad, con, bad)
            rep.require(content(ip, at, s) == {"mag": vnodes(ip, 6)}, "refused", con,
                        "a refused copy_with changes the scenario", con, bad)
    ip.rollback(mark)
    # an instance that is being copied or unpickled has no data yet
    o = Inst(ip.new(), S)
    ip.set((o.addr, "names"), ())
    for n in ("__setstate__", "mag", "data", "__deepcopy__"):
        v, e = at.attr(o, n)
        rep.require(e == "AttributeError", "copies", con, "%s of a scenario that is being copied or unpickled gives %s" % (
            n, e or "a value"), con, n)
    ip.rollback(mark)


def container(w, unit, rep, tier):
    """All keys at once, none at all, and the coefficients by name."""
    ip, S = w.ip, w.Scenario
    at = At(ip)
    mark = ip.mark()
    vals = {k: w.pnum("in_" + k) for k in KEYS}
    for lab, kw in (("no keys", {}), ("all keys", vals), ("all keys", dict(reversed(list(vals.items()))))):
        ip.rollback(mark)
        s, e = at.make(S, **kw)
        if e is not None:
            rep.fail("keys", "Scenario", "a scenario with %s raises %s" % (lab, e), "Scenario", lab)
            continue
        rep.require(content(ip, at, s) == {k: vnodes(ip, v) for k, v in kw.items()}, "keys", "Scenario",
                    "a scenario with %s does not hold them" % lab, "Scenario", lab)
        for k, v in kw.items():
            a, e = at.attr(s, k)
            rep.require(e is None and eq(ip, a, v), "keys", "Scenario", "%s is not the value given" % k, "Scenario", lab)
        t, e = at.meth(s, "__repr__")
        rep.require(e is None, "keys", "Scenario", "repr raises %s" % e, "Scenario", lab)
    ip.rollback(mark)


def way(w, unit, rep, tier):
    ip = w.ip
    at = At(ip)
    c = w.cls(unit[1])
    vals = cases_of(w, c, tier)[unit[2]]
    extra = working_extra(w, c, vals)
    with Case(w, c, vals, extra) as k:
        if k.m is None:
            if not refusal(k):
                rep.fail("same-results", c.name, "construction raises %s" % exc_name(k.exc), c.name, k.label())
            return
        ref = results(w, k, methods=False)
        lab = k.label()
    rep.inst(c.name)
    init = ip.find_class_attr(c, "__init__")
    names = list(vals)
    for how in WAYS:
        mark, path0 = ip.mark(), list(ip.path)
        try:
            k2 = Case(w, c, vals, extra)
            k2.e0 = len(ip.effects)
            kw = {n: b() for n, b in extra}
            args = []
            if how == "keywords":
                if not (isinstance(init, FuncV) and init.node.args.kwarg is not None) or kw:
                    continue
                kw = dict(vals)
            elif how == "order":
                args = [w.scenario(dict(reversed(list(vals.items()))))]
            elif how == "partial":
                h = len(names) // 2
                args = [at.meth(w.scenario({n: vals[n] for n in names[:h]}), "copy_with", **{n: vals[n] for n in names[h:]})[0]]
            elif how == "undeclared":
                decl = {p.name for p in w.params(c)}
                more = {n: (w.pnum("more_" + n) if n not in CATEGORIES else CATEGORIES[n]) for n in KEYS if n not in decl}
                args = [w.scenario(dict(vals, **more))]
            elif how == "changed later":
                args = [w.scenario(vals)]
            else:
                args = [at.meth(w.scenario(vals), how)[0]]
            try:
                k2.m = ip.call(c, args, kw)
                if how == "changed later":
                    for n in KEYS:
                        at.put(args[0], n, w.pnum("later_" + n) if n not in CATEGORIES else CATEGORIES[n])
            except AbsRaise as e:
                k2.m, k2.exc = None, e.exc
            got = results(w, k2, methods=False)
            msg = MSG[how]
            compare_results(rep, "same-results", ref, got, c.name, msg, lab, skip=("scenario",))
        finally:
            ip.rollback(mark)
            ip.path[:] = path0


CATEGORIES = {"event_type": "interface", "mechanism": "SS", "region": "japan", "site_cond": "soft", "tectonic_region": "backarc",
              "vs_source": "measured", "is_aftershock": True, "on_hanging_wall": True}
MSG = {"copy": "the result for a copy of the scenario differs", "copy_with": "the result for scenario.copy_with() differs",
       "order": "the result depends on the order in which the inputs are given",
       "partial": "the result for a scenario completed with copy_with differs",
       "undeclared": "the result depends on an input that the model does not declare",
       "changed later": "changing the caller's scenario later changes the result",
       "keywords": "the result differs when the inputs are given as keywords"}
