"""Dependence analysis plus symbolic comparison of histories: no result depends
on an ambient source (clock, random state, environment, object identity), and
each result has the same value graph when it is read again after every other
property and method has been called, when it is read first or last, and when
another instance of the model and of the other settings was evaluated before it.

Where an evaluation leaves something behind in shared state (a cache, a class
attribute, a module variable), three more obligations hold: the value stored
under a key is determined by the key; the results are the same after an
evaluation that differs in one input only, for every input, and after one of
every other model; and a variable that keeps changing has no influence."""
from .common import *

LEVEL = "other"
FLOOR = {"ambient": 3000, "repeat": 2500, "history": 100}


def units(w, tier):
    us = model_units(w, tier, True) + free_units(w)
    for c in w.models:
        n = len(cases_of(w, c, tier))
        us += [("hist", c.name, i, 0) for i in range(n)]
    return us


def ambient(v, ip):
    f = vnodes(ip, v)
    return sorted({str(d.data) for x in form_nodes(f) for d in g.deps(x) if d.op == "ambient"})


def cmp(rep, rule, construct, a, b, msg, what):
    r = form_same(a, b)
    if r is None:
        rep.undecided(rule, construct)
    else:
        rep.require(r, rule, construct, msg, construct, what)


def look(w, k):
    out = []
    for lab, val, exc, kw in api.observe(w, k):
        out.append((lab, vnodes(w.ip, val) if exc is None else exc_form(exc), val, exc))
    return out


def read(ip, val, exc):
    return vnodes(ip, val) if exc is None else exc_form(exc)


def stateful(w, effs):
    """The effects on state that outlives the evaluation."""
    return [e for e in effs if e.kind in ("mutate-shared", "write-class", "write-global")]


def keyed(w, effs, rep, what):
    """A stored value must be determined by the key it is stored under."""
    ip = w.ip
    for e in effs:
        if e.kv is None:
            continue
        key, val = (vnodes(ip, x) for x in e.kv)
        if any(d.op == "ambient" for x in form_nodes(key) for d in g.deps(x)):
            rep.fail("key", owner_of(e), "an entry of a cache is found by an ambient key", where(e), what)
            continue
        left = undetermined(list(form_nodes(key)), list(form_nodes(val)))
        rep.require(not left, "key", owner_of(e), "a value stored for later evaluations depends on %s, which its key "
                    "does not determine" % ", ".join(left), where(e), what)


def undetermined(keys, vals):
    known = set()
    for k in keys:
        known.add(k)
        # injective functions of one variable determine it
        while len(k.kids()) == 1 and (k.op in ("lin", "mul", "exp", "log", "index") or k.op.startswith("el:") and k.op[3:] in (
                "log", "exp", "log10", "log1p", "expm1", "sqrt")):
            k = k.kids()[0]
            known.add(k)
    out, seen, todo = set(), set(), list(vals)
    while todo:
        x = todo.pop()
        if x in known or x in seen:
            continue
        seen.add(x)
        if x.op in ("param", "arg"):
            out.add(str(x.data))
        todo += list(x.kids())
    return sorted(out)


def neighbours(w, c, values):
    """Scenarios that differ from this one in one input."""
    for n, ch in w.factors(c):
        v = values.get(n, MISSING)
        if isinstance(v, Num):
            yield n, dict(values, **{n: w.ip.binop("Add", v, w.pnum("other_" + n))})
        for o in ch:
            if o is v or (not isinstance(o, Num) and not isinstance(v, Num) and o == v):
                continue
            if isinstance(o, Num) and isinstance(v, Num):
                continue
            d = dict(values)
            if o is MISSING:
                d.pop(n, None)
            else:
                d[n] = o
            yield n, d


def neighbour_args(w, kw):
    """Calls that differ from this one in one argument."""
    for n, v in kw.items():
        if isinstance(v, Num):
            yield n, dict(kw, **{n: w.ip.binop("Add", v, Num(g.atom("arg", "other_" + n)))})
        elif isinstance(v, Arr):
            c = w.ip.content(v)
            if c.shape and len(c.shape) == 1 and isinstance(c.shape[0], int):
                yield n, dict(kw, **{n: w.array("other_" + n, c.shape[0])})


def evaluate(w, c, values, extra=()):
    """Evaluate everything; the effects on shared state stay."""
    ip = w.ip
    try:
        m = ip.call(c, [w.scenario(values)], {n: b() for n, b in extra})
    except AbsRaise:
        return
    for n, kind, v in api.public_members(w, c):
        if kind == "prop" and n != "scenario":
            try:
                ip.getattr(m, n)
            except AbsRaise:
                pass


def props(w, k):
    for n, kind, v in api.public_members(w, k.cls):
        if kind == "prop" and n != "scenario" and k.m is not None:
            val, exc = k.get(n)
            yield n, read(w.ip, val, exc), val, exc


def run(w, unit, rep, tier):
    {"model": run_model, "hist": run_hist, "free": run_free}[unit[0]](w, unit, rep, tier)


def run_model(w, unit, rep, tier):
    ip = w.ip
    with get_case(w, unit, tier) as k:
        if k.m is None:
            return
        first = {}
        for lab, f, val, exc in look(w, k):
            c = "%s.%s" % (k.cls.name, lab.split("(")[0])
            rep.inst(c)
            first[lab] = f
            if exc is None:
                am = ambient(val, ip)
                rep.require(not am, "ambient", c, "the result depends on %s" % ", ".join(am), c, k.label() + "." + lab)
        for lab, f, val, exc in look(w, k):
            c = "%s.%s" % (k.cls.name, lab.split("(")[0])
            cmp(rep, "repeat", c, first.get(lab), f, "reading %s again after the other results gives a different value"
                % lab, k.label())
        rep.sample("%s: %d results read twice" % (k.label(), len(first)))
    # each result read alone, before any other
    with get_case(w, unit, tier) as k:
        m0 = ip.mark()
        for (lab, val, exc, kw), f in zip(observe_alone(w, k, m0), first.values()):
            c = "%s.%s" % (k.cls.name, lab.split("(")[0])
            cmp(rep, "alone", c, first.get(lab), read(ip, val, exc),
                "%s read before any other result differs from %s read after others" % (lab, lab), k.label())


def observe_alone(w, k, mark):
    for r in api.observe(w, k):
        yield r
        w.ip.rollback(mark)


def run_hist(w, unit, rep, tier):
    ip = w.ip
    c = w.cls(unit[1])
    cs = cases_of(w, c, tier)
    i = unit[2]
    prev = {n: (ip.binop("Add", v, w.pnum("other_" + n)) if isinstance(v, Num) else v)
            for n, v in cs[(i * 7 + 3) % len(cs)].items()}
    # each result read first on a fresh instance
    ref = {}
    with Case(w, c, cs[i]) as k:
        if k.m is None:
            return
        m0 = ip.mark()
        for n, kind, v in reversed(api.public_members(w, c)):
            if kind == "prop" and n != "scenario":
                ref[n] = read(ip, *k.get(n))
                ip.rollback(m0)

    def after(rule, before, during, msg):
        mk = ip.mark()
        try:
            before()
            with Case(w, c, cs[i]) as k:
                if during:
                    during()
                if k.m is None:
                    rep.fail(rule, c.name, "the model cannot be constructed after another evaluation", c.name, k.label())
                for n, f, val, exc in props(w, k):
                    cmp(rep, rule, "%s.%s" % (c.name, n), ref.get(n), f, msg % n, k.label())
        finally:
            ip.rollback(mk)

    # another scenario first, and again once the model is built
    other = lambda: evaluate(w, c, prev)
    after("history", other, other, "%s depends on which scenarios and results were evaluated before")
    # what does this evaluation leave behind?
    mk = ip.mark()
    try:
        e0 = len(ip.effects)
        evaluate(w, c, cs[i])
        ef1 = stateful(w, ip.effects[e0:])
        if not ef1:
            rep.ok("traceless")
            return
        with Case(w, c, cs[i]) as k:
            lab = k.label()
        keyed(w, ef1, rep, lab)
    finally:
        ip.rollback(mk)
    for n, d in neighbours(w, c, cs[i]):
        after("neighbour", lambda: evaluate(w, c, d), None,
              "%%s is different after a scenario that differs only in %s was evaluated" % n)
    if i < 3:
        for c2 in w.models:
            if c2 is not c:
                cs2 = cases_of(w, c2, tier)
                after("other-model", lambda: evaluate(w, c2, cs2[i % len(cs2)], working_extra(w, c2, cs2[i % len(cs2)])),
                      None, "%%s is different after %s was evaluated" % c2.name)
    def again():
        with Case(w, c, cs[i]) as k:
            return [(n, f) for n, f, val, exc in props(w, k)]
    counters(w, ip, ef1, again, ref, rep, c.name, lab)


def counters(w, ip, effs, again, ref, rep, construct, what):
    """State that keeps growing with every evaluation has no influence: a
    variable that is set to something else each time is replaced by an unknown,
    a container that is added to is filled up."""
    def compare(e, msg):
        for n, f in again():
            con = construct + ("." + n if n else "")
            am = sorted({str(d.data) for x in form_nodes(f) for d in g.deps(x) if d.op == "ambient"})
            if am:
                rep.fail("counter", con, "the result depends on %s" % ", ".join(am), where(e), what)
            else:
                cmp(rep, "counter", con, ref.get(n), f, msg, what)

    mk = ip.mark()
    cells = {e.cell: e for e in effs if e.cell is not None}
    boxes = {e.addr: e for e in effs if e.addr is not None and e.kind == "mutate-shared" and (e.addr, "i") in ip.store}
    for cell, e in cells.items():
        try:
            v = ip.get(cell)
            if isinstance(v, (int, float)) and not isinstance(v, bool) or isinstance(v, Num):
                old = vnodes(ip, e.x)
                ip.set(cell, e.x)
                vals = [vnodes(ip, x.x) for x in effects_of(ip, again) if x.cell == cell]
                if vals and not form_same(old, vals[-1]):
                    ip.set(cell, Num(g.mk("ambient", (), ("the history kept in " + e.what.split()[-1],))))
                    compare(e, "the result depends on the history kept in " + e.what.split()[-1])
        finally:
            ip.rollback(mk)
    for addr, e in boxes.items():
        try:
            its = ip.get((addr, "i"), ())
            isdict = e.kv is not None
            ip.set((addr, "i"), its + tuple(("earlier evaluation %d" % j, None) if isdict else 1.0 for j in range(600)))
            compare(e, "the result depends on how many entries were stored before")
        finally:
            ip.rollback(mk)


def effects_of(ip, f):
    e0 = len(ip.effects)
    f()
    return ip.effects[e0:]


def run_free(w, unit, rep, tier):
    ip = w.ip
    f = next(x for x in frees(w) if x.label == unit[1])
    vs = list(f.variants())
    assign = vs[unit[3]]
    mk = ip.mark()
    e0 = len(ip.effects)
    kw, v, exc = f.run(assign)
    a = read(ip, v, exc)
    lab = "%s(%s)" % (f.label, api.describe(kw))
    rep.inst(f.label)
    if exc is None:
        am = ambient(v, ip)
        rep.require(not am, "ambient", f.label, "the result depends on %s" % ", ".join(am), f.label, lab)
    left = stateful(w, ip.effects[e0:])
    kw, v, exc = f.run(assign)
    cmp(rep, "repeat", f.label, a, read(ip, v, exc), "calling it again gives a different value", lab)
    ip.rollback(mk)
    if not left:
        rep.ok("traceless")
        return
    keyed(w, left, rep, lab)
    counters(w, w.ip, left, lambda: [("", read(ip, *f.run(assign)[1:]))], {"": a}, rep, f.label, lab)
    kw = api.build(assign)
    prior = [("other settings", api.build(x)) for j, x in enumerate(vs) if j != unit[3]]
    for n, d in prior + list(neighbour_args(w, kw)):
        mk = ip.mark()
        try:
            try:
                ip.call(f.callee, [], dict(d))
            except AbsRaise:
                pass
            cmp(rep, "neighbour", f.label, a, read(ip, *f.run(assign)[1:]),
                "the result is different after a call that differs in %s" % n, lab)
        finally:
            ip.rollback(mk)
