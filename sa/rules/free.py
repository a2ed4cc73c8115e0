"""Comparison of functions that take no scenario with sa/spec/free."""
from .form import *
from ..spec import free as fs


def atoms(name, n):
    return [g.atom("arg", "+%s[%d]" % (name, i)) for i in range(n)]


def increasing(name, n):
    """Positive, strictly increasing values."""
    out, acc = [], g.ZERO
    for x in atoms(name, n):
        acc = g.add(acc, x)
        out.append(acc)
    return out


def scalar(name):
    return g.atom("arg", "+" + name)


def maybe_ints(ip, nodes):
    """An array that the caller may have made of integers."""
    r = ip.arr(D((len(nodes),), list(nodes)))
    ip.meta[r.addr]["dt"] = frozenset(d for n in nodes for d in g.deps(n) if d.op == "arg")
    return r


class Given:
    """An argument for the analysed call and the same value for the specification."""

    def __init__(self, w, kind, nodes):
        self.w, self.kind, self.nodes = w, kind, nodes

    def value(self):
        ip = self.w.ip
        if self.kind == "scalar":
            return Num(self.nodes, py=True)
        if self.kind == "list":
            return ip.mklist([Num(n, py=True) for n in self.nodes])
        if self.kind == "array":
            return maybe_ints(ip, self.nodes)
        if self.kind == "masked":
            data, mask = self.nodes
            d = maybe_ints(ip, data)
            m = ip.arr(D((len(mask),), [g.const(bool(x)) for x in mask]))
            return ip.call(ip.mashim("MaskedArray"), [d, m], {})
        return self.nodes

    def spec(self):
        if self.kind == "scalar":
            return core.X(self.nodes)
        if self.kind in ("list", "array"):
            return [core.X(n) for n in self.nodes]
        if self.kind == "masked":
            return [core.X(n) for n in self.nodes[0]]
        return self.nodes


def distinct(x):
    """The value when frequencies that are not the same are not taken as close,
    with the numbers of the coefficient files filled in."""
    m = {n: g.const(g.known(n)) for n in g.deps(x) if n.op == "data" and isinstance(g.known(n), float)}
    x = g.subst(x, m) if m else x
    m = {n: g.FALSE for n in g.walk(x) if n.op == "isnone" and isinstance(n.data, tuple) and n.data[0] == "isclose"}
    return g.subst(x, m) if m else x


def check(w, rep, tier, rule, label, kw, msg):
    ip = w.ip
    f = [f for f in frees(w) if f.label == label]
    if not f:
        raise AnalysisError("%s is gone" % label)
    f = f[0]
    kw = dict(kw)
    want = kw.pop("#want", None)
    sa = {k: v.spec() for k, v in kw.items()}
    if any(v.kind == "masked" for v in kw.values()):
        sa["mask"] = [v for v in kw.values() if v.kind == "masked"][0].nodes[1]
    try:
        want = want or fs.FREE[label](sa)
    except core.SpecError as e:
        raise AnalysisError(str(e))
    m = ip.mark()
    path0 = list(ip.path)
    rep.inst(label)
    case = "%s(%s)" % (label, ", ".join("%s=%s" % (k, v.kind if v.kind != "raw" else repr(v.nodes)) for k, v in kw.items()))
    try:
        try:
            v = ip.call(f.callee, [], {k: x.value() for k, x in kw.items()})
        except AbsRaise as e:
            nm = exc_name(e.exc)
            rep.require(want == nm, rule, label, "refused (%s)" % nm, label, case)
            return
        if isinstance(want, str):
            rep.fail(rule, label, "not refused", label, case)
            return
        els = elements(ip, v)
        if els is None or len(els) != len(want):
            if els is None:
                rep.undecided(rule, label)
            else:
                rep.fail(rule, label, "%d values instead of %d" % (len(els), len(want)), label, case)
            return
        pr = probe_of(tier)
        for i, (x, s) in enumerate(zip(els, want)):
            r, wit = pr.equal(distinct(x), s.n)
            if r is None:
                rep.undecided(rule, label)
            elif r:
                rep.ok(rule)
            else:
                rep.fail(rule, label, "%s (value %d)%s" % (msg, i, ": at " + wit if wit else ""), label, case)
                break
        rep.sample(case)
    finally:
        ip.rollback(m)
        ip.path[:] = path0
