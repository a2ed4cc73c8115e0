"""Shared pieces of the rules."""
from .. import api
from .. import graph as g
from ..drive import *
from ..values import *

_cases = {}


def cases_of(w, c, tier):
    k = (id(w), c.addr, tier)
    if k not in _cases:
        _cases[k] = w.cases(c, tier)
    return _cases[k]


def model_units(w, tier, extras=False):
    out = []
    for c in w.models:
        n = len(cases_of(w, c, tier))
        ex = len(api.ctor_extras(w, c)) if extras else 1
        for i in range(n):
            for e in range(ex):
                out.append(("model", c.name, i, e))
    return out


def free_units(w):
    out = []
    for i, f in enumerate(frees(w)):
        for j in range(len(list(f.variants()))):
            out.append(("free", f.label, i, j))
    return out


_frees = {}


def frees(w):
    if id(w) not in _frees:
        _frees[id(w)] = api.free_functions(w)
    return _frees[id(w)]


def get_case(w, unit, tier):
    c = w.cls(unit[1])
    ex = api.ctor_extras(w, c)[unit[3]] if unit[3] else ()
    return Case(w, c, cases_of(w, c, tier)[unit[2]], ex)


def where(e):
    return "%s:%s:%s" % tuple(e.where)


def owner_of(e):
    """file:function of an effect, the construct a finding is keyed by."""
    return "%s:%s" % tuple(e.where[:2])


def vnodes(ip, v):
    """Canonical comparable form of a value (None when it has opaque parts)."""
    r = _form(ip, v, set())
    return r


def _form(ip, v, seen):
    if isinstance(v, Num):
        return ("n", v.node)
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return ("r", v)
    if isinstance(v, (int, float)):
        return ("n", g.const(v))
    if isinstance(v, Arr):
        c = ip.content(v)
        if isinstance(c, U):
            return ("u", c.node)
        return ("d", tuple(c.shape), tuple(c.cells))
    if isinstance(v, (Tup,)):
        return ("t",) + tuple(_form(ip, x, seen) for x in v.items)
    if isinstance(v, (ListV, SetV)):
        return ("l",) + tuple(_form(ip, x, seen) for x in ip.get((v.addr, "i"), ()))
    if isinstance(v, DictV):
        return ("m",) + tuple((k if isinstance(k, (str, int, float, tuple)) else repr(k), _form(ip, x, seen))
                              for k, x in ip.get((v.addr, "i"), ()))
    if isinstance(v, RecArr):
        return ("R",) + tuple((k, _form(ip, x, seen)) for k, x in v.fields)
    if isinstance(v, StrT):
        return ("s",) + tuple(x if isinstance(x, str) else _form(ip, x, seen) for x in v.parts)
    if isinstance(v, Gate):
        return ("g", v.cond, _form(ip, v.a, seen), _form(ip, v.b, seen))
    if isinstance(v, Inst):
        if v.addr in seen:
            return ("i*",)
        seen = seen | {v.addr}
        return ("i", v.cls.name) + tuple((k, _form(ip, x, seen)) for k, x in ip.attrs(v.addr).items())
    return ("?", repr(type(v)), tuple(ip.nodes_of(v)))


def form_nodes(f):
    if isinstance(f, g.Node):
        yield f
    elif isinstance(f, tuple):
        for x in f:
            yield from form_nodes(x)


def form_same(a, b):
    """True / False / None (opaque parts differ)."""
    if a == b:
        return True
    na, nb = list(form_nodes(a)), list(form_nodes(b))
    if strip(a) != strip(b) or len(na) != len(nb):
        if any(g.has_unk(x) for x in na + nb):
            return None
        if len(na) == len(nb) and a[:1] != b[:1] and {a[0], b[0]} <= {"n", "u", "d"}:
            pass
        else:
            return False
    res = True
    for x, y in zip(na, nb):
        if x is y:
            continue
        if g.has_unk(x) or g.has_unk(y):
            res = None
            continue
        if not g.same(x, y):
            return False
    return res


def strip(f):
    if isinstance(f, g.Node):
        return "N"
    if isinstance(f, tuple):
        return tuple(strip(x) for x in f)
    if isinstance(f, float) and f != f:
        return "nan"
    return f


def exc_form(e):
    return None if e is None else ("exc", e.type if isinstance(e.type, str) else getattr(e.type, "name", repr(e.type)))


def exc_name(e):
    return exc_form(e)[1]


# ---------------------------------------------------------------- comparisons
from .. import box  # noqa: E402

_BX = []


def probe_boxes():
    if not _BX:
        _BX.extend(box.boxes(8))
    return _BX


def node_equal(a, b):
    """(True, ''), (False, witness) or (None, '')."""
    if a is b:
        return True, ""
    if g.has_unk(a) or g.has_unk(b):
        return None, ""
    bx = box.apart(a, b, probe_boxes())
    if bx is not None:
        return False, box.witness(bx, a, b)
    if g.same(a, b):
        return True, ""
    return None, ""


def equal_forms(a, b):
    """Three-valued equality of two forms, with a witness for a difference."""
    if a == b:
        return True, ""
    a, b = _norm(a), _norm(b)
    if isinstance(a, g.Node) and isinstance(b, g.Node):
        return node_equal(a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a[:1] == ("exc",) or b[:1] == ("exc",):
            return (True, "") if a == b else (False, "%s instead of %s" % (b if b[:1] == ("exc",) else "a value",
                                                                         a if a[:1] == ("exc",) else "a value"))
        if len(a) != len(b):
            if any(g.has_unk(x) for x in list(form_nodes(a)) + list(form_nodes(b))):
                return None, ""
            if "?" in (a[0], b[0]) or {a[0], b[0]} & {"u", "g"}:
                return None, ""
            return False, "a different structure"
        res = (True, "")
        for x, y in zip(a, b):
            r = equal_forms(x, y)
            if r[0] is False:
                return r
            if r[0] is None:
                res = r
        return res
    if isinstance(a, (g.Node, tuple)) or isinstance(b, (g.Node, tuple)):
        return None, ""
    if a != a and b != b:
        return True, ""
    if a == b:
        return True, ""
    if isinstance(a, str) and isinstance(b, str) and {a, b} <= {"n", "u", "d", "t", "l"}:
        return None, ""
    return False, "%r instead of %r" % (b, a)


def _norm(f):
    """A scalar in whatever wrapping is its node."""
    if isinstance(f, tuple) and len(f) == 2 and f[0] in ("n", "u") and isinstance(f[1], g.Node):
        return f[1]
    if isinstance(f, tuple) and len(f) == 3 and f[0] == "d" and f[1] == () and len(f[2]) == 1:
        return f[2][0]
    if isinstance(f, tuple) and len(f) == 3 and f[0] == "d" and isinstance(f[1], tuple):
        return ("d",) + f[1:]
    return f


def results(w, k, methods=True):
    """{label: form} of the public results of a constructed model."""
    if k.m is None:
        return {"constructor": exc_form(k.exc)}
    out = {}
    for lab, val, exc, kw in api.observe(w, k, methods=methods):
        out[lab] = vnodes(w.ip, val) if exc is None else exc_form(exc)
    return out


def compare_results(rep, rule, a, b, construct, msg, case, skip=()):
    for lab in a:
        if lab in skip:
            continue
        r, wit = equal_forms(a[lab], b.get(lab))
        c = "%s.%s" % (construct, lab.split("(")[0])
        if r is None:
            rep.undecided(rule, c)
        else:
            rep.require(r, rule, c, "%s%s" % (msg, ": at %s" % wit if wit else ""), c, case)
    if set(a) != set(b):
        rep.fail(rule, construct, msg + ": the model fails in one of the two cases (%s)" % sorted(
            str(x) for x in set(a) ^ set(b))[:3], construct, case)


def refusal(k):
    """The deliberate exception that constructing the case has to raise, or None."""
    v, x = k.values, {n for n, _ in k.extra}
    no = lambda n: v.get(n) is None
    c = k.cls.name
    if c == "AkkarSandikkayaBommer2014":
        return "NotImplementedError" if no("dist_jb") and no("dist_epi") and no("dist_hyp") else None
    if c == "AbrahamsonSilvaKamai2014":
        return "ValueError" if v.get("on_hanging_wall") and no("dist_x") else None
    if c == "AbrahamsonBhasin2020":
        return "NotImplementedError" if "psa" in x else None if x & {"pga", "psa_1s"} else "ValueError"
    if c == "AbrahamsonGregorAddo2016":
        slab = v.get("event_type") == "intraslab"
        return "ValueError" if (no("dist_hyp") or no("depth_hyp") if slab else no("dist_rup")) else None
    if c == "PinillaRamosEtAl2024":
        return "ValueError" if v.get("event_type") == "interface" and v.get("region") == "Taiwan" else None
    return None


#: results that a model does not have
NOT_PROVIDED = {
    "AbrahamsonGregorAddo2016": "pgv pgd", "AbrahamsonSilvaKamai2014": "pgd", "AkkarSandikkayaBommer2014": "pgd",
    "BooreStewartSeyhanAtkinson2014": "pgd", "Campbell2003": "pga pgv pgd", "CampbellBozorgnia2014": "pgd",
    "ChiouYoungs2014": "pgd", "CoppersmithBommer2014": "pgv pgd", "DerrasBardCotton2014": "pgd",
    "HermkesKuehnRiggelsen2014": "pgd", "Idriss2014": "pgv pgd", "PezeshkZandiehTavakoli2011": "pgv pgd",
    "TavakoliPezeshk05": "pgv pgd",
}
NOT_PROVIDED = {c: {p + n for n in v.split() for p in ("", "ln_std_")} for c, v in NOT_PROVIDED.items()}


def constructed(rep, rule, k):
    """Is the case constructed? A refusal without a reason violates the rule."""
    if k.m is not None:
        return True
    nm = exc_name(k.exc)
    if nm != refusal(k):
        rep.fail(rule, k.cls.name, "construction raises %s" % nm, k.cls.name, k.label())
    return False


def working_extra(w, c, values):
    """Constructor arguments with which the class can be constructed."""
    for ex in api.ctor_extras(w, c):
        with Case(w, c, values, ex) as k:
            ok = k.m is not None
        if ok:
            return ex
    return ()


def elements(ip, v):
    """The scalar nodes of a numeric value, or None when its length is unknown."""
    if isinstance(v, Num):
        return [v.node]
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return [g.const(v)]
    if isinstance(v, Arr):
        c = ip.content(v)
        if not isinstance(c, U):
            return list(c.cells)
        if c.shape == ():
            return [c.node]
        if c.shape is not None and len(c.shape) == 1 and isinstance(c.shape[0], int):
            return [g.index(c.node, i) for i in range(c.shape[0])]
    if isinstance(v, (Tup, ListV)):
        out = []
        for x in ip.try_items(v) or [None]:
            e = elements(ip, x) if x is not None else None
            if e is None:
                return None
            out += e
        return out
    return None
