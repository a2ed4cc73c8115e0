"""Drives every public entry point of the package with abstract arguments.

Entry points are discovered from the analysed class and module objects (so a
new property or method is exercised without changing this file); argument
recipes are keyed by parameter name, with a numeric atom as the fallback."""
import itertools

from . import graph as g
from .drive import *
from .values import *

ARRAY_ARGS = {"freqs", "nias", "stds", "periods", "ln_psas", "ln_stds", "std", "sigma_E", "sigma_S", "sigma_A",
              "rrup", "vs30"}
ENERGIES = ["D5-10", "D5-20", "D5-30", "D5-40", "D5-50", "D5-60", "D5-70", "D5-75", "D5-80", "D5-85", "D5-90", "D5-95"]
SKIP = {"load_data_file"}


def num(name):
    return Num(g.atom("arg", name), py=True)


def arglist(w, name, n=3):
    l = w.ip.mklist([num("%s[%d]" % (name, i)) for i in range(n)])
    return w.own(l, ("caller", "the caller's list %s" % name))


def argarr(w, name, n=3):
    return w.array(name, n, ("caller", "the caller's array %s" % name))


def masked(w, name, mask):
    ip = w.ip
    data = argarr(w, name, len(mask))
    m = ip.arr(D((len(mask),), [g.const(bool(x)) for x in mask]))
    for s in ip.storages(m):
        ip.sowner[s] = ("caller", "the mask of the caller's array %s" % name)
    o = ip.call(ip.mashim("MaskedArray"), [data, m], {})
    ip.owner[o.addr] = ("caller", "the caller's masked array %s" % name)
    return o


def signature(f):
    """[(name, required)] of a FuncV, without the bound first argument."""
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    nd = len(f.defaults or ())
    out = [(n, i < len(pos) - nd) for i, n in enumerate(pos)]
    for x in a.kwonlyargs:
        out.append((x.arg, x.arg not in (f.kwdefaults or {})))
    return out


def options(w, cls, name):
    if cls is None:
        return []
    for p in w.params(cls):
        if p.name == name and p.options:
            return [o for o in p.options]
    return []


def recipes(w, cls, func, pname, required):
    """List of zero-argument builders for parameter `pname`."""
    opt = [] if required else [lambda: MISSING]
    if pname == "ln_psas_cond":
        return [lambda: masked(w, pname, [True, False, True, False])]
    if pname in ("energy_threshold",):
        return [lambda e=e: e for e in ENERGIES]
    if pname == "energy":
        return [lambda: num("energy"), lambda: 0.75, lambda: 0.5, lambda: 0.95]
    if pname == "component":
        return [lambda: MISSING] + [lambda c=c: c for c in ("tau", "phi_s2s", "phi_s", "sigma")]
    if pname == "kind":
        return [lambda: MISSING, lambda: "cubic"]
    if pname == "eq_type":
        return [lambda: "interface", lambda: "slab"]
    if pname in ("region", "mechanism", "event_type", "tectonic_region", "vs_source", "site_cond"):
        o = options(w, cls, pname)
        if func == "duration_model":
            o = options(w, w.cls("PinillaRamosEtAl2024"), "region")
        return opt + [lambda x=x: x for x in (o or ["global", "california", "japan"])]
    if pname in ARRAY_ARGS or func == "duration_model" and pname == "mag":
        n = 4 if func.startswith("calc_cond_mean_spectrum_v") else 3
        return opt + [lambda: argarr(w, pname, n), lambda: arglist(w, pname, n)]
    if pname == "adjust_c1":
        n = None
        if cls is not None:
            t = w.ip.find_class_attr(cls, "PERIODS")
            if isinstance(t, Arr):
                c = w.ip.content(t)
                n = c.shape[0] if c.shape else None
        return opt + [lambda: num(pname), lambda: argarr(w, pname, n)]
    if pname == "resp_ref":
        t = w.ip.find_class_attr(cls, "PERIODS") if cls is not None else None
        n = None
        if isinstance(t, Arr):
            c = w.ip.content(t)
            n = c.shape[0] if c.shape else None
        return [lambda: argarr(w, pname, n), lambda: float("nan")]
    if pname == "pga_ref":
        return [lambda: num(pname), lambda: float("nan")]
    if pname in ("depth_1_0", "depth_2_5"):
        return [lambda: None, lambda: num(pname)] + opt
    return opt + [lambda: num(pname)]


def variants(w, cls, fname, f, skip_first, limit=64):
    """Argument assignments: every value of every argument at least once, plus
    the full product when small."""
    sig = signature(f)[1 if skip_first else 0:]
    rs = [(n, recipes(w, cls, fname, n, req)) for n, req in sig]
    tot = 1
    for _, r in rs:
        tot *= len(r)
    if tot <= limit:
        for combo in itertools.product(*[r for _, r in rs]):
            yield [(n, b) for (n, _), b in zip(rs, combo)]
        return
    m = max(len(r) for _, r in rs)
    for sh in range(2):
        for i in range(m):
            yield [(n, r[(i + sh * j) % len(r)]) for j, (n, r) in enumerate(rs)]


def build(assign):
    return {n: v for n, v in ((n, b()) for n, b in assign) if v is not MISSING}


def describe(kw):
    out = []
    for k, v in kw.items():
        if isinstance(v, Num):
            out.append("%s=*" % k)
        elif isinstance(v, Arr):
            out.append("%s=array" % k)
        elif isinstance(v, ListV):
            out.append("%s=list" % k)
        elif isinstance(v, Inst):
            out.append("%s=%s" % (k, v.cls.name))
        else:
            out.append("%s=%r" % (k, v))
    return ", ".join(out)


class Free:
    """A public module function, static or class method."""

    def __init__(self, w, label, cls, name, f, call, skip_first):
        self.w, self.label, self.cls, self.name, self.f = w, label, cls, name, f
        self.callee, self.skip_first = call, skip_first

    def variants(self):
        return variants(self.w, self.cls, self.name, self.f, self.skip_first)

    def run(self, assign):
        """(kwargs, value, exception); the caller rolls back."""
        kw = build(assign)
        try:
            return kw, self.w.ip.call(self.callee, [], dict(kw)), None
        except AbsRaise as e:
            return kw, None, e.exc


def free_functions(w):
    ip = w.ip
    out = []
    for c in w.classes:
        if c in (w.Scenario,):
            continue
        for n, v in ip.attrs(c.addr).items():
            if n.startswith("_") or not isinstance(v, (StaticV, ClassM)) or not isinstance(v.func, FuncV):
                continue
            out.append(Free(w, "%s.%s" % (c.name, n), c, n, v.func, ip.getattr(c, n), isinstance(v, ClassM)))
    for m in sorted(ip.modules):
        if not m.startswith("pygmm"):
            continue
        for n, v in ip.attrs(ip.modstate[m]).items():
            if isinstance(v, FuncV) and not n.startswith("_") and v.mod == m and n not in SKIP:
                out.append(Free(w, "%s.%s" % (m, n), None, n, v, v, False))
    return out


def public_members(w, cls):
    """[(name, 'prop'|'method', value)] of a model class."""
    ip = w.ip
    seen, out = set(), []
    for c in cls.mro:
        if not isinstance(c, ClassV):
            continue
        for n, v in ip.attrs(c.addr).items():
            if n.startswith("_") or n in seen:
                continue
            seen.add(n)
            if isinstance(v, PropV):
                out.append((n, "prop", v))
            elif isinstance(v, FuncV):
                out.append((n, "method", v))
    return sorted(out, key=lambda x: x[0])


def observe(w, case, skip=("scenario",), methods=True, maxvar=8):
    """Yield (label, value, exception, kwargs) for the public results of a
    constructed model."""
    ip = w.ip
    for n, kind, v in public_members(w, case.cls):
        if n in skip:
            continue
        if kind == "prop":
            val, exc = case.get(n)
            yield n, val, exc, {}
        elif methods:
            k = 0
            for assign in variants(w, case.cls, n, v, True, 6):
                if k >= maxvar:
                    break
                k += 1
                kw = build(assign)
                val, exc = case.callm(n, **kw)
                yield "%s(%s)" % (n, describe(kw)), val, exc, kw


def ctor_extras(w, cls):
    """Assignments of constructor arguments beyond the scenario."""
    ip = w.ip
    init = ip.find_class_attr(cls, "__init__")
    if not isinstance(init, FuncV):
        return [[]]
    sig = [(n, r) for n, r in signature(init)[1:] if n != "scenario" and n not in ("args", "kwargs")]
    if not sig:
        return [[]]
    out = [[]]
    for n, req in sig:
        for b in recipes(w, cls, "__init__", n, req):
            if b() is MISSING:
                continue
            out.append([(n, b)])
    full = []
    for n, req in sig:
        rs = [b for b in recipes(w, cls, "__init__", n, req)]
        full.append((n, rs[-1]))
    if len(full) > 1:
        out.append(full)
    return out
