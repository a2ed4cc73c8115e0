"""Loads the package into the analyser and enumerates its models and the
abstract scenarios (cases) each model is evaluated on."""
import itertools
import os
import sys

from . import graph as g
from .interp import Interp
from .values import *

sys.setrecursionlimit(40000)

REPO = os.environ.get("PYGMM_REPO", "/repo")


class Param:
    """Declared parameter, read off the package's own declaration."""

    def __init__(self, name, kind, required, default, lo=None, hi=None, options=None, value=None):
        self.name, self.kind, self.required, self.default = name, kind, required, default
        self.lo, self.hi, self.options = lo, hi, options
        self.value = value

    def __repr__(self):
        return "P(%s)" % self.name


class World:
    def __init__(self, pkgdir=None):
        self.pkgdir = pkgdir or os.path.join(REPO, "src", "pygmm")
        if not os.path.isdir(self.pkgdir):
            raise AnalysisError("package directory %s is missing" % self.pkgdir)
        self.ip = Interp(self.pkgdir)
        ip = self.ip
        try:
            ip.load_module("pygmm")
            for f in sorted(os.listdir(self.pkgdir)):
                if f.endswith(".py") and f not in ("__init__.py", "_version.py"):
                    ip.load_module("pygmm." + f[:-3])
        except AbsRaise as e:
            raise AnalysisError("package does not load: %r %s at %s" % (e.exc.type, e.exc.args, e.exc.where))
        ip.mashim("MaskedArray")
        ip.ext("collections.UserDict")
        ip.phase = "eval"
        self.init_effects = list(ip.effects)
        ip.effects.clear()
        self.Scenario = self.anchor("pygmm.model", "Scenario")
        self.Model = self.anchor("pygmm.model", "Model")
        self.GMM = self.anchor("pygmm.model", "GroundMotionModel")
        # containers that are empty once the package is imported (caches)
        self.empty_containers = {k[0] for k, v in ip.store.items()
                                 if len(k) == 2 and k[1] == "i" and not v and ip.owner.get(k[0], ("",))[0] == "shared"}
        self._params = {}
        self.classes = []
        seen = set()
        for mname in sorted(ip.modules):
            if not mname.startswith("pygmm"):
                continue
            for n, v in ip.attrs(ip.modstate[mname]).items():
                if isinstance(v, ClassV) and v.addr not in seen and v.mod.startswith("pygmm"):
                    seen.add(v.addr)
                    self.classes.append(v)
        self.models = [c for c in self.classes if self.Model in c.mro and c not in (self.Model, self.GMM)
                       and self.params(c)]

    def anchor(self, mod, name):
        if mod not in self.ip.modules:
            raise AnalysisError("module %s is gone" % mod)
        v = self.ip.mod_get(mod, name)
        if v is MISSING:
            raise AnalysisError("%s.%s is gone" % (mod, name))
        return v

    def modname(self, name):
        return self.anchor(*name.rsplit(".", 1))

    def cls(self, name):
        for c in self.classes:
            if c.name == name:
                return c
        raise AnalysisError("class %s is gone" % name)

    # ---------------------------------------------------------------- parameters
    def params(self, cls):
        k = cls.addr
        if k in self._params:
            return self._params[k]
        ip = self.ip
        pl = ip.find_class_attr(cls, "PARAMS")
        out = []
        items = [] if pl is MISSING else (ip.try_items(pl) or [])
        for p in items:
            d = {}
            for a in ("name", "required", "default", "min", "max", "options"):
                try:
                    d[a] = ip.getattr(p, a)
                except AbsRaise:
                    d[a] = MISSING
            opts = d["options"]
            if opts is not MISSING:
                opts = [o for o in ip.items(opts)]
            kind = "num" if d["min"] is not MISSING else ("cat" if opts is not MISSING else "any")
            out.append(Param(d["name"], kind, d["required"] is True, d["default"],
                             None if d["min"] is MISSING else d["min"], None if d["max"] is MISSING else d["max"],
                             None if opts is MISSING else opts, p))
        self._params[k] = out
        return out

    def pnum(self, name):
        return Num(g.atom("param", name), py=True)

    # ---------------------------------------------------------------- cases
    def factors(self, cls):
        """[(name, [values])]: MISSING = omitted, else option / numeric atom."""
        out = []
        for p in self.params(cls):
            if p.kind == "cat":
                ch = list(p.options)
                if not p.required:
                    ch = ch + [MISSING]
            else:
                ch = [self.pnum(p.name)]
                if not p.required:
                    ch.append(MISSING)
            out.append((p.name, ch))
        return out

    def cases(self, cls, tier="quick", limit=None):
        """Covering set of settings: the full product when small or thorough,
        else every triple of factor levels."""
        fs = self.factors(cls)
        tot = 1
        for _, c in fs:
            tot *= len(c)
        cap = limit or (100 if tier == "quick" else 2400)
        mk = lambda idx: {n: c[i] for (n, c), i in zip(fs, idx) if c[i] is not MISSING}
        if tot <= cap:
            return [mk(idx) for idx in itertools.product(*[range(len(c)) for _, c in fs])]
        return [mk(idx) for idx in cover([len(c) for _, c in fs], 3 if tier == "quick" else 4)]

    def settings(self, cls, full=False, only_valid=True):
        """Yield {param: value} dictionaries; a missing key = omitted."""
        ps = self.params(cls)
        cats, opts = [], []
        for p in ps:
            if p.kind == "cat":
                choice = list(p.options)
                if not p.required:
                    choice = [MISSING] + choice
                cats.append((p.name, choice))
            elif not p.required:
                opts.append(p.name)
        req = [p.name for p in ps if p.required and p.kind != "cat"]
        if len(opts) <= (6 if full else 3):
            subsets = [c for r in range(len(opts) + 1) for c in itertools.combinations(opts, r)]
        else:
            subsets = [(), tuple(opts)]
            for i in opts:
                subsets.append((i,))
                subsets.append(tuple(o for o in opts if o != i))
            if full:
                for a, b in itertools.combinations(opts, 2):
                    subsets.append((a, b))
                    subsets.append(tuple(o for o in opts if o not in (a, b)))
            seen, s2 = set(), []
            for s in subsets:
                if s not in seen:
                    seen.add(s)
                    s2.append(s)
            subsets = s2
        catprod = list(itertools.product(*[c for _, c in cats]))
        for sub in subsets:
            for cc in catprod:
                d = {}
                for n in req:
                    d[n] = self.pnum(n)
                for n in sub:
                    d[n] = self.pnum(n)
                for (n, _), v in zip(cats, cc):
                    if v is not MISSING:
                        d[n] = v
                yield d

    def scenario(self, values):
        ip = self.ip
        kw = dict(values)
        s = ip.call(self.Scenario, [], kw)
        self.own(s, ("caller", "the caller's scenario"))
        return s

    def own(self, v, owner, seen=None):
        ip = self.ip
        seen = seen if seen is not None else set()
        if isinstance(v, Arr):
            for s in ip.storages(v):
                ip.sowner[s] = owner
            return v
        if isinstance(v, (Inst, ListV, DictV, SetV)):
            if v.addr in seen:
                return v
            seen.add(v.addr)
            ip.owner[v.addr] = owner
            if isinstance(v, Inst):
                for x in ip.attrs(v.addr).values():
                    if isinstance(x, (Arr, Inst, ListV, DictV, SetV)):
                        self.own(x, owner, seen)
            else:
                for x in ip.get((v.addr, "i"), ()):
                    self.own(x[1] if isinstance(x, tuple) else x, owner, seen)
        return v

    def array(self, name, n=None, owner=("caller", "the caller's array")):
        """A caller's array argument."""
        if n is None:
            c = U(g.atom("arg", name), None)
        else:
            c = D((n,), [g.atom("arg", "%s[%d]" % (name, i)) for i in range(n)])
        a = self.ip.arr(c)
        for s in self.ip.storages(a):
            self.ip.sowner[s] = owner
        return a


_covers = {}


def cover(sizes, t):
    """Deterministic greedy covering array of strength t."""
    key = (tuple(sizes), t)
    if key in _covers:
        return _covers[key]
    k = len(sizes)
    free = [i for i in range(k) if sizes[i] > 1]
    t = min(t, len(free))
    todo = set()
    for cols in itertools.combinations(free, t):
        for vals in itertools.product(*[range(sizes[c]) for c in cols]):
            todo.add(tuple(zip(cols, vals)))
    # all-first and all-last rows first (everything given / everything omitted)
    rows = []

    def add(row):
        rows.append(tuple(row))
        for cols in itertools.combinations(free, t):
            todo.discard(tuple((c, row[c]) for c in cols))

    add([0] * k)
    add([s - 1 for s in sizes])
    while todo:
        seed = min(todo)
        row = [None] * k
        for c, v in seed:
            row[c] = v
        for c in range(k):
            if row[c] is None:
                if sizes[c] == 1:
                    row[c] = 0
                    continue
                done = [x for x in free if row[x] is not None]
                best, bv = -1, 0
                for off in range(sizes[c]):
                    v = (off + len(rows)) % sizes[c]
                    n = 0
                    for cols in itertools.combinations(done, t - 1):
                        n += tuple(sorted([(x, row[x]) for x in cols] + [(c, v)])) in todo
                    if n > best:
                        best, bv = n, v
                row[c] = bv
        add(row)
    _covers[key] = rows
    return rows


class Case:
    """One model evaluated on one abstract scenario."""

    def __init__(self, w, cls, values, extra=()):
        self.w, self.cls, self.values, self.extra = w, cls, values, extra
        self.exc = None
        self.m = None

    def label(self):
        return "%s(%s)" % (self.cls.name, ", ".join(
            ["%s=%s" % (k, v if not isinstance(v, Num) else "*") for k, v in self.values.items()]
            + [n for n, _ in self.extra]))

    def __enter__(self):
        ip = self.w.ip
        self.mark = ip.mark()
        self.e0 = len(ip.effects)
        self.path0 = list(ip.path)
        try:
            self.scen = self.w.scenario(self.values)
            self.kw = {n: b() for n, b in self.extra}
            self.m = ip.call(self.cls, [self.scen], dict(self.kw))
        except AbsRaise as e:
            self.exc = e.exc
        return self

    def __exit__(self, *a):
        ip = self.w.ip
        ip.rollback(self.mark)
        ip.path[:] = self.path0

    def effects(self):
        return self.w.ip.effects[self.e0:]

    def get(self, name):
        """(value, exception) of a public attribute of the model."""
        try:
            return self.w.ip.getattr(self.m, name), None
        except AbsRaise as e:
            return None, e.exc

    def callm(self, name, *args, **kw):
        try:
            f = self.w.ip.getattr(self.m, name)
            return self.w.ip.call(f, list(args), kw), None
        except AbsRaise as e:
            return None, e.exc
