"""Notation in which the published models are written down (see the other
modules of this package): expressions over the scenario's values and the
coefficients of one table row, as nodes of the analyser's value graph."""
from .. import graph as g


def nd(v):
    if isinstance(v, X):
        return v.n
    if isinstance(v, g.Node):
        return v
    if isinstance(v, bool):
        return g.TRUE if v else g.FALSE
    return g.const(float(v))


class X:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __add__(s, o): return X(g.add(s.n, nd(o)))
    __radd__ = __add__
    def __sub__(s, o): return X(g.sub(s.n, nd(o)))
    def __rsub__(s, o): return X(g.sub(nd(o), s.n))
    def __mul__(s, o): return X(g.mul(s.n, nd(o)))
    __rmul__ = __mul__
    def __truediv__(s, o): return X(g.div(s.n, nd(o)))
    def __rtruediv__(s, o): return X(g.div(nd(o), s.n))
    def __pow__(s, o): return X(g.power(s.n, nd(o)))
    def __rpow__(s, o): return X(g.power(nd(o), s.n))
    def __neg__(s): return X(g.neg(s.n))
    def __lt__(s, o): return X(g.lt(s.n, nd(o)))
    def __gt__(s, o): return X(g.lt(nd(o), s.n))
    def __le__(s, o): return X(g.le(s.n, nd(o)))
    def __ge__(s, o): return X(g.le(nd(o), s.n))
    def __and__(s, o): return X(g.band(s.n, nd(o)))
    def __or__(s, o): return X(g.bor(s.n, nd(o)))
    def __invert__(s): return X(g.bnot(s.n))
    def __bool__(s):
        raise TypeError("a symbolic value has no truth; use where()")


def ln(x): return X(g.log(nd(x)))
def exp(x): return X(g.exp(nd(x)))
def log10(x): return ln(x) / g.const(2.302585092994046)
def sqrt(x): return X(g.power(nd(x), g.const(0.5)))
def mini(*xs): return X(g.minimum(*[nd(x) for x in xs]))
def maxi(*xs): return X(g.maximum(*[nd(x) for x in xs]))
def clip(x, lo, hi): return X(g.clip(nd(x), nd(lo), nd(hi)))
def el(f, *xs): return X(g.el(f, *[nd(x) for x in xs]))
def tanh(x): return el("tanh", x)
def cosh(x): return el("cosh", x)
def cosd(x): return el("cos", x * DEG)
def sind(x): return el("sin", x * DEG)
def tand(x): return el("tan", x * DEG)


DEG = 3.141592653589793 / 180.0


def where(c, a, b):
    """a where c holds, else b."""
    if isinstance(c, bool):
        return X(nd(a)) if c else X(nd(b))
    return X(g.ite(nd(c), nd(a), nd(b)))


def piecewise(*arms):
    """piecewise((cond, value), …, otherwise)"""
    r = arms[-1]
    for c, v in reversed(arms[:-1]):
        r = where(c, v, r)
    return r if isinstance(r, X) else X(nd(r))


def interp(x, xs, ys, left=None, right=None):
    """Piecewise linear through (xs, ys), constant (or as given) outside."""
    o = lambda v: None if v is None else nd(v)
    return X(g.interp(nd(x), g.vec([nd(v) for v in xs]), g.vec([nd(v) for v in ys]), o(left), o(right)))


NAN = X(g.NAN)


class Row:
    """One row of a coefficient table."""

    def __init__(self, table, i):
        self._t, self._i = table, i
        if not table.endswith(".csv"):
            self._t = table + ".csv"

    def __getattr__(self, c):
        if c.startswith("__"):
            raise AttributeError(c)
        if c not in g.TABLES[self._t]:
            raise SpecError("the coefficient table %s has no column %s" % (self._t, c))
        return X(g.atom("cell", self._t, c, self._i))

    def known(self, c):
        return g.TABLES[self._t][c][self._i]


class SpecError(Exception):
    pass


class Q:
    """Resolved inputs of one evaluated setting, as a specification sees them."""

    def __init__(self, values):
        self._v = values

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        v = self._v.get(n)
        return X(v) if isinstance(v, g.Node) else v

    def replace(self, **kw):
        d = dict(self._v)
        d.update({k: (v.n if isinstance(v, X) else v) for k, v in kw.items()})
        return Q(d)


#: model -> {result name: function(q, row position) -> X}
MODELS = {}


def model(name, table, **kw):
    def deco(f):
        MODELS[name] = dict(table=table, build=f, **kw)
        return f
    return deco


def rows(table):
    t = table + ".csv"
    if t not in g.TABLES:
        raise SpecError("the coefficient table %s is gone" % t)
    return len(next(iter(g.TABLES[t].values())))


def find(table, period):
    """Index of the row of a period."""
    for i, p in enumerate(g.TABLES[table + ".csv"]["period"]):
        if abs(p - period) <= 1e-9 + 1e-6 * abs(period):
            return i
    raise SpecError("the table %s has no period %g" % (table, period))


class Data:
    """Numbers of a JSON data file by their path."""

    def __init__(self, name):
        if name not in g.JSON:
            raise SpecError("the data file %s is gone" % name)
        self._n, self._v = name, g.JSON[name]

    def __call__(self, *path):
        v, p = self._v, self._n
        for k in path:
            try:
                v = v[k]
            except (KeyError, IndexError):
                raise SpecError("%s has no %s" % (self._n, list(path)))
            p += ":" + k if isinstance(k, str) else "[%d]" % k
        return X(g.mk("data", (), (p, float(v))))
