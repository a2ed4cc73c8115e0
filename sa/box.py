"""Interval evaluation of value graphs over boxes of the inputs (abstract
interpretation in the interval domain).  Used to refute equalities: two values
are *apart* when, over some box of inputs, their intervals are disjoint."""
import math

from . import graph as g

INF = math.inf
TOP = (-INF, INF)
NANV = ("nan",)


def bc(f, *xs):
    n = None
    for x in xs:
        if isinstance(x, list):
            n = len(x) if n is None else min(n, len(x))
    if n is None:
        return f(*xs)
    return [bc(f, *[x[i] if isinstance(x, list) else x for x in xs]) for i in range(n)]


def nn(f):
    """NaN propagation."""
    def h(*xs):
        if any(x is NANV for x in xs):
            return NANV
        r = f(*xs)
        if r is NANV or r[0] != r[0] or r[1] != r[1]:
            return TOP if r is not NANV else r
        return r
    return h


def mono(fn):
    return nn(lambda a: (fn(a[0]), fn(a[1])))


def _abs(a):
    lo, hi = a
    if lo <= 0 <= hi:
        return 0.0, max(-lo, hi)
    return min(abs(lo), abs(hi)), max(abs(lo), abs(hi))


def _point(fn):
    """Functions evaluated only on (nearly) degenerate intervals."""
    def f(*xs):
        if all(x[1] - x[0] <= 1e-9 * (1 + abs(x[0])) for x in xs):
            try:
                v = fn(*[x[0] for x in xs])
            except (ValueError, OverflowError, ZeroDivisionError):
                return TOP
            return v, v
        return TOP
    return nn(f)


def _erf(a):
    return math.erf(a[0]), math.erf(a[1])


def _cut(x, *ns):
    """No fraction if all of the others have none."""
    if all(n[0] == n[1] and n[0] == int(n[0]) for n in ns if abs(n[0]) < 1e15):
        return (float(math.trunc(x[0])), float(math.trunc(x[1]))) if max(map(abs, x)) < 1e15 else x
    if any(n[0] == n[1] and n[0] != int(n[0]) for n in ns if abs(n[0]) < 1e15):
        return x
    return min(x[0], math.trunc(x[0])), max(x[1], math.trunc(x[1]))


ELS = {
    "abs": nn(_abs), "tanh": mono(math.tanh), "arctan": mono(math.atan), "erf": nn(_erf),
    "sinh": _point(math.sinh), "cosh": _point(math.cosh), "sin": _point(math.sin), "cos": _point(math.cos),
    "tan": _point(math.tan), "arcsin": _point(math.asin), "arccos": _point(math.acos),
    "arctan2": _point(math.atan2), "hypot": _point(math.hypot),
    "floor": mono(lambda x: float(math.floor(x)) if abs(x) < 1e15 else x),
    "ceil": mono(lambda x: float(math.ceil(x)) if abs(x) < 1e15 else x),
    "sign": nn(lambda a: ((a[0] > 0) - (a[0] < 0), (a[1] > 0) - (a[1] < 0))),
    "trunc": mono(lambda x: float(math.trunc(x)) if abs(x) < 1e15 else x), "cut": nn(_cut),
    "mod": _point(lambda a, b: a % b), "floordiv": _point(lambda a, b: a // b),
}


def _log(x):
    return -INF if x <= 0 else (INF if x == INF else math.log(x))


def band(*xs):
    if any(x is NANV for x in xs):
        return (0.0, 1.0)
    return (min(x[0] for x in xs), min(x[1] for x in xs))


def bor(*xs):
    if any(x is NANV for x in xs):
        return (0.0, 1.0)
    return (max(x[0] for x in xs), max(x[1] for x in xs))


def hull(a, b):
    if a is NANV and b is NANV:
        return NANV
    if a is NANV or b is NANV:
        return TOP
    return min(a[0], b[0]), max(a[1], b[1])


def _ite(c, a, b):
    if c is NANV:
        return TOP
    if c[0] >= 1:
        return a
    if c[1] <= 0:
        return b
    return hull(a, b)


def _interp1(x, xp, fp, left, right):
    if x is NANV or any(v is NANV for v in xp) or any(v is NANV for v in fp):
        return TOP
    if x[0] != x[1] or any(v[0] != v[1] for v in xp):
        if all(v[0] == v[1] for v in xp) and left is None and right is None and all(v[0] == v[1] for v in fp):
            ps = [x[0], x[1]] + [v[0] for v in xp if x[0] < v[0] < x[1]]
            ys = [_interp1((p, p), xp, fp, None, None) for p in ps]
            return min(y[0] for y in ys), max(y[1] for y in ys)
        return TOP
    q, xs = x[0], [v[0] for v in xp]
    if q < xs[0]:
        return left if left is not None else fp[0]
    if q > xs[-1]:
        return right if right is not None else fp[-1]
    for i in range(len(xs) - 1):
        if q <= xs[i + 1]:
            t = (q - xs[i]) / (xs[i + 1] - xs[i]) if xs[i + 1] != xs[i] else 1.0
            a, b = fp[i], fp[i + 1]
            return ((1 - t) * a[0] + t * b[0], (1 - t) * a[1] + t * b[1])
    return fp[-1]


class Box:
    def __init__(self, ranges):
        """ranges: {param name or ("arg", name) -> (lo, hi)}"""
        self.ranges = ranges
        self.memo = {}

    def get(self, n):
        r = self.memo.get(n)
        if r is None:
            r = self.memo[n] = self.step(n)
        return r

    def whole(self, name):
        """Is this input an integer?"""
        k = self.ranges.get("#whole")
        return k is not None and (k == 0 or (hash_of(name) >> k) & 1)

    def below0(self, n):
        x = self.get(n)
        return not isinstance(x, list) and x is not NANV and x[1] < 0

    def step(self, n):
        op = n.op
        if op == "const":
            return (n.data, n.data)
        if op == "nan":
            return NANV
        if op == "true":
            return (1.0, 1.0)
        if op == "false":
            return (0.0, 0.0)
        if op == "param":
            r = self.ranges.get(n.data[0], TOP)
            if self.whole(n.data[0]) and r is not TOP:
                return float(round(r[0])), float(round(r[1]))
            return r
        if op == "arg":
            nm = n.data[0]
            r = self.ranges.get(("arg", nm))
            if r is None and isinstance(nm, str) and self.whole(nm.lstrip("+").split("[")[0]):
                r = float(1 + hash_of(nm) * (self.ranges["#"] + 3) % 7)
                return r, r
            if r is None and isinstance(nm, str):
                r = arg_range(nm, self.ranges.get("#", 0))
            return r or TOP
        if op in ("cell", "col", "data"):
            k = g.known(n)
            pt = lambda v: NANV if v != v else (v, v)
            if k is None:
                return TOP
            return [pt(v) for v in k] if isinstance(k, tuple) else pt(k)
        if op == "lin":
            f = nn(lambda x, k: g._imul(x, (k, k)))
            tot = (n.data, n.data)
            ts = g.terms(n)[1]
            # log(-a) - log(-b) stands for log(a/b): signs cancel in the ratio
            logs = [(t, k) for t, k in ts.items() if t.op == "log" and self.below0(t.args[0])]
            flip = len(logs) > 1 and abs(sum(k for t, k in logs)) <= 1e-12
            for t, k in ts.items():
                if flip and (t, k) in logs:
                    a = self.get(t.args[0])
                    x = f((_log(-a[1]), _log(-a[0])), k)
                    tot = bc(nn(lambda a, b: (a[0] + b[0], a[1] + b[1])), tot, x)
                    continue
                tot = bc(nn(lambda a, b: (a[0] + b[0], a[1] + b[1])), tot, bc(lambda x: f(x, k), self.get(t)))
            return tot
        if op == "mul":
            r = (1.0, 1.0)
            # (-a)^p (-b)^-p stands for (a/b)^p, (-a)^p (-b)^p for (ab)^p: signs cancel
            low = [(b, e) for b, e in n.args if e != int(e) and self.below0(b)]
            flip = len(low) > 1 and (abs(sum(e for b, e in low)) <= 1e-12 or len(low) % 2 == 0
                                     and max(abs(e) for b, e in low) - min(abs(e) for b, e in low) <= 1e-12)
            for b, e in n.args:
                x = self.get(b)
                if flip and (b, e) in low:
                    x = (-x[1], -x[0])
                r = bc(nn(lambda a, x: g._imul(a, self.ipow(x, e))), r, x)
            return r
        if op == "ite":
            c = self.get(n.args[0])
            if not isinstance(c, list):
                if c is not NANV and c[0] >= 1:
                    return self.get(n.args[1])
                if c is not NANV and c[1] <= 0:
                    return self.get(n.args[2])
            return bc(_ite, c, self.get(n.args[1]), self.get(n.args[2]))
        if op in ("unk", "ambient", "bparam"):
            return TOP
        try:
            a = [self.get(x) for x in n.args]
        except AttributeError:
            return TOP
        if op == "exp":
            return bc(nn(lambda x: (g._mexp(x[0]), g._mexp(x[1]))), a[0])
        if op == "log":
            return bc(nn(lambda x: NANV if x[1] < 0 else (_log(x[0]), _log(x[1]))), a[0])
        if op == "pow":
            def pw(x, y):
                if y[0] == y[1]:
                    return self.ipow(x, y[0])
                if x[0] > 0:
                    ls = g._imul(y, (_log(x[0]), _log(x[1])))
                    return g._mexp(ls[0]), g._mexp(ls[1])
                return TOP
            return bc(nn(pw), *a)
        if op == "min":
            return bc(nn(lambda *x: (min(v[0] for v in x), min(v[1] for v in x))), *a)
        if op == "max":
            return bc(nn(lambda *x: (max(v[0] for v in x), max(v[1] for v in x))), *a)
        if op == "clip":
            lo, hi = n.data
            return bc(nn(lambda x: (min(max(x[0], lo), hi), min(max(x[1], lo), hi))), a[0])
        if op == "lt0":
            return bc(lambda x: (0.0, 0.0) if x is NANV else
                      ((1.0, 1.0) if x[1] < 0 else ((0.0, 0.0) if x[0] >= 0 else (0.0, 1.0))), a[0])
        if op == "eq0":
            return bc(lambda x: (0.0, 0.0) if x is NANV or x[0] > 0 or x[1] < 0 else
                      ((1.0, 1.0) if x == (0, 0) else (0.0, 1.0)), a[0])
        if op == "isnan":
            return bc(lambda x: (1.0, 1.0) if x is NANV else ((0.0, 1.0) if x == TOP else (0.0, 0.0)), a[0])
        if op == "not":
            return bc(lambda x: (1 - x[1], 1 - x[0]) if x is not NANV else (0.0, 1.0), a[0])
        if op == "and":
            return bc(band, *a)
        if op == "or":
            return bc(bor, *a)
        if op == "vec":
            return list(a)
        if op == "mat2":
            return TOP
        if op == "idx":
            if isinstance(a[0], list):
                i = n.data
                if isinstance(i, int) and -len(a[0]) <= i < len(a[0]):
                    return a[0][i]
                return TOP
            return a[0]
        if op == "take":
            if isinstance(a[0], list):
                try:
                    return [a[0][i] for i in n.data]
                except (IndexError, TypeError):
                    return TOP
            return a[0]
        if op == "interp":
            if not isinstance(a[1], list) or not isinstance(a[2], list):
                return TOP
            l, r = [None if d is None else self.get(d) if isinstance(d, g.Node) else
                    ((d, d) if isinstance(d, (int, float)) and d == d else NANV) for d in n.data[:2]]
            return bc(lambda x: _interp1(x, a[1], a[2], l, r), a[0])
        if op in ("op:min", "op:max", "op:argmin", "op:argmax") and n.data is None and isinstance(a[0], list):
            xs = a[0]
            if not xs or any(isinstance(x, list) or x is NANV for x in xs):
                return TOP
            f = min if op.endswith("min") else max
            r = f(x[0] for x in xs), f(x[1] for x in xs)
            if not op.startswith("op:arg"):
                return r
            if all(x[0] == x[1] for x in xs):
                i = float([x[0] for x in xs].index(r[0]))
                return i, i
            return 0.0, len(xs) - 1.0
        if op == "op:ndinterp":
            # a smooth stand-in for the tabulated surface: equal queries, equal values
            q = a[2:]
            if any(isinstance(x, list) or x is NANV or x[0] != x[1] or abs(x[0]) == INF for x in q):
                return TOP
            v = sum(x[0] * (0.013 * i + 0.0071) for i, x in enumerate(q, 1)) + 3.0 + 0.1 * (n.data != ("nearest",))
            return [(v * (1 + 0.17 * k), v * (1 + 0.17 * k)) for k in range(12)]
        if op.startswith("el:"):
            f = ELS.get(op[3:])
            return bc(f, *a) if f else TOP
        return TOP

    @staticmethod
    def ipow(x, e):
        if x[0] < 0 and e != int(e):
            return TOP
        return g._ipow(x, e)


#: plausible values of the scenario inputs: only points inside every model's
#: domain; a refutation is an input a user can supply
POINTS = {
    "mag": [6.3, 5.2, 7.4, 7.9, 6.9, 4.6], "dist_jb": [12.0, 33.0, 90.0, 3.0, 170.0], "dist_rup": [14.0, 41.0, 95.0, 9.0, 190.0],
    "dist_epi": [17.0, 45.0, 105.0, 9.0], "dist_hyp": [20.0, 50.0, 99.0, 14.0], "dist_x": [11.0, 30.0, 1.5, 62.0],
    "dist_y0": [3.0, 12.0, 0.5, 25.0], "dist_crjb": [8.0, 20.0, 12.0], "v_s30": [420.0, 790.0, 260.0, 1150.0, 565.0],
    "depth_1_0": [0.21, 0.6, 0.05, 1.3], "depth_2_5": [1.4, 4.1, 0.4, 2.2], "depth_tor": [2.5, 7.0, 0.8, 11.0],
    "depth_bor": [14.0, 17.0, 11.0], "depth_bot": [15.0, 18.0], "depth_hyp": [8.5, 13.0, 5.0], "dip": [55.0, 80.0, 35.0],
    "dpp_centered": [1.3, -2.0], "pga_ref": [0.12, 0.4, 0.03], "width": [13.0, 9.0, 21.0],
}


#: the same with the ends of the usual ranges, for directed searches
WIDE = {
    "mag": [3.0, 4.0, 4.7, 5.1, 5.6, 6.2, 6.6, 7.1, 7.7, 8.3], "v_s30": [120.0, 200.0, 320.0, 520.0, 800.0, 1300.0, 2000.0],
    "depth_1_0": [0.0, 0.02, 0.3, 1.5], "depth_2_5": [0.02, 0.7, 2.0, 7.0], "depth_tor": [0.0, 1.0, 6.0, 12.0],
    "depth_hyp": [1.0, 6.0, 12.0, 30.0, 80.0], "dip": [15.0, 40.0, 60.0, 90.0], "width": [3.0, 12.0, 40.0],
    "depth_bor": [14.0, 25.0], "depth_bot": [15.0, 25.0], "dpp_centered": [-5.0, 0.0, 5.0], "pga_ref": [1e-3, 0.1, 1.0],
}
for _d in ("dist_rup", "dist_jb", "dist_epi", "dist_hyp", "dist_x", "dist_y0", "dist_crjb"):
    WIDE[_d] = [0.1, 2.0, 8.0, 25.0, 60.0, 140.0, 300.0]


def lowest(n, limits=None, sweeps=2):
    """A point of the inputs (inside the declared limits) at which n is as
    small as a search along the coordinates finds, as a Box."""
    wide = dict(WIDE)
    for p, (lo, hi) in (limits or {}).items():
        # depths and widths have to fit each other: the limits are not combined
        ends = {lo, hi} if p not in ("depth_tor", "depth_bor", "depth_bot", "width") else set()
        wide[p] = sorted({v for v in WIDE.get(p, ()) if lo <= v <= hi} | ends) or WIDE[p]
    names = sorted({d.data[0] for d in g.deps(n) if d.op == "param"} & set(wide))
    pt = {p: wide[p][len(wide[p]) // 2] for p in wide}
    mk = lambda q: Box(dict({p: (v, v) for p, v in q.items()}, **{"#": 0}))

    def up(q):
        r = mk(q).get(n)
        return r[1] if isinstance(r, tuple) and r is not NANV else INF
    best = up(pt)
    for _ in range(sweeps):
        old = best
        for p in names:
            for v in wide[p]:
                q = dict(pt, **{p: v})
                u = up(q)
                if u < best:
                    best, pt = u, q
            if best < 0:
                return mk(pt), best
        if best == old:
            break
    return mk(pt), best


def hash_of(nm):
    h = 0
    for ch in nm:
        h = (h * 131 + ord(ch)) % 99991
    return h


def arg_range(nm, k):
    """A point for an argument atom, different per name and per probe."""
    h = hash_of(nm)
    v = 0.15 + ((h * (k + 3) + 7919 * k) % 997) / 500.0
    return v, v


def boxes(n=10):
    for k in range(n):
        r = {"#": k}
        for i, (p, vs) in enumerate(sorted(POINTS.items())):
            v = vs[(k * (1 + i % 3) + i * (k // 2)) % len(vs)]
            v += 1e-3 * v * ((k * 7 + i * 3) % 11)
            r[p] = (v, v)
        yield Box(r)


def disjoint(x, y, tol):
    if isinstance(x, list) and isinstance(y, list):
        return len(x) != len(y) or any(disjoint(a, b, tol) for a, b in zip(x, y))
    if isinstance(x, list) or isinstance(y, list):
        return False
    if x is NANV or y is NANV:
        # what is unbounded may stem from something unknown, NaN included
        return (x is NANV) != (y is NANV) and all(v is NANV or abs(v[0]) < INF and abs(v[1]) < INF for v in (x, y))
    if x[0] == INF or y[0] == INF or x[1] == -INF or y[1] == -INF:
        return False
    s = tol * (1e-6 + min(max(abs(x[0]), abs(x[1])), max(abs(y[0]), abs(y[1]))))
    return x[0] > y[1] + s or y[0] > x[1] + s


def apart(a, b, bs, tol=1e-6):
    """A box over which a and b are definitely different, or None."""
    if a is b:
        return None
    for bx in bs:
        if disjoint(bx.get(a), bx.get(b), tol):
            return bx
    if g.cuts(a, b):
        for bx in whole_boxes():
            if disjoint(bx.get(a), bx.get(b), tol):
                return bx
    return None


_WHOLE = []


def whole_boxes():
    """Points at which some inputs are integers."""
    if not _WHOLE:
        for k, bx in enumerate(boxes(8)):
            _WHOLE.append(Box(dict(bx.ranges, **{"#whole": 0 if k < 2 else k})))
    return _WHOLE


def witness(bx, *nodes):
    names = set()
    for n in nodes:
        for d in g.deps(n):
            if d.op == "param":
                names.add(d.data[0])
    return ", ".join("%s=%.4g" % (p, bx.ranges[p][0]) for p in sorted(names) if p in bx.ranges)
