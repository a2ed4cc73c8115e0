"""Hash-consed value-dependence graph with algebraic normalisation.

Nodes denote real/boolean values (scalars or arrays: shapes are mostly not
tracked, element-wise operations broadcast).  Two nodes that are the same
object denote the same value (up to real arithmetic); nothing follows from two
nodes being different objects except through `expand`/interval arguments.
"""
import math
import itertools

LN10 = math.log(10.0)
INF = math.inf

_table = {}
_ids = itertools.count(1)


class Node:
    __slots__ = ("op", "args", "data", "id", "_deps", "_iv", "_w")

    def __init__(self, op, args, data):
        self.op = op
        self.args = args
        self.data = data
        self.id = next(_ids)
        self._deps = None
        self._iv = None
        self._w = None

    def __repr__(self):
        return show(self)

    # children nodes
    def kids(self):
        if self.op in ("lin", "mul"):
            return [a for a, _ in self.args]
        return self.args


def mk(op, args=(), data=None):
    key = (op, args, data)
    n = _table.get(key)
    if n is None:
        n = Node(op, args, data)
        _table[key] = n
    return n


def rc(x):
    """Round a number to 12 significant digits (so that re-associated constant
    arithmetic gives the same node)."""
    if x == 0 or x != x or x in (INF, -INF):
        return float(x)
    x = float("%.12g" % x)
    if x in _snap:
        return _snap[x]
    # constants that agree to 5 parts in 10^11 are one constant
    m, e = math.frexp(x)
    i = round(m * 17179869184.0)
    for k in ((e, i), (e, i - 1), (e, i + 1), (e + 1, i // 2), (e - 1, 2 * i), (e - 1, 2 * i - 1)):
        y = _near.get(k)
        if y is not None and abs(y - x) <= 5e-11 * abs(x):
            _snap[x] = y
            return y
    _near[e, i] = _snap[x] = x
    return x


_snap = {}
_near = {}
for _i in range(1, 2001):
    rc(_i / 2)
    rc(-_i / 2)


def const(x):
    if x is True:
        return TRUE
    if x is False:
        return FALSE
    x = float(x)
    if x != x:
        return NAN
    return mk("const", (), rc(x))


TRUE = mk("true")
FALSE = mk("false")
NAN = mk("nan")
ZERO = const(0.0)
ONE = const(1.0)

ATOMS = {"param", "arg", "col", "cell", "data", "ambient", "unk", "default"}


def atom(kind, *data):
    return mk(kind, (), data)


def unk(reason, *deps):
    """Opaque value: depends on `deps` in an unknown way."""
    return mk("unk", tuple(deps), reason)


NONE = unk("array element None")
_unk_ids = itertools.count(1)


def fresh_unk(reason, *deps):
    return mk("unk", tuple(deps), (reason, next(_unk_ids)))


def is_const(n):
    return n.op == "const"


def cval(n):
    return n.data if n.op == "const" else None


def is_bool(n):
    return n.op in ("true", "false", "lt0", "eq0", "not", "and", "or", "isnan", "bparam", "isnone") or (
        n.op == "ite" and is_bool(n.args[1]) and is_bool(n.args[2])
    )


def tonum(n):
    if n is TRUE:
        return ONE
    if n is FALSE:
        return ZERO
    return n


# ---------------------------------------------------------------- arithmetic
def terms(n):
    """(const, {node:coef}) of a node."""
    if n.op == "const":
        return n.data, {}
    if n.op == "lin":
        return n.data, dict(n.args)
    return 0.0, {n: 1.0}


def mklin(c, t):
    items = []
    for k, v in t.items():
        v = rc(v)
        if v != 0:
            if v != v:
                return NAN
            items.append((k, v))
    c = rc(c)
    if c != c:
        return NAN
    if not items:
        return const(c)
    if len(items) == 1 and c == 0 and items[0][1] == 1.0:
        return items[0][0]
    items.sort(key=lambda kv: kv[0].id)
    # merging ites with the same condition keeps 'x += k if c' canonical
    return mk("lin", tuple(items), c)


def add(*ns):
    c = 0.0
    t = {}
    mag = {}
    for n in ns:
        n = tonum(n)
        if n is NAN:
            return NAN
        c1, t1 = terms(n)
        c += c1
        for k, v in t1.items():
            t[k] = t.get(k, 0.0) + v
            mag[k] = max(mag.get(k, 0.0), abs(v))
    for k in list(t):
        if abs(t[k]) < 1e-11 * mag[k]:
            del t[k]
    cm = max([abs(terms(tonum(n))[0]) for n in ns] or [0])
    if abs(c) < 1e-12 * cm:
        c = 0.0
    return mklin(c, t)


def scale(n, k):
    n = tonum(n)
    if n is NAN or k != k:
        return NAN
    if k == 0:
        return ZERO
    c, t = terms(n)
    return mklin(c * k, {a: v * k for a, v in t.items()})


def neg(n):
    return scale(n, -1.0)


def sub(a, b):
    return add(a, neg(b))


def content(n):
    """(k, m) with n = k*m, m having leading coefficient 1 (only for lin)."""
    if n.op == "lin":
        k = n.args[0][1]
        if len(n.args) == 1 and n.data == 0:
            return k, n.args[0][0]
        if k != 1.0:
            return k, scale(n, 1.0 / k)
        return 1.0, n
    if n.op == "const":
        return n.data, ONE
    return 1.0, n


def isint(e):
    return float(e).is_integer()


def mulfac(n, e=1.0):
    """(k, {base: exp}) for n**e  (real arithmetic; fractional exponents assume
    non-negative bases)."""
    n = tonum(n)
    if n.op == "const":
        try:
            v = n.data ** e
            if isinstance(v, complex):
                return None
            return v, {}
        except ZeroDivisionError:
            return INF, {}
        except OverflowError:
            return INF, {}
    k, m = content(n)
    if k < 0 and not isint(e):
        k = -k
        flip = [b for b, x in m.args if b.op == "lin" and x == 1.0] if m.op == "mul" else []
        if flip:
            # the sign goes to one of the factors
            m = mk("mul", tuple((neg(b) if b is flip[0] else b, x) for b, x in m.args))
        else:
            m = neg(m)
    if m.op == "lin" and isint(e):
        pass
    try:
        kk = k ** e
    except (ZeroDivisionError, OverflowError):
        return None
    if m.op == "mul":
        f = {}
        for b, x in m.args:
            y = x * e
            if isint(x) and x % 2 == 0 and not (isint(e) ):
                # (b^2)^.5 -> |b|^(2*.5)
                lo, hi = iv(b)
                if lo < 0:
                    b = el("abs", b)
            f[b] = f.get(b, 0.0) + y
        return kk, f
    if m.op == "exp" :
        # exp(x)^e -> exp(x*e)
        return kk, {exp(scale(m.args[0], e)): 1.0}
    if m.op == "const":
        return kk, {}
    return kk, {m: e}


def mul(*ns):
    k = 1.0
    f = {}
    for n in ns:
        if n is NAN:
            return NAN
        r = mulfac(n)
        k *= r[0]
        for b, e in r[1].items():
            f[b] = f.get(b, 0.0) + e
    return mkmul(k, f)


def mkmul(k, f):
    if k == 0:
        return ZERO
    if k != k:
        return NAN
    items = []
    ex = []
    for b, e in f.items():
        e = rc(e)
        if e == 0:
            continue
        if b.op == "exp":
            ex.append(scale(b.args[0], e))
            continue
        if isint(e) and b.op == "mul":
            for bb, ee in b.args:
                items.append((bb, ee * e))
            continue
        items.append((b, e))
    if ex:
        s = add(*ex)
        x = exp(s)
        # exp() may itself yield a product
        c1, t1 = terms(x)
        if x.op == "exp":
            items.append((x, 1.0))
        else:
            r = mulfac(x)
            k *= r[0]
            for b, e in r[1].items():
                items.append((b, e))
    acc = {}
    for b, e in items:
        acc[b] = rc(acc.get(b, 0.0) + e)
    items = [(b, e) for b, e in acc.items() if e != 0]
    if not items:
        return const(k)
    items.sort(key=lambda be: (be[0].id, be[1]))
    if len(items) == 1 and items[0][1] == 1.0:
        return scale(items[0][0], k)
    return scale(mk("mul", tuple(items)), k)


def power(a, b):
    a, b = tonum(a), tonum(b)
    if a is NAN or b is NAN:
        return NAN
    if b.op == "const":
        e = b.data
        if e == 0:
            return ONE
        if e == 1:
            return a
        r = mulfac(a, e)
        if r is None:
            return mk("pow", (a, b))
        return mkmul(*r)
    if a.op == "const" and a.data > 0:
        return exp(scale(b, math.log(a.data)))
    if a.op == "exp":
        return exp(mul(a.args[0], b))
    return mk("pow", (a, b))


def div(a, b):
    b = tonum(b)
    if b is NAN:
        return NAN
    if b is ZERO:
        return mk("el:div0", (a,))
    r = mulfac(b, -1.0)
    if r is None:
        return mk("pow", (b, const(-1)))
    return mul(a, mkmul(*r))


def exp(a):
    a = tonum(a)
    if a is NAN:
        return NAN
    if a.op == "const":
        try:
            return const(math.exp(a.data))
        except OverflowError:
            return const(INF)
    if a.op == "log":
        return a.args[0]
    c, t = terms(a)
    # exp(c + k log x + r) = e^c x^k exp(r)
    f = {}
    rest = {}
    for n, k in t.items():
        if n.op == "log":
            f[n.args[0]] = k
        else:
            rest[n] = k
    if f or (c != 0 and rest):
        parts = [const(math.exp(c))] if c else []
        for b, k in f.items():
            parts.append(power(b, const(k)))
        if rest:
            r = mklin(0.0, rest)
            parts.append(mk("exp", (r,)))
        return mul(*parts)
    return mk("exp", (a,))


def log(a):
    a = tonum(a)
    if a is NAN:
        return NAN
    if a.op == "const":
        if a.data > 0:
            return const(math.log(a.data))
        if a.data == 0:
            return const(-INF)
        return NAN
    if a.op == "exp":
        return a.args[0]
    k, m = content(a)
    if m.op == "mul" and k > 0:
        parts = [const(math.log(k))]
        for b, e in m.args:
            if isint(e) and e % 2 == 0 and iv(b)[0] < 0:
                b = el("abs", b)
            parts.append(scale(log(b), e))
        return add(*parts)
    if m.op != "lin" and k > 0 and k != 1:
        return add(const(math.log(k)), log(m))
    if m.op == "lin" and len(m.args) > 1 or (m.op == "lin" and m.data != 0):
        # normalise so that the leading coefficient is 1
        if k > 0 and k != 1:
            return add(const(math.log(k)), mk("log", (m,)))
    return mk("log", (a,))


def el(name, *args):
    args = tuple(tonum(a) for a in args)
    if any(a is NAN for a in args):
        return NAN
    if name == "abs":
        a = args[0]
        if a.op == "const":
            return const(abs(a.data))
        lo, hi = iv(a)
        if lo >= 0:
            return a
        if hi <= 0:
            return neg(a)
        k, m = content(a)
        if m.op == "mul" and len(m.args) > 0:
            return scale(mul(*[power(el("abs", b), const(e)) if not (isint(e) and e % 2 == 0) else power(b, const(e)) for b, e in m.args]), abs(k))
        if m.op == "el:abs":
            return scale(m, abs(k))
        return scale(mk("el:abs", (m,)), abs(k))
    if all(a.op == "const" for a in args):
        f = _FOLD.get(name)
        if f:
            try:
                return const(f(*[a.data for a in args]))
            except (ValueError, OverflowError, ZeroDivisionError):
                return NAN
    if name in ("sin", "tanh", "sinh", "arcsin", "arctan", "tan", "sign") and len(args) == 1:
        k, m = content(args[0])
        if k < 0:
            return neg(mk("el:" + name, (scale(m, -k),)))
    if name in ("cos", "cosh"):
        k, m = content(args[0])
        if k < 0:
            return mk("el:" + name, (scale(m, -k),))
    return mk("el:" + name, args)


_FOLD = {
    "sin": math.sin, "cos": math.cos, "tan": math.tan, "tanh": math.tanh,
    "sinh": math.sinh, "cosh": math.cosh, "arctan": math.atan,
    "arcsin": math.asin, "arccos": math.acos, "floor": math.floor,
    "ceil": math.ceil, "sign": lambda x: (x > 0) - (x < 0),
    "mod": lambda a, b: a - b * math.floor(a / b),
    "floordiv": lambda a, b: math.floor(a / b),
    "erf": math.erf, "arctan2": math.atan2, "hypot": math.hypot,
}


# ---------------------------------------------------------------- min / max
def _mm(op, ns):
    out = []
    c = None
    for n in ns:
        n = tonum(n)
        if n is NAN:
            return NAN
        if n.op == op:
            for a in n.args:
                if a.op == "const":
                    c = a.data if c is None else (min if op == "min" else max)(c, a.data)
                elif a not in out:
                    out.append(a)
        elif n.op == "const":
            c = n.data if c is None else (min if op == "min" else max)(c, n.data)
        elif n not in out:
            out.append(n)
    if not out:
        return const(c)
    if c is not None:
        # drop a constant (or everything) decided by intervals
        los = [iv(n)[0] for n in out]
        his = [iv(n)[1] for n in out]
        if op == "min":
            if all(lo >= c for lo in los):
                return const(c)
            if any(hi <= c for hi in his):
                c = None
        else:
            if all(hi <= c for hi in his):
                return const(c)
            if any(lo >= c for lo in los):
                c = None
    if c is not None:
        # clip canonical form: max(lo, min(x, hi)) / min(hi, max(x, lo))
        if len(out) == 1:
            x = out[0]
            if x.op == ("max" if op == "min" else "min"):
                cs = [a for a in x.args if a.op == "const"]
                xs = [a for a in x.args if a.op != "const"]
                if len(cs) == 1 and len(xs) >= 1:
                    k = cs[0].data
                    lo, hi = (k, c) if op == "min" else (c, k)
                    if lo >= hi:
                        return const(c)
                    inner = xs[0] if len(xs) == 1 else _mm(x.op, xs)
                    return clipn(inner, lo, hi)
            if x.op == "clip":
                lo, hi = x.data
                if op == "min":
                    hi = min(hi, c)
                    if lo >= hi:
                        return const(c)
                else:
                    lo = max(lo, c)
                    if lo >= hi:
                        return const(c)
                return clipn(x.args[0], lo, hi)
        out.append(const(c))
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda n: n.id)
    return mk(op, tuple(out))


def clipn(x, lo, hi):
    l, h = iv(x)
    if l >= lo and h <= hi:
        return x
    if l >= lo:
        return _mm("min", [x, const(hi)])
    if h <= hi:
        return _mm("max", [x, const(lo)])
    return mk("clip", (x,), (rc(lo), rc(hi)))


def minimum(*ns):
    return _mm("min", ns)


def maximum(*ns):
    return _mm("max", ns)


def clip(x, lo, hi):
    """numpy semantics: minimum(maximum(x, lo), hi)."""
    if lo is not None:
        x = maximum(x, lo)
    if hi is not None:
        x = minimum(x, hi)
    return x


# ---------------------------------------------------------------- booleans
INTEGRAL = {"op:argmin", "op:argmax"}


def lt0(e):
    if e is NAN:
        return FALSE
    if e.op == "const":
        return TRUE if e.data < 0 else FALSE
    lo, hi = iv(e)
    if hi < 0:
        return TRUE
    if lo >= 0:
        return FALSE
    if e.op == "lin" and all(a.op in INTEGRAL and isint(k) for a, k in e.args) and isint(e.data) and e.args[0][1] < 0:
        # integers: e < 0 is not (-e - 1 < 0)
        return bnot(lt0(sub(const(-1.0), e)))
    k, m = content(e)
    m = m if k > 0 else neg(m)
    # sign of a product with a known-sign factor
    return mk("lt0", (m,))


def lt(a, b):
    a, b = tonum(a), tonum(b)
    if a is NAN or b is NAN:
        return FALSE
    # compare logs / exps of the same shape through monotone functions
    return lt0(sub(a, b))


def le(a, b):
    a, b = tonum(a), tonum(b)
    if a is NAN or b is NAN:
        return FALSE
    return bnot(lt(b, a))


def eq(a, b):
    a, b = tonum(a), tonum(b)
    if a is NAN or b is NAN:
        return FALSE
    d = sub(a, b)
    if d.op == "const":
        return TRUE if d.data == 0 else FALSE
    lo, hi = iv(d)
    if lo > 0 or hi < 0:
        return FALSE
    k, m = content(d)
    return mk("eq0", (m,))


def bnot(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    return mk("not", (c,))


def _flat(op, cs):
    out = []
    for c in cs:
        if c.op == op:
            out.extend(c.args)
        else:
            out.append(c)
    return out


def band(*cs):
    out = []
    for c in _flat("and", cs):
        if c is FALSE:
            return FALSE
        if c is TRUE or c in out:
            continue
        out.append(c)
    for c in out:
        if bnot(c) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda n: n.id)
    return mk("and", tuple(out))


def bor(*cs):
    out = []
    for c in _flat("or", cs):
        if c is TRUE:
            return TRUE
        if c is FALSE or c in out:
            continue
        out.append(c)
    for c in out:
        if bnot(c) in out:
            return TRUE
    # (a and b) or (a and not b) -> a
    ands = [set(c.args) if c.op == "and" else {c} for c in out]
    for i in range(len(out)):
        for j in range(i + 1, len(out)):
            d1 = ands[i] - ands[j]
            d2 = ands[j] - ands[i]
            if len(d1) == 1 and len(d2) == 1 and bnot(next(iter(d1))) is next(iter(d2)):
                rest = [o for k, o in enumerate(out) if k not in (i, j)]
                return bor(band(*(ands[i] & ands[j])), *rest)
            if not d1:  # i implied subset: i ⊆ j as sets => j redundant
                rest = [o for k, o in enumerate(out) if k != j]
                return bor(*rest)
            if not d2:
                rest = [o for k, o in enumerate(out) if k != i]
                return bor(*rest)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda n: n.id)
    return mk("or", tuple(out))


def integral(n, names, depth=12):
    """Is it an integer when the given atoms are?"""
    op = n.op
    if op == "const":
        return float(n.data).is_integer()
    if op in ("param", "arg"):
        return n in names
    if op == "unk":
        return n.data == "uninitialised" or isinstance(n.data, tuple) and n.data[:1] == ("uninitialised",)
    if is_bool(n) or op in ("el:trunc", "el:floor", "el:ceil", "el:sign"):
        return True
    if op == "el:cut":
        return set(n.args[1:]) <= set(names)
    if depth == 0:
        return False
    if op == "lin":
        c, ts = terms(n)
        return float(c).is_integer() and all(float(k).is_integer() and integral(t, names, depth - 1) for t, k in ts.items())
    if op == "mul":
        return all(isinstance(e, (int, float)) and e >= 0 and float(e).is_integer() and integral(b, names, depth - 1) for b, e in n.args)
    if op in ("min", "max", "vec", "take", "idx", "el:abs"):
        return all(integral(x, names, depth - 1) for x in n.args)
    if op == "ite":
        return integral(n.args[1], names, depth - 1) and integral(n.args[2], names, depth - 1)
    return False


_CUTS = []


def cuts(*ns):
    """Do the values contain a fraction that may be cut off?"""
    return bool(_CUTS) and any(x.op == "el:cut" for n in ns for x in walk(n))


def cut(n, names):
    """n without its fraction, if the given atoms are all integers."""
    if integral(n, names):
        return n
    if not names:
        return const(math.trunc(n.data)) if n.op == "const" else el("trunc", n)
    _CUTS.append(1)
    return mk("el:cut", (n,) + tuple(sorted(names, key=lambda d: d.id)))


def truth(n):
    """Truthiness of a numeric/boolean node."""
    if n is NAN:
        return TRUE
    if is_bool(n):
        return n
    if n.op == "const":
        return TRUE if n.data != 0 else FALSE
    return bnot(eq(n, ZERO))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if is_bool(a) and is_bool(b):
        return bor(band(c, a), band(bnot(c), b))
    a, b = tonum(a), tonum(b)
    if a is b:
        return a
    # simplification of nested ites on the same condition
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    # min / max
    if c.op == "lt0":
        d = sub(a, b)
        if d.op != "const" and d is not NAN:
            k, m = content(d)
            m = m if k > 0 else neg(m)
            e = c.args[0]
            if m is e and k > 0:
                return minimum(a, b)
            if neg(m) is e or (k < 0 and m is e):
                pass
            km, mm = content(e)
            kk, md = content(d)
            if mm is md:
                # e = km*mm, d = kk*mm ; same sign -> a<b iff c
                if (km > 0) == (kk > 0):
                    return minimum(a, b)
                return maximum(a, b)
    return mk("ite", (c, a, b))


def isnan(n):
    if n is NAN:
        return TRUE
    if n.op in ("const", "true", "false", "param", "cell", "col"):
        v = known(n)
        if isinstance(v, tuple):
            if any(x != x for x in v):
                return mk("isnan", (n,))
            return FALSE
        if v is not None and v != v:
            return TRUE
        return FALSE
    if n.op == "ite":
        return bor(band(n.args[0], isnan(n.args[1])), band(bnot(n.args[0]), isnan(n.args[2])))
    if n.op == "arg" and n.data[0].startswith("+"):
        return FALSE
    if n.op in ("arg", "unk", "data"):
        return mk("isnan", (n,))
    ks = n.kids()
    return bor(*[isnan(k) for k in ks if not is_bool(k)]) if ks else mk("isnan", (n,))


# ---------------------------------------------------------------- arrays
#: data file name -> its content, for JSON files
JSON = {}
#: table name -> object with .known(name) -> list of floats
TABLES = {}


def known(n):
    """Known numeric value(s) of an atom, or None."""
    if n.op == "const":
        return n.data
    if n.op == "cell":
        t = TABLES.get(n.data[0])
        if t is not None:
            c = t.get(n.data[1])
            if c is not None and -len(c) <= n.data[2] < len(c):
                return c[n.data[2]]
    if n.op == "col":
        t = TABLES.get(n.data[0])
        if t is not None:
            c = t.get(n.data[1])
            if c is not None:
                rows = n.data[2]
                if rows is None:
                    return tuple(c)
                return tuple(c[r] for r in rows)
    if n.op == "data" and len(n.data) > 1 and isinstance(n.data[1], float):
        return n.data[1]
    return None


ELEMENTWISE = {"lin", "mul", "exp", "log", "pow", "min", "max", "clip", "ite", "lt0", "eq0",
               "not", "and", "or", "isnan"}


def elementwise(n):
    return n.op in ELEMENTWISE or n.op.startswith("el:")


def rebuild(n, f):
    """Rebuild node n with f applied to its children."""
    op = n.op
    if op == "lin":
        return add(const(n.data), *[scale(f(a), k) for a, k in n.args])
    if op == "mul":
        return mul(*[power(f(a), const(e)) for a, e in n.args])
    if not n.args:
        return n
    a = [f(x) for x in n.args]
    if all(x is y for x, y in zip(a, n.args)):
        return n
    if op == "exp":
        return exp(a[0])
    if op == "log":
        return log(a[0])
    if op == "pow":
        return power(*a)
    if op == "min":
        return minimum(*a)
    if op == "max":
        return maximum(*a)
    if op == "clip":
        return clip(a[0], const(n.data[0]), const(n.data[1]))
    if op == "ite":
        return ite(*a)
    if op == "lt0":
        return lt0(a[0])
    if op == "eq0":
        return eq(a[0], ZERO)
    if op == "not":
        return bnot(a[0])
    if op == "and":
        return band(*a)
    if op == "or":
        return bor(*a)
    if op == "isnan":
        return isnan(a[0])
    if op.startswith("el:"):
        if op == "el:div0":
            return mk(op, tuple(a))
        return el(op[3:], *a)
    if op == "ax":
        return axcol(a[0])
    if op == "T":
        return transpose(a[0])
    return mk(op, tuple(a), n.data)


def subst(n, m, memo=None):
    """Substitute nodes (dict node->node)."""
    memo = {} if memo is None else memo

    def go(x):
        if x in m:
            return m[x]
        if x in memo:
            return memo[x]
        r = rebuild(x, go)
        memo[x] = r
        return r

    return go(n)


_IDX = {}
_TAKE = {}


SCALAR_RED = {"op:min", "op:max", "op:argmin", "op:argmax", "op:sum", "op:mean"}


def index(n, i):
    """n[i] for a constant integer i (scalars broadcast to themselves)."""
    memo = _IDX.setdefault(i, {})

    def go(x):
        r = memo.get(x)
        if r is None:
            r = memo[x] = step(x)
        return r

    def step(x):
        if x.op in ("const", "true", "false", "nan", "param", "cell", "ambient", "bparam", "isnone"):
            return x
        if x.op == "arg" and x.data[0].startswith("+"):
            return x
        if x.op in SCALAR_RED and x.data is None:
            return x
        if x.op == "col":
            t, c, rows = x.data
            if rows is None:
                tab = TABLES.get(t)
                n_rows = len(next(iter(tab.values()))) if tab else None
                j = i
                if j < 0 and n_rows is not None:
                    j += n_rows
                if n_rows is not None and not (0 <= j < n_rows):
                    return mk("el:index_error", (x, const(i)))
                return atom("cell", t, c, j)
            if -len(rows) <= i < len(rows):
                return atom("cell", t, c, rows[i])
            return mk("el:index_error", (x, const(i)))
        if x.op == "vec":
            if -len(x.args) <= i < len(x.args):
                return x.args[i]
            return mk("el:index_error", (x, const(i)))
        if elementwise(x):
            return rebuild(x, go)
        if x.op == "interp":
            return interp(go(x.args[0]), *x.args[1:], opts=x.data)
        if x.op == "call" and x.data and x.data[0] in ("interp1d",):
            y = x.args[2]
            if y.op == "mat2" and x.data[1] in ("linear", 1, "slinear") and x.data[2] is False and isinstance(
                    x.data[3], tuple) and len(x.data[3]) == 2 and -len(y.args) <= i < len(y.args):
                # one curve per row, with the two out-of-range fill values
                row, fl = y.args[i], [go(f) for f in x.data[3]]
                m = len(row.args) if row.op == "vec" else None
                if m:
                    fl = [None if f is index(row, j) else f for f, j in zip(fl, (0, m - 1))]
                return interp(go(x.args[0]), x.args[1], row, fl[0], fl[1])
            return mk("call", (go(x.args[0]),) + x.args[1:], x.data)
        if x.op == "scalar":
            return x.args[0]
        if x.op == "take" and isinstance(x.data, tuple) and -len(x.data) <= i < len(x.data):
            return index(x.args[0], x.data[i])
        if x.op == "slice" and i >= 0:
            lo, hi, step = x.data
            lo, step = 0 if lo is None else lo, 1 if step is None else step
            if hi is None and isinstance(lo, int) and isinstance(step, int) and lo >= 0 and step >= 1:
                return index(x.args[0], lo + i * step)
        return mk("idx", (x,), i)

    return go(n)


def take(n, rows):
    """n[rows] for a tuple of constant ints."""
    rows = tuple(rows)
    memo = _TAKE.setdefault(rows, {})

    def go(x):
        r = memo.get(x)
        if r is None:
            r = memo[x] = step(x)
        return r

    def step(x):
        if x.op in ("const", "true", "false", "nan", "param", "cell", "ambient", "bparam", "isnone"):
            return x
        if x.op == "col":
            t, c, r = x.data
            if r is None:
                tab = TABLES.get(t)
                n_rows = len(next(iter(tab.values()))) if tab else None
                rr = tuple((j + n_rows if j < 0 else j) if n_rows else j for j in rows)
                if n_rows and any(not 0 <= j < n_rows for j in rr):
                    return mk("el:index_error", (x,), rows)
                return mk("col", (), (t, c, rr))
            if all(-len(r) <= j < len(r) for j in rows):
                return mk("col", (), (t, c, tuple(r[j] for j in rows)))
            return mk("el:index_error", (x,), rows)
        if x.op == "vec":
            if all(-len(x.args) <= j < len(x.args) for j in rows):
                return vec([x.args[j] for j in rows])
            return mk("el:index_error", (x,), rows)
        if elementwise(x):
            return rebuild(x, go)
        if x.op == "interp":
            return interp(go(x.args[0]), *x.args[1:], opts=x.data)
        return mk("take", (x,), rows)

    return go(n)


def vec(ns):
    ns = tuple(ns)
    return mk("vec", ns)


_KNOTS = {}


def point(n):
    """The number a node is known to be, or None."""
    if n.op == "const":
        return float(n.data)
    if any(d.op in ("param", "arg", "unk", "ambient", "vec") or d.op == "col" for d in deps(n)):
        return None
    a, b = iv(n)
    return 0.5 * (a + b) if abs(a) < INF and b - a <= 1e-11 * max(1.0, abs(a)) else None


def veclen(n):
    """Length of a vector expression, or None."""
    for d in walk(n):
        if d.op == "vec":
            return len(d.args)
        if d.op == "col":
            k = known(d)
            return len(k) if k is not None else None
    return None


def knots(xp):
    r = _KNOTS.get(xp, 0)
    if r == 0:
        n = veclen(xp)
        r = None
        if n is not None:
            r = [point(index(xp, i)) for i in range(n)]
            if any(v is None for v in r) or any(b <= a for a, b in zip(r, r[1:])):
                r = None
        _KNOTS[xp] = r
    return r


def interp(x, xp, fp, left=None, right=None, opts=None):
    """Piecewise linear interpolation; resolved when the position is known."""
    left, right = opts if opts is not None else (left, right)
    v = point(x)
    ks = knots(xp) if v is not None else None
    if ks:
        tol = 1e-10 * max(1.0, abs(v))
        if v < ks[0] - tol:
            return index(fp, 0) if left is None else left
        if v > ks[-1] + tol:
            return index(fp, len(ks) - 1) if right is None else right
        for i, k in enumerate(ks):
            if abs(v - k) <= tol:
                return index(fp, i)
            if v < k:
                w = (v - ks[i - 1]) / (k - ks[i - 1])
                a, b = index(fp, i - 1), index(fp, i)
                return add(scale(a, 1 - w), scale(b, w))
    if isinstance(left, Node) or isinstance(right, Node):
        nl = left if isinstance(left, Node) else None
        nr = right if isinstance(right, Node) else None
        n = veclen(xp)
        r = interp(x, xp, fp, None if nl is not None else left, None if nr is not None else right)
        if nr is not None:
            last = index(xp, n - 1) if n is not None else mk("idx", (xp,), -1)
            r = ite(lt0(sub(last, x)), nr, r)
        return ite(lt0(sub(x, index(xp, 0))), nl, r) if nl is not None else r
    return mk("interp", (x, xp, fp), (left, right))


def axcol(n):
    """n[:, newaxis] : n along axis 0."""
    if n.op in ("const", "param", "cell", "nan", "true", "false"):
        return n
    if elementwise(n):
        return rebuild(n, axcol)
    return mk("ax", (n,))


def transpose(n):
    """Transpose of a 2-d expression built from row vectors x and column
    vectors ax(x)."""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            if x.op in ("const", "param", "cell", "nan", "true", "false", "bparam"):
                r = x
            elif x.op == "ax":
                r = x.args[0]
            elif elementwise(x):
                r = rebuild(x, go)
            elif x.op == "T":
                r = x.args[0]
            elif x.op == "interp" :
                r = interp(go(x.args[0]), *x.args[1:], opts=x.data)
            elif x.op == "diagset":
                r = mk("diagset", (go(x.args[0]), x.args[1]))
            elif x.op == "outer":
                r = mk("outer", (x.args[1], x.args[0]))
            elif x.op in ("mat2", "unk", "matmul"):
                r = mk("T", (x,))
            elif x.op == "eye":
                r = x
            else:
                r = mk("ax", (x,))
            memo[x] = r
        return r

    return go(n)


# ---------------------------------------------------------------- dependence
def deps(n):
    """frozenset of atoms the value may depend on (unk children included)."""
    if n._deps is None:
        stack = [n]
        while stack:
            x = stack[-1]
            if x._deps is not None:
                stack.pop()
                continue
            ks = [k for k in x.kids() if k._deps is None]
            if ks:
                stack.extend(ks)
                continue
            if x.op in ATOMS or x.op in ("bparam", "isnone"):
                s = {x}
            else:
                s = set()
            for k in x.kids():
                s |= k._deps
            x._deps = frozenset(s)
            stack.pop()
    return n._deps


def has_unk(n):
    return any(d.op == "unk" for d in deps(n))


def walk(n):
    seen = set()
    stack = [n]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(x.kids())


def weight(n):
    if n._w is None:
        n._w = 1 + sum(weight(k) for k in n.kids())
    return n._w


# ---------------------------------------------------------------- intervals
#: ranges assumed for atoms (param name -> (lo, hi)); physical sign facts only
PARAM_RANGE = {}


def iv(n):
    """Interval hull of a node (default environment)."""
    r = n._iv
    if r is None:
        r = n._iv = _iv(n, iv, PARAM_RANGE)
    return r


def ivals(n, ranges, memo, hook=None):
    """Interval of n under explicit ranges {atom node: (lo,hi)}."""
    r = memo.get(n)
    if r is None:
        if hook is not None:
            r = hook(n)
        if r is None:
            r = ranges.get(n)
        if r is None:
            r = _iv(n, lambda x: ivals(x, ranges, memo, hook), PARAM_RANGE)
        memo[n] = r
    return r


FULL = (-INF, INF)


def _imul(a, b):
    ps = []
    for x in a:
        for y in b:
            if x == 0 or y == 0:
                ps.append(0.0)
            else:
                ps.append(x * y)
    return min(ps), max(ps)


def _ipow(a, e):
    lo, hi = a
    if e == 1:
        return a
    if isint(e):
        e = int(e)
        if e > 0:
            if e % 2 == 0:
                try:
                    m = max(abs(lo), abs(hi)) ** e
                except OverflowError:
                    m = INF
                l = 0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi)) ** e
                return l, m
            try:
                return lo ** e, hi ** e
            except OverflowError:
                return FULL
        if lo > 0 or hi < 0:
            p = _ipow(a, -e)
            f = lambda v: INF if v == 0 else (0.0 if v in (INF, -INF) else 1.0 / v)
            return tuple(sorted((f(p[0]), f(p[1]))))
        if lo == 0 and hi > 0:
            p = _ipow(a, -e)
            return (0.0 if p[1] == INF else 1.0 / p[1], INF)
        if e % 2 == 0:
            return 0.0, INF
        return FULL
    lo = max(lo, 0.0)
    hi = max(hi, 0.0)
    try:
        if e > 0:
            return lo ** e, hi ** e
        l = 0.0 if hi == INF else (INF if hi == 0 else hi ** e)
        h = INF if lo == 0 else lo ** e
        return l, h
    except OverflowError:
        return 0.0, INF


def _mexp(x):
    if x == INF:
        return INF
    if x == -INF:
        return 0.0
    try:
        return math.exp(x)
    except OverflowError:
        return INF


def _mlog(x):
    if x <= 0:
        return -INF
    if x == INF:
        return INF
    return math.log(x)


def _iv(n, f, pr):
    op = n.op
    if op == "const":
        return n.data, n.data
    if op in ("cell", "col", "data"):
        v = known(n)
        if isinstance(v, tuple):
            v = [x for x in v if x == x]
            return (min(v), max(v)) if v else FULL
        if v is not None and v == v:
            return v, v
        return FULL
    if op == "param":
        return pr.get(n.data[0], FULL)
    if op == "arg":
        if isinstance(n.data[0], str) and n.data[0][:1] == "+":
            return pr.get(n.data, (1e-6, INF))
        return pr.get(n.data, FULL)
    if op in INTEGRAL and n.args[0].op == "vec":
        return 0.0, len(n.args[0].args) - 1.0
    if op in ("true", "false", "lt0", "eq0", "not", "and", "or", "isnan", "bparam", "isnone"):
        return 0.0, 1.0
    if op == "lin":
        lo = hi = n.data
        for a, k in n.args:
            l, h = f(a)
            l, h = _imul((l, h), (k, k))
            lo = lo + l
            hi = hi + h
        if lo != lo or hi != hi:
            return FULL
        return lo, hi
    if op == "mul":
        r = (1.0, 1.0)
        for a, e in n.args:
            r = _imul(r, _ipow(f(a), e))
            if r[0] != r[0] or r[1] != r[1]:
                return FULL
        return r
    if op == "exp":
        lo, hi = f(n.args[0])
        return _mexp(lo), _mexp(hi)
    if op == "log":
        lo, hi = f(n.args[0])
        return _mlog(lo), _mlog(hi)
    if op == "pow":
        b = f(n.args[0])
        e = f(n.args[1])
        if b[0] > 0:
            ls = _imul(e, (_mlog(b[0]), _mlog(b[1])))
            return _mexp(ls[0]), _mexp(ls[1])
        if b[0] >= 0:
            return 0.0, INF
        return FULL
    if op == "min":
        v = [f(a) for a in n.args]
        return min(x[0] for x in v), min(x[1] for x in v)
    if op == "max":
        v = [f(a) for a in n.args]
        return max(x[0] for x in v), max(x[1] for x in v)
    if op == "clip":
        l, h = f(n.args[0])
        lo, hi = n.data
        return min(max(l, lo), hi), min(max(h, lo), hi)
    if op == "ite":
        a, b = f(n.args[1]), f(n.args[2])
        return min(a[0], b[0]), max(a[1], b[1])
    if op == "vec":
        if not n.args:
            return FULL
        v = [f(a) for a in n.args]
        return min(x[0] for x in v), max(x[1] for x in v)
    if op in ("ax", "take", "idx", "T", "scalar", "ravel"):
        return f(n.args[0])
    if op == "interp":
        if any(isinstance(d, Node) for d in (n.data or ())):
            return FULL
        return f(n.args[2])
    if op == "el:abs":
        lo, hi = f(n.args[0])
        if lo <= 0 <= hi:
            return 0.0, max(-lo, hi)
        return min(abs(lo), abs(hi)), max(abs(lo), abs(hi))
    if op == "el:erf":
        lo, hi = f(n.args[0])
        return math.erf(lo), math.erf(hi)
    if op == "el:tanh":
        lo, hi = f(n.args[0])
        return math.tanh(lo), math.tanh(hi)
    if op in ("el:sin", "el:cos", "el:sign"):
        lo, hi = f(n.args[0])
        if op == "el:cos" and 0 <= lo and hi <= math.pi:
            return math.cos(hi), math.cos(lo)
        if op == "el:sin" and -math.pi / 2 <= lo and hi <= math.pi / 2:
            return math.sin(lo), math.sin(hi)
        return -1.0, 1.0
    if op == "el:cosh":
        lo, hi = f(n.args[0])
        try:
            m = math.cosh(max(abs(lo), abs(hi)))
        except OverflowError:
            m = INF
        return (1.0 if lo <= 0 <= hi else math.cosh(min(abs(lo), abs(hi)))), m
    if op == "el:tan":
        lo, hi = f(n.args[0])
        if -math.pi / 2 < lo and hi < math.pi / 2:
            return math.tan(lo), math.tan(hi)
        return FULL
    return FULL


# ---------------------------------------------------------------- expansion
def expansion(n, limit=4000):
    """Polynomial normal form: {frozenset((base,exp)): (coef, sum of the sizes of
    what was added up for it)}; None if too big.
    Bases are non-lin/mul nodes whose own children are left as they are."""
    memo = {}

    def pm(a, b):
        out = {}
        if len(a) * len(b) > limit:
            raise OverflowError
        for m1, (c1, s1) in a.items():
            for m2, (c2, s2) in b.items():
                d = dict(m1)
                for bb, e in m2:
                    d[bb] = d.get(bb, 0.0) + e
                k = frozenset((bb, rc(e)) for bb, e in d.items() if rc(e) != 0)
                v, s = out.get(k, (0.0, 0.0))
                out[k] = v + c1 * c2, s + s1 * s2
        return out

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "const":
            r = {frozenset(): (x.data, abs(x.data))} if x.data else {}
        elif x.op == "lin":
            r = {frozenset(): (x.data, abs(x.data))} if x.data else {}
            for a, k in x.args:
                for m, (c, z) in go(a).items():
                    v, s = r.get(m, (0.0, 0.0))
                    r[m] = v + k * c, s + abs(k) * z
        elif x.op == "mul":
            r = {frozenset(): (1.0, 1.0)}
            for a, e in x.args:
                if isint(e) and 0 < e <= 4 and a.op == "lin":
                    for _ in range(int(e)):
                        r = pm(r, go(a))
                else:
                    r = pm(r, {frozenset([(a, e)]): (1.0, 1.0)})
        else:
            r = {frozenset([(x, 1.0)]): (1.0, 1.0)}
        memo[x] = r
        return r

    try:
        return go(n)
    except OverflowError:
        return None


#: coefficients that cancel to this part of what was added up are rounding
CANCEL = 1e-10


def expand(n, limit=4000):
    p = expansion(n, limit)
    return None if p is None else {k: v for k, (v, s) in p.items() if abs(v) > CANCEL * s}


_norm = {}


def norm(n):
    """The graph with every sum of products multiplied out, inside out."""
    r = _norm.get(n)
    if r is None:
        if not n.kids():
            r = n
        else:
            r = rebuild(n, norm)
            if r.op in ("lin", "mul"):
                p = expand(r, 300)
                if p is not None:
                    r = add(*[scale(mul(*[power(b, const(e)) for b, e in m]), c) for m, c in p.items()])
        _norm[n] = r
    return r


def same(a, b):
    """True if a and b are provably equal."""
    if a is b:
        return True
    if sub(a, b) is ZERO:
        return True
    p, q = expansion(a), expansion(b)
    if p is None or q is None:
        return False
    for k in set(p) | set(q):
        (v, s), (u, t) = p.get(k, (0.0, 0.0)), q.get(k, (0.0, 0.0))
        if abs(v - u) > CANCEL * max(s, t):
            return False
    return True


def show(n, depth=6):
    if depth == 0:
        return "…"
    op = n.op
    s = lambda x: show(x, depth - 1)
    if op == "const":
        return "%g" % n.data
    if op == "param":
        return "%s" % n.data[0]
    if op == "cell":
        return "%s[%d]" % (n.data[1], n.data[2])
    if op == "col":
        return "%s" % n.data[1] + ("" if n.data[2] is None else "[%d rows]" % len(n.data[2]))
    if op in ("arg", "data", "ambient"):
        return "%s:%s" % (op, ".".join(str(d) for d in n.data[:1]))
    if op == "lin":
        ps = ["%s" % s(a) if k == 1 else "%g*%s" % (k, s(a)) for a, k in n.args]
        if n.data:
            ps.append("%g" % n.data)
        return "(" + " + ".join(ps) + ")"
    if op == "mul":
        return "·".join(s(a) if e == 1 else "%s^%g" % (s(a), e) for a, e in n.args)
    if op == "ite":
        return "if(%s; %s; %s)" % tuple(s(a) for a in n.args)
    if op == "lt0":
        return "(%s<0)" % s(n.args[0])
    if op == "eq0":
        return "(%s=0)" % s(n.args[0])
    if op == "unk":
        return "?%s" % (n.data,)
    if op == "clip":
        return "clip(%s,%g,%g)" % (s(n.args[0]), n.data[0], n.data[1])
    if op == "vec":
        if len(n.args) > 6:
            return "[%s, … %d]" % (s(n.args[0]), len(n.args))
        return "[%s]" % ", ".join(s(a) for a in n.args)
    if op == "bparam" or op == "isnone":
        return "%s:%s" % (op, n.data)
    return "%s(%s)" % (op.replace("el:", ""), ", ".join(s(a) for a in n.args))
