"""Evaluates a value graph at given parameter values (pure Python).  Used only
by the developer self-test and to print concrete witnesses in reports."""
import math

from . import graph as g

F = {
    "sin": math.sin, "cos": math.cos, "tan": math.tan, "tanh": math.tanh, "sinh": math.sinh, "cosh": math.cosh,
    "arctan": math.atan, "arcsin": math.asin, "arccos": math.acos, "floor": math.floor, "ceil": math.ceil,
    "abs": abs, "sign": lambda x: (x > 0) - (x < 0), "arctan2": math.atan2, "mod": lambda a, b: a % b,
    "floordiv": lambda a, b: a // b, "hypot": math.hypot, "erf": math.erf, "round": round,
}


class CannotEval(Exception):
    pass


def bc(f, *xs):
    n = None
    for x in xs:
        if isinstance(x, list):
            if n is not None and n != len(x):
                raise CannotEval("shape")
            n = len(x)
    if n is None:
        return f(*xs)
    return [bc(f, *[x[i] if isinstance(x, list) else x for x in xs]) for i in range(n)]


def fexp(x):
    try:
        return math.exp(x)
    except OverflowError:
        return math.inf


def flog(x):
    if x > 0:
        return math.log(x)
    return -math.inf if x == 0 else math.nan


def fpow(a, b):
    try:
        if a < 0 and b != int(b):
            return math.nan
        return math.pow(a, b)
    except OverflowError:
        return math.inf
    except ZeroDivisionError:
        return math.inf
    except ValueError:
        return math.inf if a == 0 else math.nan


def interp1(x, xp, fp, left, right):
    if x < xp[0]:
        return fp[0] if left is None else left
    if x > xp[-1]:
        return fp[-1] if right is None else right
    for i in range(len(xp) - 1):
        if x <= xp[i + 1]:
            if x == xp[i + 1]:
                return fp[i + 1]
            return fp[i] + (fp[i + 1] - fp[i]) * (x - xp[i]) / (xp[i + 1] - xp[i])
    return fp[-1]


def evaluate(n, env, memo=None):
    """env: (op, data...) -> float; env["param"] = {name: value}."""
    memo = {} if memo is None else memo

    def ev(n):
        if n in memo:
            return memo[n]
        r = step(n)
        memo[n] = r
        return r

    def step(n):
        op = n.op
        if op == "const":
            return n.data
        if op == "nan":
            return math.nan
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "param":
            return env["param"][n.data[0] if isinstance(n.data, tuple) else n.data]
        if op == "arg":
            return env["arg"][n.data[0]]
        if op in ("cell", "col", "data"):
            k = g.known(n)
            if k is None:
                raise CannotEval(g.show(n))
            return list(k) if isinstance(k, tuple) else k
        if op == "lin":
            c, ts = n.data, None
            return lin(n)
        if op == "mul":
            r = 1.0
            for b, e in n.args:
                r = bc(lambda a, x, e=e: a * fpow(x, e), r, ev(b))
            return r
        a = [ev(x) for x in n.args] if op not in ("ite",) else None
        if op == "exp":
            return bc(fexp, a[0])
        if op == "log":
            return bc(flog, a[0])
        if op == "pow":
            return bc(fpow, *a)
        if op == "min":
            return bc(lambda *x: min(x), *a)
        if op == "max":
            return bc(lambda *x: max(x), *a)
        if op == "clip":
            lo, hi = n.data
            return bc(lambda x: min(max(x, lo), hi), a[0])
        if op == "lt0":
            return bc(lambda x: x < 0, a[0])
        if op == "eq0":
            return bc(lambda x: x == 0, a[0])
        if op == "not":
            return bc(lambda x: not x, a[0])
        if op == "and":
            return bc(lambda *x: all(x), *a)
        if op == "or":
            return bc(lambda *x: any(x), *a)
        if op == "isnan":
            return bc(lambda x: x != x, a[0])
        if op == "ite":
            c = ev(n.args[0])
            if c is True:
                return ev(n.args[1])
            if c is False:
                return ev(n.args[2])
            return bc(lambda c, x, y: x if c else y, c, ev(n.args[1]), ev(n.args[2]))
        if op == "vec":
            return list(a)
        if op == "idx":
            if isinstance(a[0], list):
                return a[0][n.data]
            return a[0]
        if op == "take":
            return [a[0][i] for i in n.data]
        if op == "interp":
            l, r = n.data[:2]
            return bc(lambda x: interp1(x, a[1], a[2], l, r), a[0]) if isinstance(a[0], list) else interp1(a[0], a[1], a[2], l, r)
        if op.startswith("el:"):
            f = F.get(op[3:])
            if f is None:
                raise CannotEval(op)
            return bc(f, *a)
        raise CannotEval(op)

    def lin(n):
        c = n.data
        tot = None
        for k, t in linterms(n):
            x = ev(t)
            tot = bc(lambda x, k=k: k * x, x) if tot is None else bc(lambda s, x, k=k: s + k * x, tot, x)
        return bc(lambda s: s + c, tot)

    return ev(n)


def linterms(n):
    return [(k, t) for t, k in g.terms(n)[1].items()]
