"""Equality of two value graphs by case analysis over their conditions.

The domain is split at the conditions (comparisons, minima, maxima, clips) that
stand outermost in the difference of the two graphs; in each region the graphs
are simplified under the region's bounds and compared in normal form.  Regions
in which the normal forms differ are probed in the interval domain; a region
with disjoint intervals refutes the equality."""
from . import box
from . import graph as g

INF = float("inf")
_br = {}


def branchy(n):
    """Does the graph contain a condition?"""
    r = _br.get(n)
    if r is None:
        stack = [n]
        while stack:
            x = stack[-1]
            if x in _br:
                stack.pop()
                continue
            if x.op in ("lt0", "eq0", "ite", "min", "max", "clip", "isnan", "and", "or", "not", "bparam"):
                _br[x] = True
                stack.pop()
                continue
            todo = [k for k in x.kids() if k not in _br]
            if todo:
                stack.extend(todo)
                continue
            _br[x] = any(_br[k] for k in x.kids())
            stack.pop()
        r = _br[n]
    return r


_keys = {}


def linkey(e):
    """e = k (K - c) with K a normalised combination of unknown quantities:
    (K, c, sign of k); K is () when e is a known number c."""
    r = _keys.get(e)
    if r is not None:
        return r
    c, ts = g.terms(g.norm(e))
    rest = []
    for t, k in ts.items():
        v = g.known(t)
        if isinstance(v, float):
            c += k * v
        else:
            rest.append((t, k))
    if not rest:
        r = (), c, 1
    else:
        rest.sort(key=lambda x: x[0].id)
        k0 = rest[0][1]
        r = tuple((t, g.rc(k / k0)) for t, k in rest), -c / k0, 1 if k0 > 0 else -1
    _keys[e] = r
    return r


class Region:
    """Bounds on normalised combinations, and truth of opaque conditions."""

    def __init__(self, bounds=None, truth=None, point=None):
        self.bounds = bounds or {}      # K -> (lo, strict, hi, strict)
        self.truth = truth or {}        # condition -> TRUE / FALSE
        self.point = point or {}        # atom -> const
        self.memo = {}

    def bound(self, K):
        b = self.bounds.get(K)
        if b is None:
            lo, hi = 0.0, 0.0
            for t, k in K:
                a, z = g.iv(t)
                x, y = (k * a, k * z) if k > 0 else (k * z, k * a)
                lo += x if k else 0.0
                hi += y if k else 0.0
            b = (lo if lo == lo else -INF, False, hi if hi == hi else INF, False)
        return b

    def sign(self, e):
        """-1 (e < 0), 0 (e >= 0), 2 (e == 0), 1 (e > 0), -2 (e <= 0) or None."""
        if e.op == "const":
            return -1 if e.data < 0 else 1 if e.data > 0 else 2
        K, c, s = linkey(e)
        if not K:
            return -1 if c < 0 else 1 if c > 0 else 2
        lo, ls, hi, hs = self.bound(K)
        tol = 1e-10 * (1e-6 + abs(c))
        if abs(lo - c) <= tol and abs(hi - c) <= tol and not ls and not hs:
            return 2
        if lo > c + tol or (abs(lo - c) <= tol and ls):
            return s
        if hi < c - tol or (abs(hi - c) <= tol and hs):
            return -s
        if abs(lo - c) <= tol:
            return 0 if s > 0 else -2
        if abs(hi - c) <= tol:
            return -2 if s > 0 else 0
        return None

    def with_sign(self, e, neg):
        """Subregion where e < 0 (neg) or e >= 0; None when empty."""
        K, c, s = linkey(e)
        lo, ls, hi, hs = self.bound(K)
        if (s > 0) == neg:      # K < c   or   K <= c
            strict = neg
            if c < hi or (c == hi and strict):
                hi, hs = c, strict
        else:
            strict = neg
            if c > lo or (c == lo and strict):
                lo, ls = c, strict
        if lo > hi or (lo == hi and (ls or hs)):
            return None
        r = Region({**self.bounds, K: (lo, ls, hi, hs)}, self.truth, self.point)
        if lo == hi and len(K) == 1 and K[0][0].op in ("param", "arg"):
            r.point = {**self.point, K[0][0]: g.const(lo)}
        return r

    def equal0(self, e):
        K, c, s = linkey(e)
        if not K:
            return None
        r = Region({**self.bounds, K: (c, False, c, False)}, self.truth, self.point)
        if len(K) == 1 and K[0][0].op in ("param", "arg"):
            r.point = {**self.point, K[0][0]: g.const(c)}
        return r

    def with_truth(self, c, v):
        return Region(self.bounds, {**self.truth, c: v}, self.point)

    # ------------------------------------------------------------ simplification
    def simp(self, n):
        if n in self.memo:
            return self.memo[n]
        if not branchy(n) and not self.point:
            return n
        r = self.memo[n] = self._simp(n)
        return r

    def _simp(self, n):
        op = n.op
        if n in self.truth:
            return self.truth[n]
        if n in self.point:
            return self.point[n]
        if op == "ite":
            c = self.simp(n.args[0])
            if c is g.TRUE:
                return self.simp(n.args[1])
            if c is g.FALSE:
                return self.simp(n.args[2])
            return g.ite(c, self.simp(n.args[1]), self.simp(n.args[2]))
        if op == "lt0":
            e = self.simp(n.args[0])
            r = g.lt0(e)
            if r.op == "lt0":
                s = self.sign(r.args[0])
                if s == -1:
                    return g.TRUE
                if s is not None and s != -2:
                    return g.FALSE
            return self.truth.get(r, r)
        if op == "eq0":
            e = self.simp(n.args[0])
            r = g.eq(e, g.ZERO)
            if r.op == "eq0":
                s = self.sign(r.args[0])
                if s == 2:
                    return g.TRUE
                if s in (-1, 1):
                    return g.FALSE
            return self.truth.get(r, r)
        if op in ("min", "max"):
            a = [self.simp(x) for x in n.args]
            r = g.minimum(*a) if op == "min" else g.maximum(*a)
            if r.op != op:
                return r
            keep = list(r.args)
            for x in list(keep):
                for y in keep:
                    if x is not y:
                        s = self.sign(g.sub(x, y))
                        if s is not None and (s in (0, 1, 2) if op == "min" else s in (-1, -2, 2)):
                            keep.remove(x)
                            break
            return g.minimum(*keep) if op == "min" else g.maximum(*keep)
        if op == "clip":
            x = self.simp(n.args[0])
            lo, hi = n.data
            r = g.clip(x, g.const(lo), g.const(hi))
            if r.op == "clip":
                sl = self.sign(g.sub(x, g.const(lo)))
                sh = self.sign(g.sub(x, g.const(hi)))
                if sl in (-1, -2, 2):
                    return g.const(lo)
                if sh in (0, 1, 2):
                    return g.const(hi)
                if sl in (0, 1) and sh in (-1, -2):
                    return x
                if sl in (0, 1):
                    return g.minimum(x, g.const(hi))
                if sh in (-1, -2):
                    return g.maximum(x, g.const(lo))
            elif r.op in ("min", "max"):
                s = self.sign(g.sub(*r.args))
                if s is not None:
                    lower = s in (-1, -2, 2)
                    return r.args[0] if lower == (r.op == "min") else r.args[1]
            return r
        return g.rebuild(n, self.simp)


def outer(n, skip=()):
    """The first condition met outside-in: ("lt0"|"eq0"|"c", node)."""
    seen = set()
    level = [n]
    soft = None
    while level:
        nxt = []
        for x in level:
            if x in seen or not branchy(x):
                continue
            seen.add(x)
            if x.op == "ite":
                c = atom_of(x.args[0])
                if c is not None and c not in skip:
                    return inner(c, skip)
            elif x.op in ("lt0", "eq0", "isnan", "bparam"):
                if x not in skip:
                    return inner(x, skip)
            elif x.op in ("min", "max"):
                if soft is None:
                    c = g.lt0(g.sub(x.args[0], x.args[1]))
                    if c.op == "lt0" and c not in skip:
                        soft = c
            elif x.op == "clip":
                if soft is None:
                    for v in x.data:
                        c = g.lt0(g.sub(x.args[0], g.const(v)))
                        if c.op == "lt0" and c not in skip:
                            soft = c
                            break
            nxt.extend(x.kids())
        level = nxt
    return soft


def inner(c, skip):
    """A condition that chooses the operand of c, or else c."""
    if c.op in ("lt0", "eq0", "isnan") and gated(c.args[0]):
        d = outer(c.args[0], skip)
        if d is not None:
            return d
    return c


_gated = {}


def gated(n):
    """Does the graph contain a choice between values?"""
    r = _gated.get(n)
    if r is None:
        r = _gated[n] = branchy(n) and (n.op == "ite" or any(gated(k) for k in n.kids()))
    return r


def atom_of(c):
    while c.op in ("not", "and", "or"):
        c = c.args[0]
    if c.op == "ite":
        return atom_of(c.args[0])
    if c.op in ("lt0", "eq0", "isnan", "bparam", "isnone") or g.is_bool(c):
        return c
    return None


class Budget:
    def __init__(self, n):
        self.n = n


def reduce(x, y):
    """Pairs whose equality implies x = y (the same operation on them), or None."""
    if x.op == "mul" or y.op == "mul":
        fx, fy = factors(x), factors(y)
        if fx is not None and fy is not None:
            for b in [b for b in fx if fy.get(b) == fx[b]]:
                del fx[b], fy[b]
            return paired([(b, e) for b, e in fx.items()], [(b, e) for b, e in fy.items()])
    if x.op == "lin" or y.op == "lin":
        (cx, tx), (cy, ty) = g.terms(x), g.terms(y)
        if abs(cx - cy) <= 1e-10 * abs(cx):
            for t in [t for t in tx if ty.get(t) == tx[t]]:
                del tx[t], ty[t]
            return paired(list(tx.items()), list(ty.items()))
        return None
    if x.op != y.op or x.data != y.data or len(x.args) != len(y.args) or not x.args:
        return None
    if x.op in ("min", "max"):
        a = [t for t in x.args if t not in y.args]
        b = [t for t in y.args if t not in x.args]
        return paired([(t, 1) for t in a], [(t, 1) for t in b])
    if x.op in ("exp", "log", "pow", "clip", "vec", "interp", "idx", "isnan", "lt0", "eq0", "not") or x.op.startswith("el:"):
        return [(a, b) for a, b in zip(x.args, y.args) if a is not b]
    if x.op == "ite" and x.args[0] is y.args[0]:
        return [(a, b) for a, b in zip(x.args[1:], y.args[1:]) if a is not b]
    return None


def factors(n):
    if n.op == "mul":
        return dict(n.args)
    return None if n.op == "lin" and not n.data and len(n.args) == 1 else {n: 1.0}


def paired(a, b):
    """Pairing of equal-weight operands of the same kind."""
    if len(a) != len(b) or len(a) > 4:
        return None
    out, b = [], list(b)
    for t, k in a:
        for u in b:
            if abs(u[1] - k) <= 1e-10 * abs(k) and likely(t, u[0]):
                out.append((t, u[0]))
                b.remove(u)
                break
        else:
            return None
    return out


_like = []


def likely(t, u):
    """Could the two be equal (same value on the first probes)?"""
    if not _like:
        _like.extend(list(box.boxes(3)))
    return box.apart(t, u, _like) is None


_proved = {}


def prove(x, y, base, budget, full, depth=12):
    if x is y:
        return True
    r = _proved.get((x, y))
    if r is not None:
        return r
    r = False
    if leaf_same(x, y):
        r = True
    elif depth and budget.n > 0 and likely(x, y):
        ps = reduce(x, y)
        if ps and not (len(ps) == 1 and ps[0] == (x, y)):
            r = all(prove(p, q, base, budget, full, depth - 1) for p, q in ps)
        if not r:
            r = regions(x, y, base, budget, full, False, depth - 1)[0] is True
    _proved[x, y] = r
    return r


def compare(a, b, base, budget, full=400):
    """(True, None), (False, box) or (None, None)."""
    if a is b:
        return True, None
    if g.has_unk(a) or g.has_unk(b):
        return None, None
    bx = box.apart(a, b, base)
    if bx is not None:
        return False, bx
    if prove(a, b, base, budget, full):
        return True, None
    return regions(a, b, base, budget, full)


def leaf_same(x, y):
    return g.same(x, y) or g.same(g.norm(x), g.norm(y))


def regions(a, b, base, budget, full, refute=True, depth=12):
    left = [min(full, budget.n)]
    res = True
    stack = [(Region(), a, b, frozenset())]
    tried = 0
    first = True
    while stack:
        if left[0] <= 0:
            return None, None
        left[0] -= 1
        budget.n -= 1
        reg, x, y, skip = stack.pop()
        x, y = reg.simp(x), reg.simp(y)
        if leaf_same(x, y):
            continue
        if not first and depth > 0:
            ps = reduce(x, y)
            if ps and all(prove(p, q, base, budget, full, depth - 1) for p, q in ps):
                continue
        first = False
        d = g.sub(g.norm(x), g.norm(y))
        c = outer(d, skip)
        if c is None and (x.op == "nan") != (y.op == "nan"):
            c = outer(x if y.op == "nan" else y, skip)
        if c is None:
            res = None
            if not refute:
                return None, None
            if tried < 40:
                tried += 1
                for bx in boxes_in(reg, base):
                    if box.disjoint(bx.get(a), bx.get(b), 1e-6):
                        return False, bx
            continue
        if c.op == "lt0":
            e = c.args[0]
            if not linkey(e)[0]:
                return None, None
            subs = [reg.with_sign(e, True), reg.with_sign(e, False)]
        elif c.op == "eq0":
            r1 = reg.equal0(c.args[0])
            subs = [r1, reg.with_truth(c, g.FALSE)]
            skip = skip | {c}
        else:
            subs = [reg.with_truth(c, g.TRUE), reg.with_truth(c, g.FALSE)]
            skip = skip | {c}
        for r in subs:
            if r is not None:
                stack.append((r, x, y, skip))
    return res, None


def boxes_in(reg, base):
    """Probe boxes moved into a region, one input at a time."""
    for bx in base:
        rg = dict(bx.ranges)
        for K, (lo, ls, hi, hs) in reg.bounds.items():
            put(rg, K, lo, ls, hi, hs)
        bad = outside(reg, rg)
        for _ in range(6):
            if not bad:
                break
            best = None
            for new in moves(rg, bad[0], reg.bounds[bad[0]]):
                b2 = outside(reg, new)
                if bad[0] not in b2 and (best is None or len(b2) < len(best[1])):
                    best = new, b2
            if best is None:
                break
            rg, bad = best
        yield box.Box(rg)


def value(b, K):
    cur = 0.0
    for t, k in K:
        v = b.get(t)
        if isinstance(v, list) or v is box.NANV or v[0] in (INF, -INF) or v[0] != v[0]:
            return None
        cur += k * v[0]
    return cur


def holds(cur, lo, ls, hi, hs):
    return cur is not None and (lo < cur or not ls and lo == cur) and (cur < hi or not hs and cur == hi)


def outside(reg, rg):
    """The bounds of the region that a point does not fulfil."""
    b = box.Box(rg)
    return [K for K, bd in reg.bounds.items() if not holds(value(b, K), *bd)]


def moves(rg, K, bd):
    """Points that differ in one input and fulfil a bound, by bisection."""
    b = box.Box(rg)
    cur = value(b, K)
    if cur is None:
        return
    want = target(cur, bd[0], bd[2], bd[1], bd[3], rg.get("#", 0))
    atoms = sorted({d for t, _ in K for d in g.deps(t) if d.op == "arg" or d.op == "param" and d.data[0] in rg}, key=lambda d: d.id)
    # a maximum (minimum) needs all of its operands below (above)
    if len(K) == 1 and K[0][0].op in ("min", "max") and all(x.op in ("arg", "param") for x in K[0][0].args):
        up = K[0][0].op == "max"
        new = dict(rg)
        w = want / K[0][1]
        for i, d in enumerate(K[0][0].args):
            v = b.get(d)
            if not isinstance(v, list) and v is not box.NANV and (v[0] > w) == up:
                new[d.data[0] if d.op == "param" else ("arg", d.data[0])] = (w, w)
        yield new
    for d in atoms[:8]:
        key = d.data[0] if d.op == "param" else ("arg", d.data[0])
        at = b.get(d)
        if isinstance(at, list) or at is box.NANV or at[0] <= 0:
            continue

        def f(x):
            v = value(box.Box(dict(rg, **{key: (x, x)}) if isinstance(key, str) else {**rg, key: (x, x)}), K)
            return None if v is None else v - want
        for far in (at[0] * 30, at[0] / 30, at[0] * 1e3, at[0] / 1e3):
            lo, hi = at[0], far
            flo, fhi = f(lo), f(hi)
            if flo is None or fhi is None or flo * fhi > 0:
                continue
            for _ in range(40):
                mid = (lo * hi) ** 0.5
                fm = f(mid)
                if fm is None:
                    break
                if flo * fm <= 0:
                    hi, fhi = mid, fm
                else:
                    lo, flo = mid, fm
            yield {**rg, key: (hi, hi)}
            yield {**rg, key: (lo, lo)}
            break


FRACTION = (0.5, 0.95, 0.1, 0.75, 0.3, 0.98, 0.03, 0.6)


def target(cur, lo, hi, ls, hs, k=0):
    if lo == hi:
        return lo
    if lo < cur < hi:
        return cur
    if lo > -INF and hi < INF:
        return lo + FRACTION[k % 8] * (hi - lo)
    if lo > -INF:
        return lo + 0.07 * (abs(lo) + 0.1)
    return hi - 0.07 * (abs(hi) + 0.1)


def put(rg, K, lo, ls, hi, hs):
    b = box.Box(rg)
    vals = []
    for t, k in K:
        v = b.get(t)
        if isinstance(v, list) or v is box.NANV or v[0] in (INF, -INF):
            return
        vals.append(v[0])
    cur = sum(k * v for (t, k), v in zip(K, vals))
    if lo < cur < hi or (cur == lo == hi):
        return
    want = target(cur, lo, hi, ls, hs, rg.get("#", 0))
    import math
    for (t, k), v in zip(K, vals):
        new = (want - (cur - k * v)) / k
        if t.op == "param" and t.data[0] in rg or t.op == "arg":
            key = t.data[0] if t.op == "param" else ("arg", t.data[0])
            rg[key] = (new, new)
            return
        if t.op == "log" and t.args[0].op == "param" and t.args[0].data[0] in rg and new < 50:
            rg[t.args[0].data[0]] = (math.exp(new),) * 2
            return
