"""Abstract interpreter: evaluates the package's syntax trees over symbolic
values, producing value-dependence graphs, ownership facts and an effect log.
Nothing of the analysed package is imported or executed."""
import ast
import itertools
import builtins
import os
import operator

from . import graph as g
from .values import *

NUMRAW = (int, float)


class Flow:
    """Result of a statement/block: `normal` (store holds that state) with its
    condition, and other exits {kind: (cond, delta, value)} relative to entry."""
    __slots__ = ("normal", "cond", "others")

    def __init__(self, normal=True, cond=g.TRUE, others=None):
        self.normal = normal
        self.cond = cond
        self.others = others or {}


class Effect:
    __slots__ = ("kind", "where", "what", "path", "x", "addr", "kv", "cell")

    def __init__(self, kind, where, what, path, x=None):
        self.addr = None
        self.kv = None          # (key, value) of a dict store
        self.cell = None        # store key of the written class or module variable
        self.kind = kind
        self.where = where      # (file, function, line)
        self.what = what
        self.path = path
        self.x = x

    def loc(self):
        return "%s:%s:%s" % self.where

    def __repr__(self):
        return "Effect(%s %s %s)" % (self.kind, self.loc(), self.what)


class Frame:
    __slots__ = ("func", "mod", "env", "parents", "globals_", "nonlocals", "cls", "locals_", "yields")

    def __init__(self, func, mod, env, parents, cls=None, locals_=None):
        self.func = func
        self.mod = mod
        self.env = env            # addr of local env
        self.parents = parents    # tuple of enclosing env addrs (inner first)
        self.globals_ = set()
        self.nonlocals = set()
        self.cls = cls
        self.locals_ = locals_ or set()
        self.yields = None


def israw(v):
    return v is None or isinstance(v, (bool, int, float, str, bytes)) or v is Ellipsis


def isnumraw(v):
    return isinstance(v, (bool, int, float))


class Interp:
    MAXDEPTH = 60
    MAXUNROLL = 4000

    def __init__(self, pkgdir, pkgname="pygmm"):
        self.pkgdir = pkgdir
        self.pkg = pkgname
        self.store = {}
        self.undo = []
        self.path = []
        self.pathset = {}
        self.effects = []
        self.phase = "init"
        self.nextaddr = 1
        self.owner = {}
        self.meta = {}          # arr addr -> {'storage': frozenset, ...}
        self.sowner = {}        # storage -> (kind, desc)
        self.aliases = {}       # storage -> list of arr addrs
        self.modules = {}
        self.modstate = {}
        self.frames = []
        self.stack = []         # (file, func, line)
        self.cur = ("?", "?", 0)
        self.active = []        # recursion detection
        self.trystack = []
        self.touched = set()    # functions analysed
        self.calls = 0
        self.unknowns = {}      # reason -> count
        self.tables = {}
        self.data_reads = set()
        self.opened_files = {}
        self.filehooks = {}
        self.stmt_marks = [0]
        self.modfile = {}
        self.shims = {}
        from . import lib
        self.lib = lib.Lib(self)

    # ------------------------------------------------------------ store
    def new(self, owner=None):
        a = self.nextaddr
        self.nextaddr += 1
        self.owner[a] = owner or self.default_owner()
        return a

    def default_owner(self):
        if self.phase == "init":
            return ("shared", "%s" % (self.cur[0],))
        return ("case", "")

    def set(self, key, val):
        old = self.store.get(key, MISSING)
        if old is val:
            return
        self.undo.append((key, old))
        if val is MISSING:
            self.store.pop(key, None)
        else:
            self.store[key] = val

    def get(self, key, default=MISSING):
        return self.store.get(key, default)

    def mark(self):
        return len(self.undo)

    def rollback(self, m):
        while len(self.undo) > m:
            k, old = self.undo.pop()
            if old is MISSING:
                self.store.pop(k, None)
            else:
                self.store[k] = old

    def delta(self, m):
        keys = {}
        for k, old in self.undo[m:]:
            keys.setdefault(k, old)
        return {k: self.store.get(k, MISSING) for k in keys}

    def capture(self, m):
        d = self.delta(m)
        self.rollback(m)
        return d

    def apply(self, d):
        for k, v in d.items():
            self.set(k, v)

    def value_at(self, k, m):
        for kk, old in self.undo[m:]:
            if kk == k:
                return old
        return self.store.get(k, MISSING)

    # ------------------------------------------------------------ log
    def note(self, kind, what, x=None):
        e = Effect(kind, self.cur, what, tuple(self.path), x)
        self.effects.append(e)
        return e

    def unknown(self, reason, *deps):
        r = "%s @%s:%s" % (reason, self.cur[0], self.cur[2])
        self.unknowns[r] = self.unknowns.get(r, 0) + 1
        return g.unk(reason + "@" + "%s:%s" % self.cur[:2], *self.depnodes(deps))

    def depnodes(self, vals):
        out = []
        for v in vals:
            out.extend(self.nodes_of(v))
        return out

    def nodes_of(self, v, seen=None):
        seen = set() if seen is None else seen
        if isinstance(v, g.Node):
            return [v]
        if isinstance(v, Num) or isinstance(v, Unk):
            return [v.node]
        if isnumraw(v):
            return [g.const(v)]
        if isinstance(v, Arr):
            return list(self.content_nodes(self.content(v)))
        if isinstance(v, (U, D)):
            return list(self.content_nodes(v))
        if isinstance(v, (Tup, GenV)):
            return [n for i in v.items for n in self.nodes_of(i, seen)]
        if isinstance(v, (list, tuple)):
            return [n for i in v for n in self.nodes_of(i, seen)]
        if isinstance(v, (ListV, SetV)):
            if v.addr in seen:
                return []
            seen.add(v.addr)
            return [n for i in self.get((v.addr, "i"), ()) for n in self.nodes_of(i, seen)]
        if isinstance(v, DictV):
            if v.addr in seen:
                return []
            seen.add(v.addr)
            return [n for _, i in self.get((v.addr, "i"), ()) for n in self.nodes_of(i, seen)]
        if isinstance(v, Gate):
            return [v.cond] + self.nodes_of(v.a, seen) + self.nodes_of(v.b, seen)
        if isinstance(v, StrT):
            return [n for i in v.parts for n in self.nodes_of(i, seen)]
        if isinstance(v, ExtObj):
            return [n for i in v.p.values() for n in self.nodes_of(i, seen)]
        if isinstance(v, RecArr):
            return [n for _, i in v.fields for n in self.nodes_of(i, seen)]
        if isinstance(v, Inst):
            if v.addr in seen:
                return []
            seen.add(v.addr)
            out = []
            for k, val in self.attrs(v.addr).items():
                out += self.nodes_of(val, seen)
            return out
        return []

    def content_nodes(self, c):
        if isinstance(c, U):
            return [c.node]
        return c.cells

    def attrs(self, addr):
        """All attributes of an instance (name -> value)."""
        idx = self.get((addr, "names"), ())
        return {n: self.store[(addr, "a", n)] for n in idx if (addr, "a", n) in self.store}

    def setattr_raw(self, addr, name, val):
        idx = self.get((addr, "names"), ())
        if name not in idx:
            self.set((addr, "names"), idx + (name,))
        self.set((addr, "a", name), val)

    def getattr_raw(self, addr, name):
        return self.get((addr, "a", name))

    # ------------------------------------------------------------ arrays
    def arr(self, content, storage=None, base=None):
        a = self.nextaddr
        self.nextaddr += 1
        if storage is None:
            s = a
            self.sowner[s] = self.default_owner()
            storage = frozenset([s])
        self.meta[a] = {"storage": storage, "base": base}
        self.owner[a] = None
        for s in storage:
            self.aliases.setdefault(s, []).append(a)
        self.set((a, "c"), content)
        return Arr(a)

    def content(self, v):
        """Content (U/D) of a numeric value; raises TypeError for others."""
        if isinstance(v, Arr):
            return self.get((v.addr, "c"))
        if isinstance(v, Num):
            return U(v.node, ())
        if isinstance(v, Unk):
            return U(v.node, None)
        if isnumraw(v):
            return U(g.const(v), ())
        if isinstance(v, (ListV, Tup, GenV)):
            return self.stack_content([self.content(i) for i in self.items(v)])
        if isinstance(v, (U, D)):
            return v
        if isinstance(v, Gate):
            r = self.resolve(v)
            if not isinstance(r, Gate):
                return self.content(r)
            return self.join_content(r.cond, self.content(r.a), self.content(r.b))
        if isinstance(v, RecArr):
            return self.stack_content([self.content(x) for _, x in v.fields])
        if isinstance(v, Inst) and v.cls.name == "MaskedArray":
            return self.content(self.getattr_raw(v.addr, "data"))
        return U(g.unk("not a number: " + type(v).__name__), None)

    def stack_content(self, cs):
        """np.array([c0, c1, ...])"""
        if not cs:
            return D((0,), ())
        if all(isinstance(c, U) and c.shape == () for c in cs):
            return D((len(cs),), [c.node for c in cs])
        if all(c.shape is not None for c in cs):
            shp = None
            ok = True
            for c in cs:
                if shp is None:
                    shp = c.shape
                ok = ok and c.shape == shp
            if ok and self.size(shp) * len(cs) <= 20000 and all(isinstance(c, D) for c in cs):
                cells = []
                for c in cs:
                    cells.extend(c.cells)
                return D((len(cs),) + shp, cells)
            if ok:
                return U(g.mk("mat2", tuple(self.unode(c) for c in cs)), (len(cs),) + shp)
        return U(g.mk("mat2", tuple(self.unode(c) for c in cs)), None)

    @staticmethod
    def size(shape):
        n = 1
        for s in shape:
            n *= s
        return n

    def unode(self, c):
        """Collapse a content to one node."""
        if isinstance(c, U):
            return c.node
        if len(c.shape) == 0:
            return c.cells[0]
        if len(c.shape) == 1:
            if len(c.cells) and all(x is c.cells[0] for x in c.cells) and c.cells[0].op == "const":
                return c.cells[0]
            return g.vec(c.cells)
        n = self.size(c.shape[1:])
        return g.mk("mat2", tuple(self.unode(D(c.shape[1:], c.cells[i * n:(i + 1) * n])) for i in range(c.shape[0])))

    def densify(self, c, shape=None):
        if isinstance(c, D):
            return c
        if c.shape == ():
            return D((), (c.node,))
        if c.shape is not None and len(c.shape) == 1 and c.shape[0] <= 400:
            return D(c.shape, [g.index(c.node, i) for i in range(c.shape[0])])
        return None

    def bshape(self, shapes):
        out = ()
        for s in shapes:
            if s is None:
                return None
            a, b = list(out), list(s)
            while len(a) < len(b):
                a.insert(0, 1)
            while len(b) < len(a):
                b.insert(0, 1)
            r = []
            for x, y in zip(a, b):
                if x == y or y == 1:
                    r.append(x)
                elif x == 1:
                    r.append(y)
                else:
                    raise AbsRaise(ExcV("ValueError", ("operands could not be broadcast",)))
            out = tuple(r)
        return out

    def bcells(self, d, shape):
        """cells of dense d broadcast to shape"""
        if d.shape == shape:
            return d.cells
        ds = (1,) * (len(shape) - len(d.shape)) + d.shape
        strides = []
        acc = 1
        for s in reversed(ds):
            strides.append(0 if s == 1 else acc)
            acc *= s
        strides.reverse()
        out = []
        idx = [0] * len(shape)
        n = self.size(shape)
        for _ in range(n):
            out.append(d.cells[sum(i * s for i, s in zip(idx, strides))])
            for k in range(len(shape) - 1, -1, -1):
                idx[k] += 1
                if idx[k] < shape[k]:
                    break
                idx[k] = 0
        return out

    def emap(self, f, *cs):
        """Element-wise map of node function f over contents."""
        cs, cand = self.settle(cs)
        if all(isinstance(c, U) for c in cs):
            try:
                shape = self.bshape([c.shape for c in cs])
            except AbsRaise:
                # columns of different tables: keep the error visible
                raise
            return U(f(*[c.node for c in cs]), shape, cand)
        if any(isinstance(c, D) for c in cs):
            known = [c.shape for c in cs]
            if all(s is not None for s in known):
                shape = self.bshape(known)
                if self.size(shape) <= 20000:
                    dn = [self.densify(c) for c in cs]
                    if all(x is not None for x in dn):
                        cols = [self.bcells(x, shape) for x in dn]
                        return D(shape, [f(*t) for t in zip(*cols)])
                return U(f(*[self.unode(c) for c in cs]), shape)
            return U(f(*[self.unode(c) for c in cs]), None)

    def wrap(self, content, scalar):
        """content -> value; scalar results become Num."""
        if scalar:
            if isinstance(content, U):
                return Num(content.node)
            if content.shape == ():
                return Num(content.cells[0])
        return self.arr(content)

    def isarrlike(self, v):
        return isinstance(v, (Arr, ListV, Tup, RecArr, GenV))

    def ewise(self, f, *vals):
        """Apply an element-wise node function to numeric values."""
        for i, v in enumerate(vals):
            if isinstance(v, Gate):
                return self.split(v, lambda x, i=i: self.ewise(f, *(vals[:i] + (x,) + vals[i + 1:])))
        for v in vals:
            if v is None or isinstance(v, (str, StrT, DictV, SetV, Inst, ClassV, FuncV, Bound)):
                raise AbsRaise(ExcV("TypeError", ("unsupported operand %s" % self.tname(v),)))
        if any(isinstance(v, Unk) for v in vals):
            node = f(*[self.unode(self.content(v)) for v in vals if True]) if all(
                self._numeric(v) for v in vals) else self.unknown("op", *vals)
            return Unk(node, "op")
        try:
            cs = [self.content(v) for v in vals]
        except TypeError:
            return Unk(self.unknown("ewise on " + ",".join(type(v).__name__ for v in vals), *vals), "ewise")
        r = self.emap(f, *cs)
        return self.wrap(r, not any(self.isarrlike(v) for v in vals))

    def _numeric(self, v):
        try:
            self.content(v)
            return True
        except TypeError:
            return False

    def storages(self, v):
        return self.meta[v.addr]["storage"]

    def mutate_arr(self, v, content, what):
        """In-place update of an array object."""
        st = self.storages(v)
        for s in st:
            kind, desc = self.sowner[s]
            if kind != "case":
                self.note("mutate-" + kind, what, desc)
        strong = len(st) == 1
        old = self.content(v)
        self.set((v.addr, "c"), content)
        base = self.meta[v.addr].get("base")
        if base is not None:
            baddr, rd, wb = base
            bc = self.get((baddr, "c"))
            try:
                nb = wb(bc, content) if wb else None
            except Exception:
                nb = None
            if nb is None:
                nb = U(self.unknown("view write", bc, content), bc.shape)
            self.set((baddr, "c"), nb)
        done = {v.addr}
        if base is not None:
            done.add(base[0])
        for s in st:
            for a in self.aliases.get(s, ()):
                if a in done or (a, "c") not in self.store:
                    continue
                done.add(a)
                b2 = self.meta[a].get("base")
                if b2 is not None and b2[0] in done and b2[1]:
                    self.set((a, "c"), b2[1](self.get((b2[0], "c"))))
                elif self.meta[a].get("weak") or not strong:
                    o = self.get((a, "c"))
                    self.set((a, "c"), U(self.unknown("alias write", o, content), o.shape))
                elif base is None and b2 is None:
                    o = self.get((a, "c"))
                    self.set((a, "c"), U(self.unknown("alias write", o, content), o.shape))

    def mutate_obj(self, addr, what):
        o = self.owner.get(addr)
        if o and o[0] != "case":
            e = self.note("mutate-" + o[0], what, o[1])
            e.addr = addr
            return e

    # ------------------------------------------------------------ path facts
    def push(self, c):
        self.path.append(c)

    def pop(self):
        self.path.pop()

    def decide(self, c):
        """True/False/None for a boolean node under the current path."""
        if c is g.TRUE:
            return True
        if c is g.FALSE:
            return False
        facts = self.facts()
        r = facts.get(c)
        if r is not None:
            return r
        if c.op == "not":
            r = self.decide(c.args[0])
            return None if r is None else not r
        if c.op == "and":
            rs = [self.decide(a) for a in c.args]
            if any(x is False for x in rs):
                return False
            if all(x is True for x in rs):
                return True
            return None
        if c.op == "or":
            rs = [self.decide(a) for a in c.args]
            if any(x is True for x in rs):
                return True
            if all(x is False for x in rs):
                return False
            return None
        if c.op == "ite":
            d = self.decide(c.args[0])
            if d is not None:
                return self.decide(c.args[1] if d else c.args[2])
        if c.op in ("lt0", "eq0"):
            e = c.args[0]
            for f, pol in facts.items():
                if f.op == "lt0":
                    d = g.sub(e, f.args[0])
                    if d.op == "const":
                        k = d.data
                        if c.op == "lt0":
                            if pol and k <= 0:
                                return True
                            if not pol and k >= 0:
                                return False
                        else:
                            if pol and k <= 0:
                                return False
                            if not pol and k > 0:
                                return False
                    s = g.add(e, f.args[0])
                    if s.op == "const":
                        k = s.data
                        # e = k - f
                        if c.op == "lt0":
                            if pol and k >= 0:
                                return False
                            if not pol and k < 0:
                                return True
                        else:
                            if pol and k >= 0:
                                return False
                            if not pol and k < 0:
                                return False
                elif f.op == "eq0" and pol:
                    d = g.sub(e, f.args[0])
                    if d.op == "const":
                        return d.data < 0 if c.op == "lt0" else d.data == 0
                    s = g.add(e, f.args[0])
                    if s.op == "const":
                        return s.data < 0 if c.op == "lt0" else s.data == 0
        return None

    def facts(self):
        out = {}

        def addf(c, pol):
            if c.op == "not":
                addf(c.args[0], not pol)
                return
            out[c] = pol
            if pol and c.op == "and":
                for a in c.args:
                    addf(a, True)
            if not pol and c.op == "or":
                for a in c.args:
                    addf(a, False)

        for c in self.path:
            addf(c, True)
        return out

    def resolve(self, v):
        while isinstance(v, Gate):
            d = self.decide(v.cond)
            if d is None:
                return v
            v = v.a if d else v.b
        return v

    # ------------------------------------------------------------ joins
    def join(self, c, a, b):
        if a is b:
            return a
        if c is g.TRUE:
            return a
        if c is g.FALSE:
            return b
        if israw(a) and israw(b) and type(a) is type(b) and (a == b or a != a and b != b):
            return a
        na = isinstance(a, Num) or isnumraw(a)
        nb = isinstance(b, Num) or isnumraw(b)
        if na and nb:
            x = a.node if isinstance(a, Num) else g.const(a)
            y = b.node if isinstance(b, Num) else g.const(b)
            return Num(g.ite(c, x, y))
        if isinstance(a, Unk) or isinstance(b, Unk):
            if isinstance(a, (Unk, Num)) and isinstance(b, (Unk, Num)) or na or nb:
                x, y = self.nodes_of(a), self.nodes_of(b)
                if len(x) == 1 and len(y) == 1:
                    return Unk(g.ite(c, x[0], y[0]), "join")
            return Gate(c, a, b)
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.addr == b.addr:
                return a
            ca, cb = self.content(a), self.content(b)
            if ca is MISSING or cb is MISSING:
                return Gate(c, a, b)
            r = self.arr(self.join_content(c, ca, cb), self.storages(a) | self.storages(b))
            self.meta[r.addr]["weak"] = True
            return r
        if isinstance(a, Arr) and nb or na and isinstance(b, Arr):
            ar = a if isinstance(a, Arr) else b
            ca = self.content(a)
            cb = self.content(b)
            if ca is not MISSING and cb is not MISSING:
                r = self.arr(self.join_content(c, ca, cb), self.storages(ar))
                self.meta[r.addr]["weak"] = True
                return r
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.join(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Inst) and isinstance(b, Inst) and a.addr == b.addr:
            return a
        if type(a) is type(b) and isinstance(a, (ListV, DictV, SetV)) and a.addr == b.addr:
            return a
        if isinstance(a, Ext) and a == b:
            return a
        return Gate(c, a, b)

    def join_content(self, c, a, b):
        if a is b or a.same(b):
            return a
        if isinstance(a, D) and isinstance(b, D) and a.shape == b.shape:
            return D(a.shape, [g.ite(c, x, y) for x, y in zip(a.cells, b.cells)])
        if isinstance(a, U) and isinstance(b, U):
            return U(g.ite(c, a.node, b.node), a.shape if a.shape == b.shape else None, self.cands(a, b))
        da, db = self.densify(a), self.densify(b)
        if da is not None and db is not None:
            if da.shape == db.shape:
                return D(da.shape, [g.ite(c, x, y) for x, y in zip(da.cells, db.cells)])
            if da.shape == () or db.shape == ():
                try:
                    shp = self.bshape([da.shape, db.shape])
                    return D(shp, [g.ite(c, x, y) for x, y in zip(self.bcells(da, shp), self.bcells(db, shp))])
                except AbsRaise:
                    pass
        return U(g.ite(c, self.unode(a), self.unode(b)), a.shape if a.shape == b.shape else None, self.cands(a, b))

    def cands(self, *cs):
        """The shapes that one of the contents may have, if known."""
        out = set()
        for c in cs:
            if c.shape is not None:
                out.add(c.shape)
            elif isinstance(c, U) and c.cand:
                out |= c.cand
            else:
                return None
        return frozenset(out)

    def settle(self, cs):
        """Contents with the shape of those that broadcast alike on every path
        filled in, and the possible shapes of the result otherwise."""
        if all(c.shape is not None for c in cs):
            return cs, None
        alts = [self.cands(c) for c in cs]
        if any(a is None for a in alts):
            return cs, None
        n = 1
        for a in alts:
            n *= len(a)
        if n > 64:
            return cs, None
        try:
            res = {self.bshape(combo) for combo in itertools.product(*alts)}
        except AbsRaise:
            return cs, None
        if len(res) == 1:
            (shp,) = res
            if len(shp) == 1:
                return [c if c.shape is not None else U(c.node, shp) for c in cs], None
        return cs, frozenset(res)

    def join_items(self, c, key, a, b):
        """join raw store entries (list/dict items, contents, names)."""
        if a is b:
            return a
        kind = key[1]
        if kind == "c":
            if a is MISSING:
                return b
            if b is MISSING:
                return a
            return self.join_content(c, a, b)
        if kind == "names":
            if a is MISSING:
                return b
            if b is MISSING:
                return a
            return tuple(list(a) + [x for x in b if x not in a])
        if kind == "i":
            if a is MISSING:
                return b
            if b is MISSING:
                return a
            if a and isinstance(a[0], tuple) or b and isinstance(b[0], tuple):
                ka = dict((self.hk(k), (k, v)) for k, v in a)
                kb = dict((self.hk(k), (k, v)) for k, v in b)
                out = []
                for h in list(ka) + [h for h in kb if h not in ka]:
                    if h in ka and h in kb:
                        out.append((ka[h][0], self.join(c, ka[h][1], kb[h][1])))
                    elif h in ka:
                        out.append((ka[h][0], Gate(c, ka[h][1], MISSING)))
                    else:
                        out.append((kb[h][0], Gate(c, MISSING, kb[h][1])))
                return tuple(out)
            if len(a) == len(b):
                return tuple(self.join(c, x, y) for x, y in zip(a, b))
            n = max(len(a), len(b))
            out = []
            for i in range(n):
                x = a[i] if i < len(a) else MISSING
                y = b[i] if i < len(b) else MISSING
                out.append(self.join(c, x, y) if x is not MISSING and y is not MISSING else Gate(c, x, y))
            return tuple(out)
        if kind == "a":
            if a is MISSING and b is MISSING:
                return MISSING
            if a is MISSING or b is MISSING:
                return Gate(c, a, b)
            return self.join(c, a, b)
        return b

    @staticmethod
    def hk(k):
        if isinstance(k, float) and k != k:
            return "nan"
        if isinstance(k, (bool, int, float)):
            return ("n", k)
        if isinstance(k, str) or k is None:
            return ("s", k)
        if isinstance(k, Tup):
            return ("t",) + tuple(Interp.hk(i) for i in k.items)
        if isinstance(k, Num):
            return ("node", k.node.id)
        if isinstance(k, StrT):
            return ("f",) + tuple(Interp.hk(i) for i in k.parts)
        return ("o", id(k))

    def merge_deltas(self, c, d1, d2):
        """Merge two deltas (c ? d1 : d2); the store holds the entry state and
        is left unchanged."""
        base = lambda k: self.store.get(k, MISSING)
        keys = list(d1) + [k for k in d2 if k not in d1]
        m = self.mark()
        for k in keys:
            if k[1] == "c":
                x = d1[k] if k in d1 else base(k)
                y = d2[k] if k in d2 else base(k)
                self.set(k, self.join_items(c, k, x, y))
        out = {}
        for k in keys:
            if k[1] == "c":
                continue
            a = d1[k] if k in d1 else base(k)
            b = d2[k] if k in d2 else base(k)
            # freshly allocated objects on one side only: keep
            if a is MISSING and k[1] != "a" or b is MISSING and k[1] != "a":
                out[k] = b if a is MISSING else a
                continue
            if a is MISSING or b is MISSING:
                # attribute/local of an object allocated in one branch only
                other = (k[0], "names")
                nm = (d2 if a is MISSING else d1)
                if base(other) is MISSING and other in nm and not (other in (d1 if a is MISSING else d2)):
                    out[k] = b if a is MISSING else a
                    continue
            out[k] = self.join_items(c, k, a, b)
        out.update(self.capture(m))
        return out

    def merge_exits(self, c, cc, xa, xb):
        """Merge two exits (cond, delta, value); the store holds the entry state."""
        d = self.merge_deltas(c, xa[1], xb[1])
        if isinstance(xa[2], ExcV):
            return (cc, d, xa[2])
        m = self.mark()
        self.apply(d)
        v = self.join(c, xa[2], xb[2])
        return (cc, self.capture(m), v)

    # ------------------------------------------------------------ forks
    def fork(self, c, fa, fb):
        """Evaluate fa()/fb() under c / not c, join results and states."""
        d = self.decide(c)
        if d is True:
            return fa()
        if d is False:
            return fb()
        m = self.mark()
        exa = exb = None
        va = vb = None
        self.push(c)
        try:
            va = fa()
        except AbsRaise as e:
            exa = e
        finally:
            self.pop()
        da = self.capture(m)
        self.push(g.bnot(c))
        try:
            vb = fb()
        except AbsRaise as e:
            exb = e
        finally:
            self.pop()
        if exa and exb:
            self.may_raise(exa.exc, c)
            raise exb
        if exa:
            self.may_raise(exa.exc, c)
            return vb
        db = self.capture(m)
        if exb:
            self.may_raise(exb.exc, g.bnot(c))
            self.apply(da)
            return va
        self.apply(self.merge_deltas(c, da, db))
        return self.join(c, va, vb)

    def may_raise(self, exc, cond=None):
        p = tuple(self.path) + ((cond,) if cond is not None else ())
        if self.trystack:
            self.trystack[-1].append((exc, p))
        e = Effect("may-raise", getattr(exc, "where", None) or self.cur, exc.type, p, exc)
        self.effects.append(e)

    def split(self, v, f):
        """Distribute f over the alternatives of a Gate."""
        v = self.resolve(v)
        if isinstance(v, Gate):
            return self.fork(v.cond, lambda: self.split(v.a, f), lambda: self.split(v.b, f))
        if v is MISSING:
            raise AbsRaise(ExcV("KeyError", ("missing",)))
        return f(v)

    # ------------------------------------------------------------ modules
    SHIMS = {"collections.UserDict": "UserDict", "collections.abc.Mapping": "Mapping",
             "collections.abc.MutableMapping": "MutableMapping", "typing.Mapping": "Mapping",
             "typing.MutableMapping": "MutableMapping"}

    def ext(self, name):
        """External object; container base classes are analysed source."""
        if name in self.SHIMS:
            if "shim:collections" not in self.modules:
                path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "shim_collections.py")
                self.load_source("shim:collections", path)
            return self.mod_get("shim:collections", self.SHIMS[name])
        return Ext(name)

    def mashim(self, name):
        if "shim:ma" not in self.modules:
            path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "shim_ma.py")
            self.load_source("shim:ma", path)
        return self.mod_get("shim:ma", name)

    def load_module(self, name):
        """name: dotted module name inside the package, or the package."""
        if name in self.modules:
            return self.modules[name]
        if name == self.pkg:
            path = os.path.join(self.pkgdir, "__init__.py")
            pk = True
        else:
            rel = name[len(self.pkg) + 1:].replace(".", "/")
            path = os.path.join(self.pkgdir, rel + ".py")
            pk = False
            if not os.path.exists(path):
                p2 = os.path.join(self.pkgdir, rel, "__init__.py")
                if os.path.exists(p2):
                    path, pk = p2, True
                else:
                    return None
        return self.load_source(name, path, pk)

    def load_source(self, name, path, pk=False):
        with open(path, encoding="utf-8") as fh:
            src = fh.read()
        tree = ast.parse(src, path)
        addr = self.new(("shared", name))
        self.modules[name] = Mod(name)
        self.modstate[name] = addr
        short = os.path.basename(path) if not pk else os.path.relpath(path, os.path.dirname(self.pkgdir))
        self.modfile[name] = (path, short)
        self.setattr_raw(addr, "__name__", name)
        self.setattr_raw(addr, "__file__", path)
        self.setattr_raw(addr, "__package__", name if pk else name.rpartition(".")[0])
        doc = ast.get_docstring(tree)
        self.setattr_raw(addr, "__doc__", doc)
        saved = self.cur, self.phase, self.path
        self.path = []
        fr = Frame(None, name, addr, ())
        self.frames.append(fr)
        self.cur = (short, "<module>", 1)
        try:
            fl = self.block(tree.body, fr)
            if not fl.normal:
                ks = [k for k in fl.others if isinstance(k, tuple)]
                if ks:
                    c, d, v = fl.others[ks[0]]
                    raise AbsRaise(v)
        finally:
            self.frames.pop()
            self.cur, self.phase, self.path = saved
        return self.modules[name]

    def mod_get(self, name, attr):
        addr = self.modstate[name]
        return self.getattr_raw(addr, attr)

    # ------------------------------------------------------------ statements
    def block(self, stmts, fr):
        m0 = self.mark()
        others = {}
        ncond = g.TRUE
        pushed = 0
        try:
            for st in stmts:
                ms = self.mark()
                fl = self.stmt(st, fr)
                if fl is None:
                    continue
                if fl.others:
                    prefix = self.prefix(m0, ms)
                    for kind, (c, d, v) in fl.others.items():
                        self.add_exit(others, kind, (g.band(ncond, c), {**prefix, **d}, v), m0)
                if not fl.normal:
                    self.rollback(m0)
                    return Flow(False, g.FALSE, others)
                if fl.cond is not g.TRUE:
                    ncond = g.band(ncond, fl.cond)
                    self.push(fl.cond)
                    pushed += 1
        finally:
            for _ in range(pushed):
                self.pop()
        return Flow(True, ncond, others)

    def add_exit(self, others, kind, x, m0):
        """Merge exit x (delta relative to mark m0) into others[kind]."""
        y = others.get(kind)
        if y is None:
            others[kind] = x
            return
        saved = self.capture(m0)
        others[kind] = self.merge_exits(y[0], g.bor(y[0], x[0]), y, x)
        self.apply(saved)

    def prefix(self, m0, ms):
        """Entries changed in [m0, ms) with their values at ms."""
        later = {}
        for k, old in self.undo[ms:]:
            later.setdefault(k, old)
        out = {}
        for k, old in self.undo[m0:ms]:
            if k not in out:
                out[k] = later[k] if k in later else self.store.get(k, MISSING)
        return out

    def stmt(self, st, fr):
        self.cur = (self.cur[0], self.cur[1], getattr(st, "lineno", 0))
        meth = getattr(self, "s_" + type(st).__name__, None)
        if meth is None:
            self.unknown("statement " + type(st).__name__)
            return None
        m = self.mark()
        self.stmt_marks.append(m)
        try:
            return meth(st, fr)
        except AbsRaise as e:
            exc = e.exc
            if getattr(exc, "where", None) is None:
                try:
                    exc.where = self.cur
                except AttributeError:
                    pass
            d = self.capture(m)
            return Flow(False, g.FALSE, {("raise", exc.type): (g.TRUE, d, exc)})
        finally:
            self.stmt_marks.pop()

    def s_Expr(self, st, fr):
        self.ev(st.value, fr)

    def s_Pass(self, st, fr):
        pass

    def s_Import(self, st, fr):
        for a in st.names:
            top = a.name.split(".")[0]
            if top == self.pkg:
                v = self.load_module(a.name if a.asname else top)
            else:
                v = Ext(a.name if a.asname else top)
            self.assign_name(a.asname or top, v, fr)

    def s_ImportFrom(self, st, fr):
        if st.level:
            pkg = self.mod_get(fr.mod, "__package__")
            parts = pkg.split(".") if pkg else []
            if st.level > 1:
                parts = parts[: -(st.level - 1)]
            base = ".".join(parts + ([st.module] if st.module else []))
        else:
            base = st.module
        if base == "__future__":
            return
        for a in st.names:
            if base == self.pkg or base.startswith(self.pkg + "."):
                m = self.load_module(base)
                if m is None:
                    raise AbsRaise(ExcV("ModuleNotFoundError", (base,)))
                if a.name == "*":
                    addr = self.modstate[base]
                    for n, v in list(self.attrs(addr).items()):
                        if not n.startswith("_"):
                            self.assign_name(n, v, fr)
                    continue
                v = self.mod_get(base, a.name)
                if v is MISSING:
                    sm = self.load_module(base + "." + a.name)
                    if sm is None:
                        raise AbsRaise(ExcV("ImportError", ("cannot import name %s from %s" % (a.name, base),)))
                    v = sm
            else:
                v = self.ext(base + "." + a.name)
            self.assign_name(a.asname or a.name, v, fr)

    def s_Global(self, st, fr):
        fr.globals_.update(st.names)

    def s_Nonlocal(self, st, fr):
        fr.nonlocals.update(st.names)

    def s_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)

    def s_AugAssign(self, st, fr):
        t = st.target
        op = type(st.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            new = self.inplace(op, cur, self.ev(st.value, fr))
            self.assign_name(t.id, new, fr)
        elif isinstance(t, ast.Attribute):
            obj = self.ev(t.value, fr)
            cur = self.getattr(obj, t.attr)
            new = self.inplace(op, cur, self.ev(st.value, fr))
            self.setattr(obj, t.attr, new)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value, fr)
            idx = self.ev_index(t.slice, fr)
            cur = self.getitem(obj, idx)
            new = self.inplace(op, cur, self.ev(st.value, fr), fresh=True)
            self.setitem(obj, idx, new)

    def inplace(self, op, cur, val, fresh=False):
        cur = self.resolve(cur)
        if isinstance(cur, Gate):
            return self.fork(cur.cond, lambda: self.inplace(op, cur.a, val, fresh), lambda: self.inplace(op, cur.b, val, fresh))
        if isinstance(cur, Arr):
            r = self.binop(op, cur, val)
            try:
                c = self.content(r)
            except TypeError:
                c = U(self.unknown("inplace", cur, val), None)
            if self.meta[cur.addr].get("dt") is not None:
                if op == "Div" or isinstance(val, float):
                    raise AbsRaise(ExcV("TypeError", ("Cannot cast ufunc 'divide' output",)))
                self.lib.uncuttable(cur, c)
            self.mutate_arr(cur, c, "in-place %s of an array" % op)
            return cur
        if isinstance(cur, ListV) and op == "Add":
            self.mutate_obj(cur.addr, "in-place += of a list")
            self.set((cur.addr, "i"), tuple(self.get((cur.addr, "i"), ())) + tuple(self.items(val)))
            return cur
        if isinstance(cur, DictV) and op == "BitOr":
            self.mutate_obj(cur.addr, "in-place |= of a dict")
            for k, v in self.dict_items(val):
                self.dict_set(cur, k, v, quiet=True)
            return cur
        if isinstance(cur, Inst):
            nm = {"Add": "__iadd__", "Sub": "__isub__", "Mult": "__imul__", "BitOr": "__ior__"}.get(op)
            if nm and self.find_class_attr(cur.cls, nm) is not MISSING:
                return self.call(self.getattr(cur, nm), [val], {})
        return self.binop(op, cur, val)

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.set((fr.env, "a", t.id), MISSING)
            elif isinstance(t, ast.Subscript):
                obj = self.ev(t.value, fr)
                idx = self.ev_index(t.slice, fr)
                self.delitem(obj, idx)
            elif isinstance(t, ast.Attribute):
                obj = self.ev(t.value, fr)
                if isinstance(obj, (Inst, ClassV)):
                    self.mutate_obj(obj.addr, "del attribute %s" % t.attr)
                    self.set((obj.addr, "a", t.attr), MISSING)

    def s_Return(self, st, fr):
        v = self.ev(st.value, fr) if st.value is not None else None
        return self._exit("return", v, fr)

    def _exit(self, kind, v, fr):
        # changes made by the statement itself; the enclosing block rolls back
        d = self.delta(self.stmt_marks[-1])
        return Flow(False, g.FALSE, {kind: (g.TRUE, d, v)})

    def s_Break(self, st, fr):
        return self._exit("break", None, fr)

    def s_Continue(self, st, fr):
        return self._exit("continue", None, fr)

    def s_Raise(self, st, fr):
        if st.exc is None:
            raise AbsRaise(getattr(self, "current_exc", None) or ExcV("RuntimeError"))
        v = self.ev(st.exc, fr)
        raise AbsRaise(self.to_exc(v))

    def to_exc(self, v):
        v = self.resolve(v)
        if isinstance(v, ExcV):
            return v
        if isinstance(v, Ext):
            return ExcV(v.name.split(".")[-1])
        if isinstance(v, ClassV):
            e = ExcV(v.name)
            return e
        if isinstance(v, Inst):
            return ExcV(v.cls.name)
        return ExcV("Exception")

    def s_Assert(self, st, fr):
        c = self.truth(self.ev(st.test, fr))
        d = self.decide(c)
        if d is True:
            return None
        if d is False:
            raise AbsRaise(ExcV("AssertionError"))
        return Flow(True, c, {("raise", "AssertionError"): (g.bnot(c), {}, ExcV("AssertionError"))})

    def s_If(self, st, fr):
        c = self.truth(self.ev(st.test, fr))
        d = self.decide(c)
        if d is True:
            return self.block(st.body, fr)
        if d is False:
            return self.block(st.orelse, fr)
        return self.branch(c, lambda: self.block(st.body, fr), lambda: self.block(st.orelse, fr))

    def branch(self, c, ba, bb):
        m = self.mark()
        self.push(c)
        try:
            fa = ba()
        finally:
            self.pop()
        da = self.capture(m) if fa.normal else (self.rollback(m) or {})
        nc = g.bnot(c)
        self.push(nc)
        try:
            fb = bb()
        finally:
            self.pop()
        db = self.capture(m) if fb.normal else (self.rollback(m) or {})
        base = lambda k: self.store.get(k, MISSING)
        others = {}
        for kind in list(fa.others) + [k for k in fb.others if k not in fa.others]:
            xa = fa.others.get(kind)
            xb = fb.others.get(kind)
            if xa and xb:
                cc = g.bor(g.band(c, xa[0]), g.band(nc, xb[0]))
                others[kind] = self.merge_exits(c, cc, xa, xb)
            elif xa:
                others[kind] = (g.band(c, xa[0]), xa[1], xa[2])
            else:
                others[kind] = (g.band(nc, xb[0]), xb[1], xb[2])
        if fa.normal and fb.normal:
            cond = g.bor(g.band(c, fa.cond), g.band(nc, fb.cond))
            self.apply(self.merge_deltas(c, da, db))
            return Flow(True, cond, others)
        if fa.normal:
            self.apply(da)
            return Flow(True, g.band(c, fa.cond), others)
        if fb.normal:
            self.apply(db)
            return Flow(True, g.band(nc, fb.cond), others)
        return Flow(False, g.FALSE, others)

    # -- loops
    def s_For(self, st, fr):
        it = self.ev(st.iter, fr)
        items = self.try_items(it)
        if items is None or len(items) > self.MAXUNROLL:
            return self.havoc_loop(st, fr, it)
        return self.unroll(st, fr, items, lambda item: self.assign(st.target, item, fr))

    def unroll(self, st, fr, items, bind):
        """Unrolled loop as a block of iterations."""
        m0 = self.mark()
        others = {}
        brk = None
        ncond = g.TRUE
        pushed = 0
        normal = True
        try:
            for item in items:
                ms = self.mark()
                if isinstance(item, Gate):
                    item = self.resolve(item)
                if isinstance(item, Gate) and (item.a is MISSING or item.b is MISSING):
                    present = item.cond if item.b is MISSING else g.bnot(item.cond)
                    val = item.a if item.b is MISSING else item.b
                    fl = self.branch(present, lambda: self.bound_body(st, fr, bind, val), lambda: Flow())
                elif item is MISSING:
                    continue
                else:
                    fl = self.bound_body(st, fr, bind, item)
                if fl.others:
                    prefix = self.prefix(m0, ms)
                    for kind, (c, d, v) in fl.others.items():
                        self.add_exit(others, kind, (g.band(ncond, c), {**prefix, **d}, v), m0)
                if not fl.normal:
                    normal = False
                    break
                if fl.cond is not g.TRUE:
                    ncond = g.band(ncond, fl.cond)
                    self.push(fl.cond)
                    pushed += 1
        finally:
            for _ in range(pushed):
                self.pop()
        brk = others.pop("break", None)
        if normal and getattr(st, "orelse", None):
            ms = self.mark()
            fl = self.block(st.orelse, fr)
            if not fl.normal:
                normal = False
            prefix = self.prefix(m0, ms)
            for kind, (c, d, v) in fl.others.items():
                self.add_exit(others, kind, (g.band(ncond, c), {**prefix, **d}, v), m0)
            ncond = g.band(ncond, fl.cond)
        if brk is not None:
            if not normal:
                self.rollback(m0)
                self.apply(brk[1])
                return Flow(True, brk[0], others)
            dn = self.capture(m0)
            self.apply(self.merge_deltas(brk[0], brk[1], dn))
            return Flow(True, g.bor(brk[0], ncond), others)
        if not normal:
            self.rollback(m0)
        return Flow(normal, ncond, others)

    def bound_body(self, st, fr, bind, item):
        """bind the loop target, run the body; 'continue' completes normally."""
        ms = self.mark()
        bind(item)
        mb = self.mark()
        fl = self.block(st.body, fr)
        pre = self.prefix(ms, mb)
        x = fl.others.pop("continue", None)
        if x is not None:
            c, d, _ = x
            if not fl.normal:
                self.apply(d)
                fl = Flow(True, c, fl.others)
            else:
                dn = self.capture(mb)
                self.apply(self.merge_deltas(c, d, dn))
                fl = Flow(True, g.bor(c, fl.cond), fl.others)
        if fl.others:
            fl.others = {k: (c, {**pre, **d}, v) for k, (c, d, v) in fl.others.items()}
        if not fl.normal:
            self.rollback(ms)
        return fl

    def s_While(self, st, fr):
        n = 0
        m0 = self.mark()
        total = None
        while n < 200:
            c = self.truth(self.ev(st.test, fr))
            d = self.decide(c)
            if d is False:
                return Flow()
            if d is None:
                return self.havoc_loop(st, fr, None)
            fl = self.block(st.body, fr)
            if fl.others or not fl.normal:
                if set(fl.others) <= {"break"} and not fl.normal:
                    self.apply(fl.others["break"][1])
                    return Flow()
                if set(fl.others) <= {"continue"} and not fl.normal:
                    self.apply(fl.others["continue"][1])
                    n += 1
                    continue
                self.rollback(m0)
                return self.havoc_loop(st, fr, None)
            n += 1
        self.rollback(m0)
        return self.havoc_loop(st, fr, None)

    def havoc_loop(self, st, fr, it):
        """Unknown iteration count: run the body once (twice for state) and
        replace everything it changes by opaque values."""
        m0 = self.mark()
        self.unknown("loop with unknown trip count")
        if isinstance(st, (ast.For,)):
            el = Unk(g.unk("element", *self.depnodes([it])), "loop element")
            self.assign(st.target, el, fr)
            cd = []
        else:
            cd = self.nodes_of(self.ev(st.test, fr))
        fl = self.block(st.body, fr)
        d = self.delta(m0) if fl.normal else {}
        for kind, (c, dd, v) in fl.others.items():
            if kind in ("break", "continue"):
                for k, vv in dd.items():
                    d.setdefault(k, vv)
        self.rollback(m0)
        for k, v in d.items():
            old = self.store.get(k, MISSING)
            if k[1] == "c" and isinstance(v, (U, D)):
                ns = list(self.content_nodes(v)) + ([] if old is MISSING else list(self.content_nodes(old)))
                self.set(k, U(g.unk("loop", *(ns + cd)), v.shape))
            elif k[1] == "a":
                ns = self.nodes_of(v) + ([] if old is MISSING else self.nodes_of(old)) + cd
                if isinstance(v, (Num, Unk, Gate)) or isnumraw(v):
                    self.set(k, Unk(g.unk("loop", *ns), "loop"))
                else:
                    self.set(k, v)
            else:
                self.set(k, v)
        others = {}
        for kind, (c, dd, v) in fl.others.items():
            if kind not in ("break", "continue"):
                # may happen under an unknown condition
                cc = g.bnot(g.eq(g.fresh_unk("loop exit"), g.ZERO))
                others[kind] = (cc, dd, v)
        return Flow(True, g.TRUE, others)

    # -- try / with
    def s_Try(self, st, fr):
        m = self.mark()
        self.trystack.append([])
        np = len(self.path)
        try:
            fl = self.block(st.body, fr)
        finally:
            pend = self.trystack.pop()
        raised = {k: x for k, x in fl.others.items() if isinstance(k, tuple) and k[0] == "raise"}
        rest = {k: x for k, x in fl.others.items() if k not in raised}
        out = Flow(fl.normal, fl.cond, dict(rest))
        if fl.normal and st.orelse:
            ms = self.mark()
            fe = self.block(st.orelse, fr)
            pre = self.prefix(m, ms)
            for k, x in fe.others.items():
                self.add_exit(out.others, k, (x[0], {**pre, **x[1]}, x[2]), m)
            if not fe.normal:
                out.normal = False
                self.rollback(m)
        for kind, (c, d, exc) in raised.items():
            h = self.find_handler(st, exc, fr)
            if h is None:
                self.add_exit(out.others, kind, (c, d, exc), m)
                continue
            self.run_handler(h, exc, c, d, m, out, fr)
        for exc, p in pend:
            h = self.find_handler(st, exc, fr)
            if h is not None:
                p = p[np:]
                c = g.band(*p) if p else g.TRUE
                if c is g.TRUE:
                    c = g.bnot(g.eq(g.fresh_unk("exception"), g.ZERO))
                self.run_handler(h, exc, c, {}, m, out, fr)
                # handled: withdraw the may-raise record
                for e in reversed(self.effects):
                    if e.kind == "may-raise" and e.x is exc:
                        self.effects.remove(e)
                        break
            elif self.trystack:
                self.trystack[-1].append((exc, p))
        if st.finalbody:
            if out.normal:
                ff = self.block(st.finalbody, fr)
                if ff.others or not ff.normal:
                    for k, x in ff.others.items():
                        out.others[k] = x
                    out.normal = ff.normal
            for k, (c, d, v) in list(out.others.items()):
                mm = self.mark()
                keep = None
                if out.normal:
                    keep = self.capture(m)
                self.apply(d)
                self.block(st.finalbody, fr)
                d2 = self.delta(m)
                self.rollback(m)
                if keep is not None:
                    self.apply(keep)
                out.others[k] = (c, d2, v)
        return out

    s_TryStar = s_Try

    def run_handler(self, h, exc, c, d, m, out, fr):
        cur = self.capture(m) if out.normal else (self.rollback(m) or None)
        self.apply(d)
        if h.name:
            self.assign_name(h.name, exc, fr)
        saved = getattr(self, "current_exc", None)
        self.current_exc = exc
        self.push(c)
        try:
            fh = self.block(h.body, fr)
        finally:
            self.pop()
            self.current_exc = saved
        dh = {**d, **self.delta(m)} if fh.normal else None
        pre = self.delta(m)
        self.rollback(m)
        base = lambda k: self.store.get(k, MISSING)
        for k, x in fh.others.items():
            dd = {**d, **x[1]}
            if k in out.others:
                y = out.others[k]
                cc = g.band(c, x[0])
                out.others[k] = self.merge_exits(cc, g.bor(y[0], cc), (cc, dd, x[2]), y)
            else:
                out.others[k] = (g.band(c, x[0]), dd, x[2])
        if fh.normal:
            if cur is not None:
                self.apply(self.merge_deltas(c, dh, cur))
                out.cond = g.bor(out.cond, c)
            else:
                self.apply(dh)
                out.normal = True
                out.cond = g.band(c, fh.cond)
        elif cur is not None:
            self.apply(cur)

    def exc_matches(self, exc, names):
        for n in names:
            if n in ("Exception", "BaseException") or n == exc.type:
                return True
            t = getattr(builtins, exc.type, None)
            b = getattr(builtins, n, None)
            if isinstance(t, type) and isinstance(b, type) and issubclass(t, b):
                return True
            if exc.type == "ModuleNotFoundError" and n == "ImportError":
                return True
            c = getattr(exc, "cls", None)
        return False

    def find_handler(self, st, exc, fr):
        for h in st.handlers:
            if h.type is None:
                return h
            try:
                t = self.ev(h.type, fr)
            except AbsRaise:
                continue
            names = []
            for x in (t.items if isinstance(t, Tup) else [t]):
                if isinstance(x, Ext):
                    names.append(x.name.split(".")[-1])
                elif isinstance(x, ClassV):
                    names.append(x.name)
            if self.exc_matches(exc, names):
                return h
        return None

    def s_With(self, st, fr):
        for it in st.items:
            v = self.ev(it.context_expr, fr)
            v = self.lib.enter(v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        return self.block(st.body, fr)

    def s_Match(self, st, fr):
        subj = self.ev(st.subject, fr)

        def cases(i):
            if i == len(st.cases):
                return Flow()
            cs = st.cases[i]
            c = self.pattern(cs.pattern, subj, fr)
            if cs.guard is not None:
                c = g.band(c, self.truth(self.ev(cs.guard, fr)))
            d = self.decide(c)
            if d is True:
                return self.block(cs.body, fr)
            if d is False:
                return cases(i + 1)
            return self.branch(c, lambda: self.block(cs.body, fr), lambda: cases(i + 1))

        return cases(0)

    def pattern(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare("Eq", v, self.ev(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare("Is", v, p.value))
        if isinstance(p, ast.MatchOr):
            return g.bor(*[self.pattern(q, v, fr) for q in p.patterns])
        if isinstance(p, ast.MatchAs):
            c = self.pattern(p.pattern, v, fr) if p.pattern is not None else g.TRUE
            if p.name:
                self.assign_name(p.name, v, fr)
            return c
        if isinstance(p, ast.MatchSequence):
            items = self.try_items(v)
            if items is not None and len(items) == len(p.patterns) and not any(
                    isinstance(q, ast.MatchStar) for q in p.patterns):
                return g.band(*[self.pattern(q, x, fr) for q, x in zip(p.patterns, items)])
        return g.truth(self.unknown("match pattern", v))

    # -- definitions
    def s_FunctionDef(self, st, fr):
        f = self.make_func(st, fr)
        for d in reversed(st.decorator_list):
            f = self.decorate(d, f, fr)
        self.assign_name(st.name, f, fr)

    def s_AsyncFunctionDef(self, st, fr):
        self.unknown("async function")

    def make_func(self, node, fr, name=None):
        a = node.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = {p.arg: self.ev(d, fr) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        # class bodies are not enclosing scopes
        if fr.cls is not None:
            env = fr.parents
        elif fr.func is None:
            env = ()
        else:
            env = (fr.env,) + fr.parents
        nm = name or getattr(node, "name", "<lambda>")
        qual = nm
        if fr.cls is not None:
            qual = fr.cls.name + "." + nm
        elif fr.func is not None:
            qual = fr.func.qual + "." + nm
        cls = fr.cls if fr.cls is not None else (fr.func.cls if fr.func is not None else None)
        f = FuncV(node, fr.mod, env, defaults, kwd, nm, cls, qual)
        f.isgen = not isinstance(node, ast.Lambda) and any(
            isinstance(x, (ast.Yield, ast.YieldFrom)) for s in node.body for x in self.own_nodes(s))
        return f

    @staticmethod
    def own_nodes(n):
        stack = [n]
        while stack:
            x = stack.pop()
            yield x
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(x))

    def decorate(self, dnode, f, fr):
        d = self.ev(dnode, fr) if not (
            isinstance(dnode, ast.Attribute) and dnode.attr in ("setter", "getter", "deleter")) else None
        if d is None:
            p = self.ev(dnode.value, fr)
            if isinstance(p, PropV):
                if dnode.attr == "setter":
                    return PropV(p.fget, f)
                if dnode.attr == "getter":
                    return PropV(f, p.fset)
                return p
        if isinstance(d, Ext):
            n = d.name.split(".")[-1]
            if n == "property":
                return PropV(f)
            if n == "cached_property":
                return PropV(f, cached=True)
            if n == "staticmethod":
                return StaticV(f)
            if n == "classmethod":
                return ClassM(f)
            if n in ("lru_cache", "cache"):
                return self.mark_cached(f)
            if n in ("abstractmethod", "overload", "final", "wraps", "njit", "vectorize", "override"):
                return f
        if isinstance(d, ExtObj) and d.kind in ("lru_cache_deco",):
            return self.mark_cached(f)
        if isinstance(d, ExtObj) and d.kind == "identity_deco":
            return f
        return self.call(d, [f], {})

    def mark_cached(self, f):
        if isinstance(f, FuncV):
            n = FuncV(f.node, f.mod, f.env, f.defaults, f.kwdefaults, f.name, f.cls, f.qual)
            n.cached = True
            n.isgen = f.isgen
            return n
        return f

    def s_ClassDef(self, st, fr):
        bases = [self.ev(b, fr) for b in st.bases]
        addr = self.new(("shared", "%s.%s" % (fr.mod, st.name)) if self.phase == "init" else None)
        c = ClassV(st.name, bases, addr, fr.mod, st)
        c.mro = self.c3(c)
        self.setattr_raw(addr, "__name__", st.name)
        self.setattr_raw(addr, "__qualname__", st.name)
        self.setattr_raw(addr, "__module__", fr.mod)
        self.setattr_raw(addr, "__doc__", ast.get_docstring(st))
        if fr.cls is not None:
            parents = fr.parents
        elif fr.func is None:
            parents = ()
        else:
            parents = (fr.env,) + fr.parents
        f2 = Frame(fr.func, fr.mod, addr, parents, cls=c)
        f2.func = fr.func
        self.frames.append(f2)
        saved = self.cur
        self.cur = (self.cur[0], st.name, st.lineno)
        try:
            fl = self.block(st.body, f2)
        finally:
            self.frames.pop()
            self.cur = saved
        if not fl.normal:
            ks = [k for k in fl.others if isinstance(k, tuple)]
            if ks:
                raise AbsRaise(fl.others[ks[0]][2])
        v = c
        for d in reversed(st.decorator_list):
            dv = self.ev(d, fr)
            if isinstance(dv, Ext) and dv.name.split(".")[-1] == "dataclass" or isinstance(dv, ExtObj) and dv.kind == "dataclass_deco":
                self.lib.dataclass(c, st)
            else:
                v = self.call(dv, [v], {})
        for b in c.mro[1:]:
            if isinstance(b, ClassV):
                h = self.getattr_raw(b.addr, "__init_subclass__")
                if h is not MISSING:
                    hf = h.func if isinstance(h, ClassM) else h
                    self.call_func(hf, [c], {})
                    break
        self.assign_name(st.name, v, fr)

    def c3(self, c):
        seqs = [list(b.mro) if isinstance(b, ClassV) else [b] for b in c.bases] + [list(c.bases)]
        out = [c]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                h = s[0]
                if not any(any(h is x or h == x for x in t[1:]) for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            seqs = [[x for x in s if not (x is h or (isinstance(x, Ext) and x == h))] for s in seqs]

    # ------------------------------------------------------------ assignment
    def assign_name(self, name, v, fr):
        if name in fr.globals_:
            addr = self.modstate[fr.mod]
            if self.phase != "init":
                self.note("write-global", "assignment to module variable %s.%s" % (fr.mod, name), v).cell = (addr, "a", name)
            self.setattr_raw(addr, name, v)
            return
        if name in fr.nonlocals:
            for e in fr.parents:
                if self.getattr_raw(e, name) is not MISSING:
                    self.setattr_raw(e, name, v)
                    return
        self.setattr_raw(fr.env, name, v)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.resolve(v)
            items = self.try_items(v)
            if isinstance(v, Gate):
                # component-wise
                ia, ib = self.try_items(v.a), self.try_items(v.b)
                if ia is not None and ib is not None and len(ia) == len(ib):
                    items = [self.join(v.cond, x, y) for x, y in zip(ia, ib)]
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if items is None:
                ns = self.nodes_of(v)
                items = [Unk(g.mk("unk", tuple(ns), ("unpack", i)), "unpack") for i in range(n)]
                self.unknown("unpack of unknown iterable")
                for e, x in zip(t.elts, items):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
                return
            if star:
                k = star[0]
                after = n - k - 1
                for e, x in zip(t.elts[:k], items[:k]):
                    self.assign(e, x, fr)
                self.assign(t.elts[k].value, self.mklist(items[k:len(items) - after]), fr)
                for e, x in zip(t.elts[k + 1:], items[len(items) - after:]):
                    self.assign(e, x, fr)
                return
            if len(items) != n:
                raise AbsRaise(ExcV("ValueError", ("unpack",)))
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev_index(t.slice, fr), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)

    # ------------------------------------------------------------ names
    def lookup(self, name, fr):
        if name not in fr.globals_:
            v = self.getattr_raw(fr.env, name)
            if v is not MISSING:
                return self.bound_name(v, name)
            if name in fr.locals_ and name not in fr.nonlocals:
                raise AbsRaise(ExcV("UnboundLocalError", (name,)))
            for e in fr.parents:
                v = self.getattr_raw(e, name)
                if v is not MISSING:
                    return self.bound_name(v, name)
        v = self.getattr_raw(self.modstate[fr.mod], name)
        if v is not MISSING:
            return self.bound_name(v, name)
        if name == "__class__" and fr.func is not None and fr.func.cls is not None:
            return fr.func.cls
        if hasattr(builtins, name):
            return Ext("builtins." + name)
        raise AbsRaise(ExcV("NameError", (name,)))

    def bound_name(self, v, name):
        """A variable assigned on some paths only."""
        v = self.resolve(v)
        if isinstance(v, Gate) and (v.a is MISSING or v.b is MISSING):
            exc = ExcV("UnboundLocalError", (name,))
            if v.a is MISSING:
                self.may_raise(exc, v.cond)
                return v.b
            self.may_raise(exc, g.bnot(v.cond))
            return v.a
        if v is MISSING:
            raise AbsRaise(ExcV("UnboundLocalError", (name,)))
        return v

    # ------------------------------------------------------------ expressions
    def ev(self, n, fr):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return Unk(self.unknown("expression " + type(n).__name__), "expr")
        ln = getattr(n, "lineno", None)
        if ln:
            self.cur = (self.cur[0], self.cur[1], ln)
        return m(n, fr)

    def e_Constant(self, n, fr):
        return n.value if not isinstance(n.value, complex) else Unk(self.unknown("complex"), "complex")

    def e_Name(self, n, fr):
        return self.lookup(n.id, fr)

    def e_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        self.assign(n.target, v, fr)
        return v

    def e_Tuple(self, n, fr):
        return Tup(self.ev_elts(n.elts, fr))

    def e_List(self, n, fr):
        return self.mklist(self.ev_elts(n.elts, fr))

    def e_Set(self, n, fr):
        a = self.new()
        out = []
        for v in self.ev_elts(n.elts, fr):
            if self.hk(v) not in [self.hk(o) for o in out]:
                out.append(v)
        self.set((a, "i"), tuple(out))
        return SetV(a)

    def ev_elts(self, elts, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, fr)
                it = self.try_items(v)
                if it is None:
                    self.unknown("star of unknown", v)
                    it = [Unk(g.unk("star", *self.nodes_of(v)), "star")]
                out.extend(it)
            else:
                out.append(self.ev(e, fr))
        return out

    def mklist(self, items, owner=None):
        a = self.new(owner)
        self.set((a, "i"), tuple(items))
        return ListV(a)

    def mkdict(self, pairs, owner=None):
        a = self.new(owner)
        self.set((a, "i"), ())
        d = DictV(a)
        out = {}
        for k, v in pairs:
            out[self.hk(k)] = (k, v)
        self.set((a, "i"), tuple(out.values()))
        return d

    def e_Dict(self, n, fr):
        pairs = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                for kk, vv in self.dict_items(self.ev(v, fr)):
                    pairs.append((kk, vv))
            else:
                kk = self.ev(k, fr)
                pairs.append((kk, self.ev(v, fr)))
        return self.mkdict(pairs)

    def e_JoinedStr(self, n, fr):
        parts = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.ev(p.value, fr)
                if isinstance(v, str) and p.format_spec is None:
                    parts.append(v)
                elif isinstance(v, (bool, int)) and p.format_spec is None and p.conversion == -1:
                    parts.append(str(v))
                elif isinstance(v, StrT):
                    parts.extend(v.parts)
                else:
                    self.lib.stringify(v)
                    if isinstance(v, Num) and p.format_spec is not None:
                        v = Num(g.el("round", v.node))
                    parts.append(v)
        return self.mkstr(parts)

    def mkstr(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        if not out:
            return ""
        if len(out) == 1 and isinstance(out[0], str):
            return out[0]
        return StrT(out)

    def e_FormattedValue(self, n, fr):
        return self.mkstr([self.ev(n.value, fr)])

    def e_Lambda(self, n, fr):
        return self.make_func(n, fr)

    def e_IfExp(self, n, fr):
        c = self.truth(self.ev(n.test, fr))
        return self.fork(c, lambda: self.ev(n.body, fr), lambda: self.ev(n.orelse, fr))

    def e_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)

        def go(i):
            v = self.ev(n.values[i], fr)
            if i == len(n.values) - 1:
                return v
            c = self.truth(v)
            if isand:
                d = self.decide(c)
                if d is True:
                    return go(i + 1)
                if d is False:
                    return v
                return self.fork(c, lambda: go(i + 1), lambda: False if self._isboolval(v) else v)
            d = self.decide(c)
            if d is True:
                return v
            if d is False:
                return go(i + 1)
            return self.fork(c, lambda: True if self._isboolval(v) else v, lambda: go(i + 1))

        return go(0)

    def _isboolval(self, v):
        return isinstance(v, bool) or isinstance(v, Num) and g.is_bool(v.node)

    def e_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        return self.unary(type(n.op).__name__, v)

    def unary(self, op, v):
        if isinstance(v, Gate):
            return self.split(v, lambda x: self.unary(op, x))
        if op == "Not":
            c = self.truth(v)
            d = self.decide(c)
            if d is not None:
                return not d
            return Num(g.bnot(c))
        if isnumraw(v):
            if op == "USub":
                return -v
            if op == "UAdd":
                return +v
            if op == "Invert":
                return ~v
        if isinstance(v, Inst):
            nm = {"USub": "__neg__", "Invert": "__invert__", "UAdd": "__pos__"}[op]
            return self.call(self.getattr(v, nm), [], {})
        if op == "USub":
            return self.ewise(g.neg, v)
        if op == "UAdd":
            return v
        if op == "Invert":
            return self.ewise(lambda a: g.bnot(g.truth(a)), v)

    def e_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        b = self.ev(n.right, fr)
        return self.binop(type(n.op).__name__, a, b)

    RAW = {"Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "Div": operator.truediv,
           "Pow": operator.pow, "Mod": operator.mod, "FloorDiv": operator.floordiv,
           "BitAnd": operator.and_, "BitOr": operator.or_, "BitXor": operator.xor,
           "LShift": operator.lshift, "RShift": operator.rshift}
    DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "Pow": "pow", "Mod": "mod",
              "FloorDiv": "floordiv", "BitAnd": "and", "BitOr": "or", "BitXor": "xor", "MatMult": "matmul"}
    NODEOP = {
        "Add": g.add, "Sub": g.sub, "Mult": g.mul, "Div": g.div, "Pow": g.power,
        "Mod": lambda a, b: g.el("mod", a, b), "FloorDiv": lambda a, b: g.el("floordiv", a, b),
        "BitAnd": lambda a, b: g.band(g.truth(a), g.truth(b)),
        "BitOr": lambda a, b: g.bor(g.truth(a), g.truth(b)),
        "BitXor": lambda a, b: g.el("xor", a, b),
        "LShift": lambda a, b: g.el("lshift", a, b), "RShift": lambda a, b: g.el("rshift", a, b),
    }

    def binop(self, op, a, b):
        if isinstance(a, Gate):
            return self.split(a, lambda x: self.binop(op, x, b))
        if isinstance(b, Gate):
            return self.split(b, lambda x: self.binop(op, a, x))
        if isinstance(a, Inst) or isinstance(b, Inst):
            nm = "__%s__" % self.DUNDER[op]
            if isinstance(a, Inst) and self.find_class_attr(a.cls, nm) is not MISSING:
                return self.call(self.getattr(a, nm), [b], {})
            nm = "__r%s__" % self.DUNDER[op]
            if isinstance(b, Inst) and self.find_class_attr(b.cls, nm) is not MISSING:
                return self.call(self.getattr(b, nm), [a], {})
            raise AbsRaise(ExcV("TypeError", ("operand",)))
        if op == "MatMult":
            return self.lib.matmul(a, b)
        if isnumraw(a) and isnumraw(b):
            try:
                r = self.RAW[op](a, b)
                if isinstance(r, complex):
                    return Unk(self.unknown("complex"), "complex")
                return r
            except ZeroDivisionError:
                raise AbsRaise(ExcV("ZeroDivisionError"))
            except OverflowError:
                raise AbsRaise(ExcV("OverflowError"))
            except TypeError:
                raise AbsRaise(ExcV("TypeError"))
        if isinstance(a, str) and op == "Mod":
            return self.lib.percent(a, b)
        sa, sb = isinstance(a, (str, StrT)), isinstance(b, (str, StrT))
        if sa or sb:
            if sa and sb and op == "Add":
                pa = a.parts if isinstance(a, StrT) else (a,)
                pb = b.parts if isinstance(b, StrT) else (b,)
                return self.mkstr(list(pa) + list(pb))
            if op == "Mult" and isinstance(a, str) and isinstance(b, int):
                return a * b
            if isinstance(a, Unk) or isinstance(b, Unk):
                return Unk(self.unknown("str op", a, b), "str")
            if isinstance(a, ExtObj) and a.kind == "path" and op == "Div":
                return self.lib.pathjoin(a, [b])
            raise AbsRaise(ExcV("TypeError", ("str operand",)))
        if isinstance(a, ExtObj) and a.kind == "path" and op == "Div":
            return self.lib.pathjoin(a, [b])
        if op == "Add" and isinstance(a, ListV) and isinstance(b, ListV):
            return self.mklist(tuple(self.items(a)) + tuple(self.items(b)))
        if op == "Add" and isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        if op == "Mult" and isinstance(a, (ListV, Tup)) and isinstance(b, int):
            it = tuple(self.items(a)) * b
            return self.mklist(it) if isinstance(a, ListV) else Tup(it)
        if op == "Mult" and isinstance(b, (ListV, Tup)) and isinstance(a, int):
            return self.binop(op, b, a)
        if op == "BitOr" and isinstance(a, (Ext, ClassV, Tup, type(None))) and isinstance(b, (Ext, ClassV, Tup, type(None))):
            # a union of types, for isinstance
            u = []
            for x in (a, b):
                u += list(x.items) if isinstance(x, Tup) else [Ext("types.NoneType") if x is None else x]
            return Tup(u)
        if op == "BitOr" and isinstance(a, DictV) and isinstance(b, DictV):
            return self.mkdict(list(self.dict_items(a)) + list(self.dict_items(b)))
        if isinstance(a, SetV) and isinstance(b, SetV):
            ia, ib = self.items(a), self.items(b)
            ha, hb = [self.hk(x) for x in ia], [self.hk(x) for x in ib]
            if op == "BitOr":
                r = list(ia) + [x for x, h in zip(ib, hb) if h not in ha]
            elif op == "BitAnd":
                r = [x for x, h in zip(ia, ha) if h in hb]
            elif op == "Sub":
                r = [x for x, h in zip(ia, ha) if h not in hb]
            else:
                r = [x for x, h in zip(ia, ha) if h not in hb] + [x for x, h in zip(ib, hb) if h not in ha]
            ad = self.new()
            self.set((ad, "i"), tuple(r))
            return SetV(ad)
        for x in (a, b):
            if x is None or isinstance(x, (DictV, SetV, ClassV, FuncV)):
                if isinstance(a, (Ext, ClassV)) or isinstance(b, (Ext, ClassV)) or a is None and isinstance(b, ExtObj):
                    return ExtObj("typing")
                if isinstance(a, Unk) or isinstance(b, Unk):
                    break
                raise AbsRaise(ExcV("TypeError", ("unsupported operand %s for %s" % (self.tname(x), op),)))
        if isinstance(a, (ListV, Tup)) and isinstance(b, (ListV, Tup)) or (
                isinstance(a, (ListV, Tup)) and not isinstance(b, (Arr, Unk))
                or isinstance(b, (ListV, Tup)) and not isinstance(a, (Arr, Unk))):
            # plain python sequences do not broadcast (numpy scalars do)
            o = b if isinstance(a, (ListV, Tup)) else a
            if isinstance(o, (ListV, Tup)) or isnumraw(o) or isinstance(o, Num) and o.py:
                raise AbsRaise(ExcV("TypeError", ("sequence operand",)))
        if isinstance(a, Ext) or isinstance(b, Ext) or isinstance(a, ExtObj) and a.kind == "typing":
            return ExtObj("typing")
        try:
            for x in (a, b):
                if isinstance(x, Arr):
                    c = self.content(x)
                    if isinstance(c, D) and c.cells and c.cells[0] is g.NONE or isinstance(c, U) and c.node is g.NONE:
                        raise AbsRaise(ExcV("TypeError", ("array of None",)))
            if isinstance(b, (Num, Unk)) or isnumraw(b) or isinstance(b, Arr) or self.isarrlike(b):
                r = self.ewise(self.NODEOP[op], a, b)
                if op in ("Add", "Sub", "Mult") and isinstance(r, (Arr, Num)) and r is not a and r is not b:
                    da = self.lib.dt_of(a)
                    db = None if da is None else self.lib.dt_of(b)
                    if db is not None and isinstance(r, Arr):
                        self.meta[r.addr]["dt"] = da | db
                    elif db is not None:
                        r.dt = da | db
                elif op == "Pow" and isinstance(a, Arr) and self.lib.negint(b) and self.meta[a.addr].get("dt") is not None:
                    raise AbsRaise(ExcV("ValueError", ("Integers to negative integer powers are not allowed.",)))
                return r
        except OverflowError:
            raise AbsRaise(ExcV("OverflowError"))
        return Unk(self.unknown("binop %s %s %s" % (op, type(a).__name__, type(b).__name__), a, b), "binop")

    def tname(self, v):
        if v is None:
            return "NoneType"
        return type(v).__name__

    # -- comparison
    def e_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        res = None
        for op, rn in zip(n.ops, n.comparators):
            right = self.ev(rn, fr)
            c = self.compare(type(op).__name__, left, right)
            if res is None:
                res = c
            else:
                t1 = self.truth(res)
                t2 = self.truth(c)
                t = g.band(t1, t2)
                d = self.decide(t)
                res = d if d is not None else Num(t)
            left = right
        return res

    def boolv(self, c):
        d = self.decide(c)
        return d if d is not None else Num(c)

    def compare(self, op, a, b):
        if isinstance(a, Gate):
            return self.split(a, lambda x: self.compare(op, x, b))
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            if op == "NotIn":
                return (not r) if isinstance(r, bool) else self.unary("Not", r)
            return r
        if isinstance(b, Gate):
            return self.split(b, lambda x: self.compare(op, a, x))
        if op in ("Is", "IsNot"):
            r = self.identical(a, b)
            if r is None:
                c = g.truth(self.unknown("is", a, b))
                return Num(c if op == "Is" else g.bnot(c))
            if isinstance(r, g.Node):
                return self.boolv(r if op == "Is" else g.bnot(r))
            return r if op == "Is" else not r
        if isinstance(a, Inst) or isinstance(b, Inst):
            nm = {"Eq": "__eq__", "NotEq": "__ne__", "Lt": "__lt__", "Gt": "__gt__", "LtE": "__le__", "GtE": "__ge__"}[op]
            if isinstance(a, Inst) and self.find_class_attr(a.cls, nm) is not MISSING:
                return self.call(self.getattr(a, nm), [b], {})
            if op == "NotEq" and isinstance(a, Inst) and self.find_class_attr(a.cls, "__eq__") is not MISSING:
                return self.unary("Not", self.call(self.getattr(a, "__eq__"), [b], {}))
            if op in ("Eq", "NotEq"):
                same = isinstance(a, Inst) and isinstance(b, Inst) and a.addr == b.addr
                return same if op == "Eq" else not same
            raise AbsRaise(ExcV("TypeError", ("comparison",)))
        rawa = israw(a)
        rawb = israw(b)
        if rawa and rawb:
            try:
                f = {"Eq": operator.eq, "NotEq": operator.ne, "Lt": operator.lt, "LtE": operator.le,
                     "Gt": operator.gt, "GtE": operator.ge}[op]
                return f(a, b)
            except TypeError:
                raise AbsRaise(ExcV("TypeError", ("comparison of %s and %s" % (self.tname(a), self.tname(b)),)))
        if op in ("Eq", "NotEq"):
            r = self.equals(a, b)
            if isinstance(r, bool):
                return r if op == "Eq" else not r
            if r is not None:
                return r if op == "Eq" else self.unary("Invert" if isinstance(r, Arr) else "Not", r)
        else:
            for x in (a, b):
                if x is None or isinstance(x, (str, StrT, DictV)) and not isinstance(a, Unk) and not isinstance(b, Unk):
                    if isinstance(a, (str, StrT)) and isinstance(b, (str, StrT)):
                        break
                    raise AbsRaise(ExcV("TypeError", ("comparison with %s" % self.tname(x),)))
        f = {"Eq": g.eq, "NotEq": lambda x, y: g.bnot(g.eq(x, y)), "Lt": g.lt, "LtE": g.le,
             "Gt": lambda x, y: g.lt(y, x), "GtE": lambda x, y: g.le(y, x)}[op]
        if isinstance(a, (ListV, Tup)) and isinstance(b, (ListV, Tup)):
            return Num(g.truth(self.unknown("sequence comparison", a, b)))
        r = self.ewise(f, a, b)
        if isinstance(r, Num):
            return self.boolv(r.node)
        return r

    def equals(self, a, b):
        """bool, value or None (use numeric comparison)."""
        num = lambda v: isinstance(v, (Num, Arr, Unk)) or isnumraw(v)
        if isinstance(a, (ListV, Tup)) and isinstance(b, (ListV, Tup)):
            if type(a) is not type(b):
                return False
            ia, ib = self.items(a), self.items(b)
            if len(ia) != len(ib):
                return False
            c = g.TRUE
            for x, y in zip(ia, ib):
                c = g.band(c, self.truth(self.compare("Eq", x, y)))
            d = self.decide(c)
            return d if d is not None else Num(c)
        if isinstance(a, (str, StrT)) and isinstance(b, (str, StrT)):
            return Num(g.truth(self.unknown("string comparison", a, b)))
        if isinstance(a, Unk) or isinstance(b, Unk):
            if num(a) and num(b):
                return None
            return Num(g.truth(g.unk("eq", *self.depnodes([a, b]))))
        if isinstance(a, DictV) and isinstance(b, DictV):
            return Num(g.truth(self.unknown("dict comparison", a, b)))
        if isinstance(a, Arr) and (isinstance(b, (str,)) or b is None) or isinstance(b, Arr) and (isinstance(a, str) or a is None):
            return False
        if num(a) and num(b):
            return None
        if isinstance(a, Arr) and isinstance(b, (ListV, Tup)) or isinstance(b, Arr) and isinstance(a, (ListV, Tup)):
            return None
        if isinstance(a, (Ext, ClassV, FuncV)) or isinstance(b, (Ext, ClassV, FuncV)):
            return a is b or a == b
        if num(a) != num(b):
            return False
        return Num(g.truth(self.unknown("eq %s %s" % (type(a).__name__, type(b).__name__), a, b)))

    def identical(self, a, b):
        if a is None or b is None:
            if a is None and b is None:
                return True
            x = b if a is None else a
            if isinstance(x, Unk):
                return None
            return False
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool):
                return a is b
            x = b if isinstance(a, bool) else a
            if isinstance(x, Num) and g.is_bool(x.node):
                t = a if isinstance(a, bool) else b
                return x.node if t else g.bnot(x.node)
            if isinstance(x, Unk):
                return None
            return False
        if isinstance(a, Inst) and isinstance(b, Inst):
            return a.addr == b.addr
        if isinstance(a, (Arr, ListV, DictV, SetV)) and type(a) is type(b):
            return a.addr == b.addr
        if isinstance(a, (ClassV, FuncV, Ext)):
            return a is b or a == b
        if israw(a) and israw(b):
            return a is b or (type(a) is type(b) and a == b)
        if isinstance(a, Unk) or isinstance(b, Unk):
            return None
        if isinstance(a, Num) and isinstance(b, Num):
            return a is b
        if type(a) is not type(b):
            return False
        return a is b

    def contains(self, cont, x):
        if isinstance(cont, Gate):
            return self.split(cont, lambda c: self.contains(c, x))
        if isinstance(x, Gate):
            return self.split(x, lambda y: self.contains(cont, y))
        if isinstance(cont, Inst):
            if self.find_class_attr(cont.cls, "__contains__") is not MISSING:
                return self.boolv(self.truth(self.call(self.getattr(cont, "__contains__"), [x], {})))
            items = self.try_items(cont)
            if items is not None:
                return self.contains(Tup(items), x)
        if isinstance(cont, str) and isinstance(x, str):
            return x in cont
        if isinstance(cont, DictV):
            for k, v in self.dict_items(cont, raw=True):
                if self.hk(k) == self.hk(x):
                    v = self.resolve(v)
                    if isinstance(v, Gate) and v.b is MISSING:
                        return self.boolv(v.cond)
                    if isinstance(v, Gate) and v.a is MISSING:
                        return self.boolv(g.bnot(v.cond))
                    return v is not MISSING
            if not israw(x) and not isinstance(x, Tup):
                # two symbolic keys are taken as different: harmless when a stored
                # value is determined by its key, which the history rule decides
                cs = [self.truth(self.compare("Eq", x, k)) for k, _ in self.dict_items(cont) if israw(k)]
                return self.boolv(g.bor(*cs))
            return False
        if isinstance(cont, ExtObj) and cont.kind == "instdict" and isinstance(x, str):
            v = self.resolve(self.getattr_raw(cont.p["inst"].addr, x))
            if isinstance(v, Gate) and v.b is MISSING:
                return self.boolv(v.cond)
            if isinstance(v, Gate) and v.a is MISSING:
                return self.boolv(g.bnot(v.cond))
            return v is not MISSING
        if isinstance(cont, Table):
            return isinstance(x, str) and x in cont.cols
        if cont is None or isnumraw(cont):
            raise AbsRaise(ExcV("TypeError", ("not iterable",)))
        items = self.try_items(cont)
        if items is None:
            return Num(g.truth(self.unknown("in", cont, x)))
        cs = []
        for it in items:
            if israw(it) and israw(x):
                if it == x:
                    return True
                continue
            cs.append(self.truth(self.compare("Eq", x, it)))
        c = g.bor(*cs) if cs else g.FALSE
        return self.boolv(c)

    def truth(self, v):
        """Boolean node for the truthiness of v."""
        v = self.resolve(v)
        if isinstance(v, bool):
            return g.TRUE if v else g.FALSE
        if v is None:
            return g.FALSE
        if israw(v):
            return g.TRUE if v else g.FALSE
        if isinstance(v, Num):
            return g.truth(v.node)
        if isinstance(v, Unk):
            return g.truth(v.node)
        if isinstance(v, Gate):
            return g.ite(v.cond, self.truth(v.a), self.truth(v.b)) if not (
                v.a is MISSING or v.b is MISSING) else g.truth(self.unknown("truth of maybe-missing", v.cond))
        if isinstance(v, (Tup, GenV)):
            return g.TRUE if v.items else g.FALSE
        if isinstance(v, (ListV, SetV, DictV)):
            return g.TRUE if self.get((v.addr, "i"), ()) else g.FALSE
        if isinstance(v, Arr):
            c = self.content(v)
            if isinstance(c, D) and len(c.cells) == 1:
                return g.truth(c.cells[0])
            if isinstance(c, U) and c.shape == ():
                return g.truth(c.node)
            if c.shape is None:
                return g.truth(g.mk("unk", (self.unode(c),), "array truth"))
            if self.size(c.shape) == 1:
                return g.truth(self.unode(c))
            raise AbsRaise(ExcV("ValueError", ("truth value of an array is ambiguous",)))
        if isinstance(v, StrT):
            return g.TRUE
        if isinstance(v, Inst):
            if self.find_class_attr(v.cls, "__bool__") is not MISSING:
                return self.truth(self.call(self.getattr(v, "__bool__"), [], {}))
            if self.find_class_attr(v.cls, "__len__") is not MISSING:
                n = self.call(self.getattr(v, "__len__"), [], {})
                return self.truth(n)
            return g.TRUE
        return g.TRUE

    # ------------------------------------------------------------ comprehension
    def comp(self, gens, fr, emit):
        f2 = Frame(fr.func, fr.mod, self.new(), (fr.env,) + fr.parents if fr.cls is None else fr.parents)
        if fr.func is None and fr.cls is None:
            f2.parents = ()
        if fr.cls is not None:
            # class scope: only outermost iterable sees it; approximate by env
            f2.parents = (fr.env,) + fr.parents
        f2.globals_ = fr.globals_

        def go(i):
            if i == len(gens):
                emit(f2, None)
                return
            gen = gens[i]
            it = self.ev(gen.iter, fr if i == 0 else f2)
            items = self.try_items(it)
            if items is None:
                raise _UnknownIter(it)
            for x in items:
                self.assign(gen.target, x, f2)
                ok = True
                for cnd in gen.ifs:
                    c = self.truth(self.ev(cnd, f2))
                    d = self.decide(c)
                    if d is False:
                        ok = False
                        break
                    if d is None:
                        raise _UnknownIter(Num(c))
                if ok:
                    go(i + 1)

        go(0)

    def e_ListComp(self, n, fr):
        out = []
        try:
            self.comp(n.generators, fr, lambda f, _: out.append(self.ev(n.elt, f)))
        except _UnknownIter as e:
            return Unk(self.unknown("comprehension over unknown", e.v), "comp")
        return self.mklist(out)

    def e_SetComp(self, n, fr):
        v = self.e_ListComp(n, fr)
        if isinstance(v, Unk):
            return v
        a = self.new()
        out = []
        for x in self.items(v):
            if self.hk(x) not in [self.hk(o) for o in out]:
                out.append(x)
        self.set((a, "i"), tuple(out))
        return SetV(a)

    def e_GeneratorExp(self, n, fr):
        v = self.e_ListComp(n, fr)
        if isinstance(v, Unk):
            return v
        return GenV(self.items(v))

    def e_DictComp(self, n, fr):
        out = []

        def emit(f, _):
            k = self.ev(n.key, f)
            out.append((k, self.ev(n.value, f)))
        try:
            self.comp(n.generators, fr, emit)
        except _UnknownIter as e:
            return Unk(self.unknown("comprehension over unknown", e.v), "comp")
        return self.mkdict(out)

    def e_Starred(self, n, fr):
        return self.ev(n.value, fr)

    def e_Yield(self, n, fr):
        v = self.ev(n.value, fr) if n.value is not None else None
        if fr.yields is not None:
            cur = self.get((fr.yields, "i"), ())
            self.set((fr.yields, "i"), cur + (v,))
        return None

    def e_YieldFrom(self, n, fr):
        v = self.ev(n.value, fr)
        it = self.try_items(v)
        if it is None:
            it = [Unk(self.unknown("yield from", v), "yield")]
        if fr.yields is not None:
            self.set((fr.yields, "i"), self.get((fr.yields, "i"), ()) + tuple(it))
        return None

    # ------------------------------------------------------------ iteration
    def items(self, v):
        r = self.try_items(v)
        if r is None:
            raise TypeError("items of " + type(v).__name__)
        return r

    def try_items(self, v):
        v = self.resolve(v)
        if isinstance(v, (Tup, GenV)):
            return list(v.items)
        if isinstance(v, (ListV, SetV)):
            return [x for x in self.get((v.addr, "i"), ()) if x is not MISSING]
        if isinstance(v, DictV):
            return [k for k, _ in self.dict_items(v)]
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Arr):
            c = self.content(v)
            if isinstance(c, D) and len(c.shape) >= 1:
                if len(c.shape) == 1:
                    return [Num(x) for x in c.cells]
                n = self.size(c.shape[1:])
                return [self.arr(D(c.shape[1:], c.cells[i * n:(i + 1) * n]), self.storages(v)) for i in range(c.shape[0])]
            if isinstance(c, U) and c.shape is not None and len(c.shape) == 1:
                return [Num(g.index(c.node, i)) for i in range(c.shape[0])]
            return None
        if isinstance(v, RecArr):
            if v.fields and all(not isinstance(x, Arr) for _, x in v.fields):
                return [x for _, x in v.fields]
            return [Tup([self.index_value(x, i) for _, x in v.fields]) for i in range(self.reclen(v))] if self.reclen(v) is not None else None
        if isinstance(v, Inst):
            if self.find_class_attr(v.cls, "__iter__") is not MISSING:
                return self.try_items(self.call(self.getattr(v, "__iter__"), [], {}))
            return None
        if isinstance(v, ExtObj) and v.kind == "iter":
            return list(v.p["items"])
        if isinstance(v, ClassV):
            return None
        if isinstance(v, Gate):
            ia = self.try_items(v.a) if v.a is not MISSING else None
            ib = self.try_items(v.b) if v.b is not MISSING else None
            if ia is not None and ib is not None and len(ia) == len(ib):
                return [self.join(v.cond, x, y) for x, y in zip(ia, ib)]
            return None
        if v is None or isnumraw(v) or isinstance(v, Num):
            raise AbsRaise(ExcV("TypeError", ("%s is not iterable" % self.tname(v),)))
        return None

    def reclen(self, r):
        for _, v in r.fields:
            try:
                c = self.content(v)
            except TypeError:
                return None
            if c.shape:
                return c.shape[0]
        return None

    def dict_items(self, d, raw=False):
        d = self.resolve(d)
        if isinstance(d, DictV):
            out = []
            for k, v in self.get((d.addr, "i"), ()):
                if raw:
                    out.append((k, v))
                    continue
                v = self.resolve(v)
                if v is MISSING:
                    continue
                out.append((k, v))
            return out
        if isinstance(d, Inst):
            if self.find_class_attr(d.cls, "keys") is not MISSING:
                ks = self.items(self.call(self.getattr(d, "keys"), [], {}))
                return [(k, self.getitem(d, k)) for k in ks]
        if isinstance(d, ExtObj) and d.kind == "series":
            return list(d.p["items"])
        self.unknown("dict items of " + type(d).__name__)
        return []

    def dict_get(self, d, k):
        """value or MISSING"""
        h = self.hk(k)
        for kk, v in self.get((d.addr, "i"), ()):
            if self.hk(kk) == h:
                return self.resolve(v)
        return MISSING

    def dict_set(self, d, k, v, quiet=False):
        if not quiet:
            e = self.mutate_obj(d.addr, "store to dict key %s" % (k if israw(k) else "?",))
            if e is not None:
                e.kv = (k, v)
        h = self.hk(k)
        items = self.get((d.addr, "i"), ())
        for i, (kk, _) in enumerate(items):
            if self.hk(kk) == h:
                self.set((d.addr, "i"), items[:i] + ((kk, v),) + items[i + 1:])
                return
        self.set((d.addr, "i"), items + ((k, v),))

    # ------------------------------------------------------------ attributes
    def e_Attribute(self, n, fr):
        o = self.ev(n.value, fr)
        self.cur = (self.cur[0], self.cur[1], n.lineno)
        return self.getattr(o, n.attr)

    def find_class_attr(self, cls, name):
        for c in cls.mro:
            if isinstance(c, ClassV):
                v = self.getattr_raw(c.addr, name)
                if v is not MISSING:
                    return v
            elif isinstance(c, Ext):
                v = self.lib.class_attr(c, name)
                if v is not MISSING:
                    return v
        return MISSING

    def getattr(self, o, name):
        o = self.resolve(o)
        if isinstance(o, Gate):
            return self.split(o, lambda x: self.getattr(x, name))
        if isinstance(o, Inst):
            ca = self.find_class_attr(o.cls, name)
            if isinstance(ca, PropV) and not ca.cached:
                return self.call(ca.fget, [o], {})
            v = self.getattr_raw(o.addr, name)
            if v is not MISSING:
                return self.bound_name(v, name)
            if ca is not MISSING:
                if isinstance(ca, PropV):
                    r = self.call(ca.fget, [o], {})
                    self.setattr_raw(o.addr, name, r)
                    return r
                return self.bind(ca, o, o.cls)
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return ExtObj("instdict", inst=o)
            ga = self.find_class_attr(o.cls, "__getattr__")
            if ga is not MISSING:
                return self.call_func(ga, [o, name], {})
            if name in ("__init__", "__new__", "__init_subclass__", "__repr__", "__str__", "__reduce_ex__",
                        "__hash__", "__eq__", "__doc__", "__module__", "__sizeof__"):
                return Ext("builtins.object." + name)
            raise AbsRaise(ExcV("AttributeError", (o.cls.name, name)))
        if isinstance(o, ClassV):
            if name == "__name__":
                return o.name
            if name == "__mro__":
                return Tup(o.mro)
            if name == "__dict__":
                return self.mkdict([(k, v) for k, v in self.attrs(o.addr).items()])
            v = self.find_class_attr(o, name)
            if v is MISSING:
                if name == "__subclasses__":
                    return Ext("builtins.type.__subclasses__")
                if name in ("__init__", "__new__", "__init_subclass__", "__module__", "__qualname__", "mro"):
                    return Ext("builtins.object." + name)
                raise AbsRaise(ExcV("AttributeError", (o.name, name)))
            return self.bind(v, None, o)
        if isinstance(o, Mod):
            v = self.mod_get(o.name, name)
            if v is MISSING and name == "__dict__":
                return self.mkdict(list(self.attrs(self.modstate[o.name]).items()))
            if v is MISSING:
                sm = o.name + "." + name
                if sm in self.modules:
                    return self.modules[sm]
                sub = self.load_module(sm) if o.name == self.pkg else None
                if sub is not None:
                    return sub
                ga = self.mod_get(o.name, "__getattr__")
                if isinstance(ga, FuncV):
                    return self.call_func(ga, [name], {})
                raise AbsRaise(ExcV("AttributeError", (o.name, name)))
            return v
        if isinstance(o, SuperV):
            inst = o.self
            cls = inst.cls if isinstance(inst, Inst) else inst
            mro = cls.mro
            i = mro.index(o.cls) if o.cls in mro else -1
            for c in mro[i + 1:]:
                v = self.getattr_raw(c.addr, name) if isinstance(c, ClassV) else self.lib.class_attr(c, name)
                if v is not MISSING:
                    if isinstance(v, PropV):
                        return self.call(v.fget, [inst], {})
                    return self.bind(v, inst if isinstance(inst, Inst) else None, cls)
            if name in ("__init__", "__init_subclass__", "__setattr__", "__getattribute__", "__new__", "__repr__"):
                return Bound(Ext("builtins.object." + name), inst)
            raise AbsRaise(ExcV("AttributeError", ("super", name)))
        if isinstance(o, FuncV):
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__doc__":
                return ast.get_docstring(o.node) if not isinstance(o.node, ast.Lambda) else None
            if name == "__wrapped__":
                return o
            if name in ("cache_clear", "cache_info"):
                return Ext("builtins._noop")
            v = self.get(("fattr", id(o), name))
            if v is not MISSING:
                return v
            raise AbsRaise(ExcV("AttributeError", (o.name, name)))
        if isinstance(o, Bound):
            if name == "__self__":
                return o.self
            if name == "__func__":
                return o.func
            return self.getattr(o.func, name)
        if o is None:
            raise AbsRaise(ExcV("AttributeError", ("NoneType", name)))
        return self.lib.getattr(o, name)

    def bind(self, v, inst, cls):
        if isinstance(v, FuncV):
            return Bound(v, inst) if inst is not None else v
        if isinstance(v, StaticV):
            return v.func
        if isinstance(v, ClassM):
            return Bound(v.func, cls)
        if isinstance(v, PropV):
            if inst is None:
                return v
            return self.call(v.fget, [inst], {})
        if isinstance(v, Ext) and inst is not None and v.name.startswith("method:"):
            return Bound(v, inst)
        return v

    def setattr(self, o, name, v):
        o = self.resolve(o)
        if isinstance(o, Gate):
            self.fork(o.cond, lambda: self.setattr(o.a, name, v), lambda: self.setattr(o.b, name, v))
            return
        if isinstance(o, Inst):
            ca = self.find_class_attr(o.cls, name)
            if isinstance(ca, PropV) and not ca.cached:
                if ca.fset is None:
                    raise AbsRaise(ExcV("AttributeError", ("can't set", name)))
                self.call(ca.fset, [o, v], {})
                return
            sa = self.find_class_attr(o.cls, "__setattr__")
            if sa is not MISSING and isinstance(sa, FuncV):
                self.call_func(sa, [o, name, v], {})
                return
            self.mutate_obj(o.addr, "assignment to attribute %s of %s" % (name, o.cls.name))
            self.setattr_raw(o.addr, name, v)
            return
        if isinstance(o, ClassV):
            if self.phase != "init":
                self.note("write-class", "assignment to class attribute %s.%s" % (o.name, name), v).cell = (o.addr, "a", name)
            self.setattr_raw(o.addr, name, v)
            return
        if isinstance(o, Mod):
            if self.phase != "init":
                self.note("write-global", "assignment to module variable %s.%s" % (o.name, name), v).cell = (self.modstate[o.name], "a", name)
            self.setattr_raw(self.modstate[o.name], name, v)
            return
        if isinstance(o, FuncV):
            if self.phase != "init":
                self.note("write-global", "assignment to function attribute %s.%s" % (o.name, name), v).cell = ("fattr", id(o), name)
            self.set(("fattr", id(o), name), v)
            return
        if isinstance(o, Table):
            if name in o.cols:
                self.setitem(o, name, v)
                return
        if isinstance(o, (Unk, ExtObj, Ext)):
            if isinstance(o, Ext):
                self.note("config", "assignment to %s.%s" % (o.name, name), o.name)
            return
        if isinstance(o, Arr) and name in ("shape", "dtype", "flags"):
            if name == "shape":
                self.lib.reshape_inplace(o, v)
            return
        if isinstance(o, Arr):
            if name == "flat":
                self.setitem(o, SliceV(None, None, None), v)
                return
        raise AbsRaise(ExcV("AttributeError", (self.tname(o), name)))

    # ------------------------------------------------------------ subscripts
    def e_Subscript(self, n, fr):
        o = self.ev(n.value, fr)
        idx = self.ev_index(n.slice, fr)
        self.cur = (self.cur[0], self.cur[1], n.lineno)
        return self.getitem(o, idx)

    def ev_index(self, n, fr):
        return self.ev(n, fr)

    def e_Slice(self, n, fr):
        return SliceV(*[self.ev(x, fr) if x is not None else None for x in (n.lower, n.upper, n.step)])

    def getitem(self, o, i):
        return self.lib.getitem(o, i)

    def setitem(self, o, i, v):
        self.lib.setitem(o, i, v)

    def delitem(self, o, i):
        self.lib.delitem(o, i)

    def index_value(self, v, i):
        return self.lib.getitem(v, i)

    # ------------------------------------------------------------ calls
    def e_Call(self, n, fr):
        # zero-argument super
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            f = fr.func
            if f is not None and f.cls is not None:
                a = f.node.args
                first = (a.posonlyargs + a.args)[0].arg if (a.posonlyargs + a.args) else None
                if first:
                    return SuperV(f.cls, self.lookup(first, fr))
        f = self.ev(n.func, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                it = self.try_items(v)
                if it is None:
                    self.unknown("*args of unknown", v)
                    it = [Unk(g.unk("star", *self.nodes_of(v)), "star")]
                args.extend(it)
            else:
                args.append(self.ev(a, fr))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                v = self.ev(k.value, fr)
                for kk, vv in self.dict_items(v):
                    if isinstance(kk, str):
                        kw[kk] = vv
            else:
                kw[k.arg] = self.ev(k.value, fr)
        self.cur = (self.cur[0], self.cur[1], n.lineno)
        if isinstance(f, Ext) and f.name in ("builtins.locals", "builtins.globals", "builtins.vars", "builtins.dir") and not args:
            addr = fr.env if f.name == "builtins.locals" else self.modstate[fr.mod]
            return self.mkdict([(k, v) for k, v in self.attrs(addr).items() if v is not MISSING])
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        f = self.resolve(f)
        if isinstance(f, Gate):
            return self.split(f, lambda x: self.call(x, args, kw))
        if isinstance(f, Bound):
            return self.call(f.func, [f.self] + list(args), kw)
        if isinstance(f, (StaticV, ClassM)):
            return self.call(f.func, args, kw)
        if isinstance(f, FuncV):
            return self.call_func(f, list(args), kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, list(args), kw)
        if isinstance(f, Inst):
            ca = self.find_class_attr(f.cls, "__call__")
            if ca is not MISSING:
                return self.call(self.bind(ca, f, f.cls), args, kw)
            raise AbsRaise(ExcV("TypeError", ("not callable",)))
        if f is None or isinstance(f, (str, int, float, Num, Arr, Tup, ListV, DictV)):
            raise AbsRaise(ExcV("TypeError", ("%s object is not callable" % self.tname(f),)))
        return self.lib.call(f, list(args), dict(kw))

    def instantiate(self, cls, args, kw):
        ext = self.lib.instantiate_ext(cls, args, kw)
        if ext is not None:
            return ext
        nw = self.find_class_attr(cls, "__new__")
        if isinstance(nw, (FuncV, StaticV)):
            fn = nw.func if isinstance(nw, StaticV) else nw
            o = self.call_func(fn, [cls] + args, kw)
            if not (isinstance(o, Inst) and cls in o.cls.mro):
                return o
            if self.owner.get(o.addr) and self.owner[o.addr][0] == "case":
                pass
        else:
            o = Inst(self.new(), cls)
            self.set((o.addr, "names"), ())
        init = self.find_class_attr(cls, "__init__")
        if isinstance(init, FuncV):
            r = self.call_func(init, [o] + args, kw)
            r = self.resolve(r)
            if r is not None:
                self.init_returned(cls, r)
        elif isinstance(init, Ext) or init is MISSING:
            if init is not MISSING and init.name.startswith("method:"):
                self.lib.call(init, [o] + args, kw)
            elif (args or kw) and not any(isinstance(b, Ext) and b.name != "builtins.object" for b in cls.mro):
                raise AbsRaise(ExcV("TypeError", ("%s() takes no arguments" % cls.name,)))
        return o

    def init_returned(self, cls, r):
        if isinstance(r, Gate):
            self.may_raise(ExcV("TypeError", ("__init__ should return None",)))
            return
        raise AbsRaise(ExcV("TypeError", ("__init__() should return None",)))

    def bind_args(self, f, args, kw):
        a = f.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        kw = dict(kw)
        if len(args) > len(names) and a.vararg is None:
            raise AbsRaise(ExcV("TypeError", ("%s() takes %d positional arguments but %d were given" % (f.name, len(names), len(args)),)))
        for nme, v in zip(names, args):
            env[nme] = v
        if a.vararg is not None:
            env[a.vararg.arg] = Tup(args[len(names):])
        for nme in names[len(args):]:
            if nme in kw:
                env[nme] = kw.pop(nme)
        for nme in names[:len(args)]:
            if nme in kw and a.kwarg is None:
                raise AbsRaise(ExcV("TypeError", ("%s() got multiple values for argument %s" % (f.name, nme),)))
        nd = len(f.defaults)
        for nme, d in zip(names[len(names) - nd:], f.defaults):
            env.setdefault(nme, d)
        for p in a.kwonlyargs:
            if p.arg in kw:
                env[p.arg] = kw.pop(p.arg)
            elif p.arg in f.kwdefaults:
                env[p.arg] = f.kwdefaults[p.arg]
        miss = [nme for nme in names + [p.arg for p in a.kwonlyargs] if nme not in env]
        if miss:
            raise AbsRaise(ExcV("TypeError", ("%s() missing required argument %s" % (f.name, miss),)))
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.mkdict(list(kw.items()))
        elif kw:
            raise AbsRaise(ExcV("TypeError", ("%s() got an unexpected keyword argument %s" % (f.name, sorted(kw)),)))
        return env

    def argkey(self, v):
        if israw(v):
            return ("r", type(v).__name__, v)
        if isinstance(v, Num):
            return ("n", v.node.id)
        if isinstance(v, (Arr, ListV, DictV, SetV, Inst, ClassV)):
            return ("a", v.addr)
        if isinstance(v, Tup):
            return ("t",) + tuple(self.argkey(x) for x in v.items)
        return ("o", id(v))

    def call_func(self, f, args, kw):
        if isinstance(f, (StaticV, ClassM)):
            f = f.func
        if not isinstance(f, FuncV):
            return self.call(f, args, kw)
        self.calls += 1
        file = self.modfile[f.mod][1]
        self.touched.add((file, f.qual))
        env = self.bind_args(f, args, kw)
        key = (id(f.node), tuple((k, self.argkey(v)) for k, v in env.items()), len(self.undo) if False else None)
        if len(self.active) > self.MAXDEPTH or self.active.count(key) >= 2:
            raise AbsRaise(ExcV("RecursionError", (f.qual,)))
        addr = self.new(("case", ""))
        if f.env is None:
            parents = ()
        else:
            parents = f.env
        lc = getattr(f.node, "_locals", None)
        if lc is None:
            lc = f.node._locals = self.local_names(f.node)
        fr = Frame(f, f.mod, addr, parents, None, lc)
        saved = self.cur
        self.set((addr, "names"), tuple(env))
        for k, v in env.items():
            self.set((addr, "a", k), v)
        self.stack.append(saved)
        self.frames.append(fr)
        self.active.append(key)
        self.cur = (file, f.qual, f.node.lineno)
        try:
            if isinstance(f.node, ast.Lambda):
                r = self.ev(f.node.body, fr)
            else:
                if f.isgen:
                    fr.yields = self.new()
                    self.set((fr.yields, "i"), ())
                r = self.run_body(f, fr)
                if f.isgen:
                    return GenV(self.get((fr.yields, "i"), ()))
            if f.cached:
                self.cache_result(r, f)
            return r
        finally:
            self.active.pop()
            self.frames.pop()
            self.stack.pop()
            self.cur = saved

    def cache_result(self, r, f, seen=None):
        """Result of a memoised function: later calls return the same object."""
        seen = seen or set()
        if isinstance(r, Arr):
            for s in self.storages(r):
                self.sowner[s] = ("shared", "cache of %s" % f.qual)
        elif isinstance(r, (ListV, DictV, SetV)):
            if r.addr in seen:
                return
            seen.add(r.addr)
            self.owner[r.addr] = ("shared", "cache of %s" % f.qual)
            for x in self.get((r.addr, "i"), ()):
                self.cache_result(x[1] if isinstance(x, tuple) else x, f, seen)
        elif isinstance(r, Inst):
            if r.addr in seen:
                return
            seen.add(r.addr)
            self.owner[r.addr] = ("shared", "cache of %s" % f.qual)
            for x in self.attrs(r.addr).values():
                self.cache_result(x, f, seen)
        elif isinstance(r, (Tup, GenV)):
            for x in r.items:
                self.cache_result(x, f, seen)
        elif isinstance(r, RecArr):
            for _, x in r.fields:
                self.cache_result(x, f, seen)
        elif isinstance(r, Gate):
            self.cache_result(r.a, f, seen)
            self.cache_result(r.b, f, seen)

    def local_names(self, node):
        out = set()
        gl = set()
        body = node.body if isinstance(node.body, list) else [node.body]
        for s in body:
            for x in self.own_nodes(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    out.add(x.id)
                elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    out.add(x.name)
                elif isinstance(x, (ast.Import, ast.ImportFrom)):
                    for a in x.names:
                        out.add((a.asname or a.name).split(".")[0])
                elif isinstance(x, (ast.Global, ast.Nonlocal)):
                    gl.update(x.names)
                elif isinstance(x, ast.ExceptHandler) and x.name:
                    out.add(x.name)
        # names bound only inside comprehensions are not locals
        comp = set()
        for s in body:
            for x in self.own_nodes(s):
                if isinstance(x, ast.comprehension):
                    for t in ast.walk(x.target):
                        if isinstance(t, ast.Name):
                            comp.add(t.id)
        stores = {}
        for s in body:
            for x in self.own_nodes(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    stores[x.id] = stores.get(x.id, 0) + 1
        incomp = {}
        for s in body:
            for x in self.own_nodes(s):
                if isinstance(x, ast.comprehension):
                    for t in ast.walk(x.target):
                        if isinstance(t, ast.Name):
                            incomp[t.id] = incomp.get(t.id, 0) + 1
        for nme in comp:
            if stores.get(nme, 0) <= incomp.get(nme, 0):
                out.discard(nme)
        return out - gl

    def run_body(self, f, fr):
        m = self.mark()
        fl = self.block(f.node.body, fr)
        ret = fl.others.get("return")
        raises = {k: x for k, x in fl.others.items() if isinstance(k, tuple)}
        if fl.normal and ret is None:
            for k, (c, d, exc) in raises.items():
                self.may_raise(exc, c)
            return None
        if not fl.normal and ret is None:
            if not raises:
                raise AbsRaise(ExcV("RuntimeError", ("no exit",)))
            ks = list(raises)
            for k in ks[:-1]:
                self.may_raise(raises[k][2], raises[k][0])
            c, d, exc = raises[ks[-1]]
            self.apply(d)
            raise AbsRaise(exc)
        for k, (c, d, exc) in raises.items():
            self.may_raise(exc, c)
        cr, dr, vr = ret
        if not fl.normal:
            self.apply(dr)
            return vr
        # both: return under cr, fall through under fl.cond
        dn = self.capture(m)
        # cr and fl.cond are disjoint; select on cr
        self.apply(self.merge_deltas(cr, dr, dn))
        return self.join(cr, vr, None)


class _UnknownIter(Exception):
    def __init__(self, v):
        self.v = v
