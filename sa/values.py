"""Abstract values."""
from . import graph as g


class Num:
    """Immutable numeric/boolean scalar (python or numpy)."""
    __slots__ = ("node", "py", "dt", "kind")

    def __init__(self, node, py=False, kind=None):
        self.node = node
        self.kind = kind      # its type, where a rule distinguishes the types of numbers
        self.dt = None        # atoms that are integers if this is one
        self.py = py          # definitely a python scalar / declared scalar

    def __repr__(self):
        return "Num(%s)" % g.show(self.node)


class U:
    """Array content, uniform representation: one node for all elements."""
    __slots__ = ("node", "shape", "cand")

    def __init__(self, node, shape=None, cand=None):
        self.node = node
        self.shape = shape
        #: the possible shapes, when they are known but differ between paths
        self.cand = cand if shape is None else None

    def same(self, o):
        return isinstance(o, U) and o.node is self.node and o.shape == self.shape


class D:
    """Array content, dense representation: explicit shape and cells."""
    __slots__ = ("shape", "cells")

    def __init__(self, shape, cells):
        self.shape = tuple(shape)
        self.cells = tuple(cells)

    def same(self, o):
        return isinstance(o, D) and o.shape == self.shape and all(a is b for a, b in zip(o.cells, self.cells))


class Arr:
    """Reference to an ndarray object (content in the store at (addr,'c'))."""
    __slots__ = ("addr",)

    def __init__(self, addr):
        self.addr = addr

    def __repr__(self):
        return "Arr#%s" % self.addr


class Tup:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return "Tup%r" % (self.items,)


class ListV:
    __slots__ = ("addr",)

    def __init__(self, addr):
        self.addr = addr


class DictV:
    __slots__ = ("addr",)

    def __init__(self, addr):
        self.addr = addr


class SetV:
    __slots__ = ("addr",)

    def __init__(self, addr):
        self.addr = addr


class Inst:
    __slots__ = ("addr", "cls")

    def __init__(self, addr, cls):
        self.addr = addr
        self.cls = cls

    def __repr__(self):
        return "<%s#%s>" % (self.cls.name, self.addr)


class ClassV:
    __slots__ = ("name", "bases", "mro", "addr", "mod", "node")

    def __init__(self, name, bases, addr, mod, node):
        self.name = name
        self.bases = bases
        self.addr = addr
        self.mod = mod
        self.node = node
        self.mro = None

    def __repr__(self):
        return "<class %s>" % self.name


class FuncV:
    __slots__ = ("node", "mod", "env", "defaults", "kwdefaults", "name", "cls", "cached", "isgen", "qual")

    def __init__(self, node, mod, env, defaults, kwdefaults, name, cls=None, qual=None):
        self.node = node
        self.mod = mod
        self.env = env
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.name = name
        self.cls = cls
        self.cached = False
        self.isgen = False
        self.qual = qual or name

    def __repr__(self):
        return "<func %s>" % self.qual


class Bound:
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func = func
        self.self = self_


class PropV:
    __slots__ = ("fget", "fset", "cached")

    def __init__(self, fget, fset=None, cached=False):
        self.fget = fget
        self.fset = fset
        self.cached = cached


class StaticV:
    __slots__ = ("func",)

    def __init__(self, func):
        self.func = func


class ClassM:
    __slots__ = ("func",)

    def __init__(self, func):
        self.func = func


class SuperV:
    __slots__ = ("cls", "self")

    def __init__(self, cls, self_):
        self.cls = cls
        self.self = self_


class Ext:
    """External object named by its canonical dotted path."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Ext(%s)" % self.name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class ExtObj:
    """Instance of an external class: kind, payload dict (immutable use)."""
    __slots__ = ("kind", "p")

    def __init__(self, kind, **p):
        self.kind = kind
        self.p = p

    def __repr__(self):
        return "ExtObj(%s)" % self.kind


class Mod:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class Table:
    """Structured (record) array loaded from a file; rows=None: all."""
    __slots__ = ("name", "rec", "rows", "storage", "cols")

    def __init__(self, name, rec, rows, storage, cols):
        self.name = name
        self.rec = rec
        self.rows = rows
        self.storage = storage
        self.cols = cols      # column name -> Arr (only for rows None)


class RecArr:
    """Record array built by code (np.rec.fromarrays / np.rec.array)."""
    __slots__ = ("fields", "rec")

    def __init__(self, fields, rec=True):
        self.fields = fields  # ordered tuple of (name, value)
        self.rec = rec


class Gate:
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond = cond
        self.a = a
        self.b = b

    def __repr__(self):
        return "Gate(%s,%r,%r)" % (g.show(self.cond, 2), self.a, self.b)


class Unk:
    """Unknown value (may be anything); node carries dependence."""
    __slots__ = ("node", "why")

    def __init__(self, node, why=""):
        self.node = node
        self.why = why

    def __repr__(self):
        return "Unk(%s)" % (self.why,)


class StrT:
    """String template: tuple of raw str and abstract values."""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return "StrT%r" % (self.parts,)


class SliceV:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class GenV:
    """Fully evaluated iterator (single use is not modelled)."""
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class ExcV:
    __slots__ = ("type", "args", "where", "cls", "inst")

    def __init__(self, type_, args=()):
        self.type = type_
        self.args = args
        self.where = None
        self.cls = None
        self.inst = None

    def __repr__(self):
        return "ExcV(%s)" % self.type


class AbsRaise(Exception):
    """A definite exception of the analysed program."""

    def __init__(self, exc):
        self.exc = exc


class Missing:
    def __repr__(self):
        return "MISSING"


MISSING = Missing()


class AnalysisError(Exception):
    """The analyser cannot continue (anchor missing, ...)."""
