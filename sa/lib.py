"""Models of the external libraries (builtins, numpy, scipy, pandas, stdlib)."""
import builtins
import json
import math
import os

from . import graph as g
from .values import *
from .tables import read_genfromtxt

NDATTRS = set("""T all any argmax argmin argpartition argsort astype base byteswap choose clip compress conj
conjugate copy ctypes cumprod cumsum data device diagonal dot dtype dump dumps fill flags flat flatten getfield
imag item itemset itemsize max mean min nbytes ndim newbyteorder nonzero partition prod ptp put ravel real repeat
reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes take tobytes
tofile tolist tostring trace transpose var view""".split())

AMBIENT = ("random.", "time.", "datetime.", "os.environ", "os.getenv", "os.getpid", "os.urandom", "os.getcwd",
           "os.listdir", "os.cpu_count", "os.getlogin", "os.uname", "os.times", "os.stat", "os.path.exists", "os.path.getmtime",
           "uuid.", "secrets.", "numpy.random", "socket.", "urllib.", "requests.", "platform.", "getpass.",
           "subprocess.", "threading.get_ident", "sys.argv", "sys.stdin", "sys.platform", "locale.getlocale", "tempfile.", "glob.",
           "builtins.id", "builtins.input", "builtins.hash", "scipy.stats.norm.rvs", "os.popen", "os.system")
CONFIG = {"numpy.seterr", "numpy.seterrcall", "numpy.setbufsize", "numpy.set_printoptions", "numpy.set_string_function",
          "warnings.simplefilter", "warnings.filterwarnings", "warnings.resetwarnings", "logging.basicConfig",
          "logging.disable", "logging.captureWarnings", "logging.setLoggerClass", "logging.addLevelName",
          "logging.critical", "logging.error", "logging.warning", "logging.warn", "logging.info", "logging.debug", "logging.exception",
          "logging.log", "os.chdir", "os.putenv", "os.setpriority", "os.umask", "os.nice",
          "sys.setrecursionlimit", "locale.setlocale", "numpy.random.seed", "random.seed",
          "pandas.set_option", "sys.setswitchinterval", "sys.path.append", "sys.path.insert", "gc.disable", "gc.enable",
          "decimal.setcontext", "signal.signal", "atexit.register", "scipy.special.seterr", "time.tzset", "os.remove", "os.rename",
          "os.makedirs", "os.mkdir", "threading.setprofile", "sys.settrace"}


def _un(f):
    return lambda L, a: f(a)


UNARY = {
    "log": g.log, "exp": g.exp, "sqrt": lambda a: g.power(a, g.const(0.5)),
    "square": lambda a: g.power(a, g.const(2)), "log10": lambda a: g.scale(g.log(a), 1 / g.LN10),
    "log2": lambda a: g.scale(g.log(a), 1 / math.log(2)), "log1p": lambda a: g.log(g.add(a, g.ONE)),
    "exp2": lambda a: g.power(g.const(2), a), "expm1": lambda a: g.sub(g.exp(a), g.ONE),
    "abs": lambda a: g.el("abs", a), "absolute": lambda a: g.el("abs", a), "fabs": lambda a: g.el("abs", a),
    "negative": g.neg, "positive": lambda a: g.tonum(a), "reciprocal": lambda a: g.div(g.ONE, a),
    "cbrt": lambda a: g.power(a, g.const(1 / 3)),
    "radians": lambda a: g.scale(a, math.pi / 180), "deg2rad": lambda a: g.scale(a, math.pi / 180),
    "degrees": lambda a: g.scale(a, 180 / math.pi), "rad2deg": lambda a: g.scale(a, 180 / math.pi),
    "isnan": g.isnan, "logical_not": lambda a: g.bnot(g.truth(a)),
    "isfinite": lambda a: g.bnot(g.isnan(a)) if a.op != "const" else (g.FALSE if math.isinf(a.data) else g.TRUE),
    "isinf": lambda a: g.FALSE if not (a.op == "const" and math.isinf(a.data)) else g.TRUE,
    "float64": lambda a: g.tonum(a), "nan_to_num": lambda a: g.mk("el:nan_to_num", (a,)) if g.isnan(a) is not g.FALSE else a,
}
for _n in ("sin", "cos", "tan", "tanh", "sinh", "cosh", "arcsin", "arccos", "arctan", "arcsinh", "arccosh", "arctanh",
           "floor", "ceil", "sign", "rint", "trunc", "round", "signbit"):
    UNARY[_n] = (lambda n: lambda a: g.el(n, a))(_n)
UNARY["asin"], UNARY["acos"], UNARY["atan"] = UNARY["arcsin"], UNARY["arccos"], UNARY["arctan"]
UNARY["fix"] = UNARY["trunc"]
UNARY["round_"] = UNARY["around"] = UNARY["round"]

BINARY = {
    "add": g.add, "subtract": g.sub, "multiply": g.mul, "divide": g.div, "true_divide": g.div,
    "power": g.power, "float_power": g.power, "pow": g.power, "maximum": g.maximum, "minimum": g.minimum,
    "fmax": g.maximum, "fmin": g.minimum, "less": g.lt, "less_equal": g.le,
    "greater": lambda a, b: g.lt(b, a), "greater_equal": lambda a, b: g.le(b, a),
    "equal": g.eq, "not_equal": lambda a, b: g.bnot(g.eq(a, b)),
    "logical_and": lambda a, b: g.band(g.truth(a), g.truth(b)),
    "logical_or": lambda a, b: g.bor(g.truth(a), g.truth(b)),
    "logical_xor": lambda a, b: g.el("xor", a, b), "bitwise_and": lambda a, b: g.band(g.truth(a), g.truth(b)),
    "bitwise_or": lambda a, b: g.bor(g.truth(a), g.truth(b)),
    "hypot": lambda a, b: g.power(g.add(g.power(a, g.const(2)), g.power(b, g.const(2))), g.const(0.5)),
    "arctan2": lambda a, b: g.el("arctan2", a, b), "mod": lambda a, b: g.el("mod", a, b),
    "remainder": lambda a, b: g.el("mod", a, b), "fmod": lambda a, b: g.el("fmod", a, b),
    "floor_divide": lambda a, b: g.el("floordiv", a, b), "copysign": lambda a, b: g.el("copysign", a, b),
    "logaddexp": lambda a, b: g.log(g.add(g.exp(a), g.exp(b))), "heaviside": lambda a, b: g.el("heaviside", a, b),
}

REDUCE = {"sum", "prod", "min", "max", "amin", "amax", "mean", "std", "var", "any", "all", "median", "cumsum", "cumprod",
          "argmin", "argmax", "argsort", "ptp", "nansum", "nanmin", "nanmax", "nanmean", "count_nonzero", "average",
          "percentile", "quantile", "nanstd", "product", "nanargmin"}


#: the names of the types that a number is an instance of
KINDS = {
    "int": ("int", "Integral", "Rational", "Real", "Complex", "Number"),
    "float": ("float", "Real", "Complex", "Number"),
    "float64": ("float", "Real", "Complex", "Number", "float64", "double", "floating", "inexact", "number", "generic"),
    "float32": ("Real", "Complex", "Number", "float32", "single", "floating", "inexact", "number", "generic"),
    "int64": ("Integral", "Rational", "Real", "Complex", "Number", "int64", "int_", "signedinteger", "integer", "number", "generic"),
}


class Lib:
    def __init__(self, ip):
        self.ip = ip
        self.cfg_depth = 0

    # ---------------------------------------------------------------- ext
    def class_attr(self, ext, name):
        """Attribute provided by an external base class."""
        n = ext.name
        if n in ("builtins.object", "abc.ABC"):
            return MISSING
        if n.startswith("shim:"):
            return MISSING
        if n.split(".")[-1] in ("dict",) and n.startswith("builtins") or n == "collections.OrderedDict":
            return MISSING
        return MISSING

    def instantiate_ext(self, cls, args, kw):
        for b in cls.mro:
            if isinstance(b, Ext) and b.name.startswith("builtins."):
                t = getattr(builtins, b.name[9:], None)
                if isinstance(t, type) and issubclass(t, BaseException):
                    e = ExcV(cls.name, tuple(args))
                    e_base = b.name[9:]
                    e.args = tuple(args)
                    return e
            if isinstance(b, Ext) and b.name in ("typing.NamedTuple", "enum.Enum", "enum.IntEnum"):
                return Unk(self.ip.unknown("instance of " + b.name, *args), "inst")
        return None

    def dataclass(self, c, st):
        """Synthesise __init__ for a dataclass from its annotated fields."""
        import ast
        ip = self.ip
        names, defaults = [], []
        for s in st.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                names.append((s.target.id, s.value))
        src = "def __init__(self%s):\n" % "".join(
            ", %s%s" % (n, "" if v is None else "=__dc_%s" % n) for n, v in names)
        src += "".join("    self.%s = %s\n" % (n, n) for n, _ in names) or "    pass\n"
        src += "    if hasattr(self, '__post_init__'):\n        self.__post_init__()\n"
        fn = ast.parse(src).body[0]
        vals = [ip.getattr_raw(c.addr, n) for n, v in names if v is not None]
        f = FuncV(fn, c.mod, (), vals, {}, "__init__", c, c.name + ".__init__")
        ip.setattr_raw(c.addr, "__init__", f)

    def enter(self, v):
        if isinstance(v, ExtObj) and v.kind in ("file", "npz", "ctx"):
            return v
        if isinstance(v, Inst):
            return self.ip.call(self.ip.getattr(v, "__enter__"), [], {})
        return v

    def stringify(self, v):
        """str()/format of a value: may call user __str__/__repr__."""
        ip = self.ip
        if isinstance(v, Inst):
            for nm in ("__str__", "__repr__"):
                f = ip.find_class_attr(v.cls, nm)
                if isinstance(f, FuncV):
                    return ip.call_func(f, [v], {})
        if isinstance(v, (ListV, Tup)):
            for x in ip.items(v):
                if isinstance(x, Inst):
                    self.stringify(x)
        return None

    def percent(self, a, b):
        vals = list(b.items) if isinstance(b, Tup) else [b]
        parts = []
        rest = a
        for v in vals:
            i = rest.find("%")
            if i < 0:
                break
            parts.append(rest[:i])
            j = i + 1
            while j < len(rest) and rest[j] not in "sdfgerxi%":
                j += 1
            rest = rest[j + 1:]
            parts.append(v if not isinstance(v, (str, int)) else str(v))
        parts.append(rest)
        return self.ip.mkstr(parts)

    # ---------------------------------------------------------------- attributes
    def getattr(self, o, name):
        ip = self.ip
        if isinstance(o, Ext):
            return self.ext_attr(o, name)
        if isinstance(o, Arr):
            return self.arr_attr(o, name)
        if isinstance(o, (Num, Unk)) or isinstance(o, (bool, int, float)):
            return self.num_attr(o, name)
        if isinstance(o, str):
            return Bound(Ext("method:str." + name), o) if hasattr(str, name) else self.noattr(o, name)
        if isinstance(o, StrT):
            return Bound(Ext("method:strt." + name), o)
        if isinstance(o, Table):
            return self.table_attr(o, name)
        if isinstance(o, RecArr):
            if name in NDATTRS:
                return Bound(Ext("method:rec." + name), o) if name not in ("dtype", "shape", "size", "T") else self.rec_attr(o, name)
            for n, v in o.fields:
                if n == name:
                    return v
            return self.noattr(o, name)
        if isinstance(o, ListV):
            if not hasattr(list, name):
                return self.noattr(o, name)
            return Bound(Ext("method:list." + name), o)
        if isinstance(o, DictV):
            if not hasattr(dict, name):
                return self.noattr(o, name)
            return Bound(Ext("method:dict." + name), o)
        if isinstance(o, SetV):
            return Bound(Ext("method:set." + name), o)
        if isinstance(o, (Tup, GenV)):
            if not hasattr(tuple, name):
                return self.noattr(o, name)
            return Bound(Ext("method:tuple." + name), o)
        if isinstance(o, ExtObj):
            return self.obj_attr(o, name)
        if isinstance(o, PropV):
            if name in ("fget", "fset"):
                return getattr(o, name)
            if name in ("setter", "getter"):
                return Bound(Ext("method:prop." + name), o)
            return self.noattr(o, name)
        if isinstance(o, ExcV):
            if name == "args":
                return Tup(o.args)
            return Unk(g.unk("exc attr"), "exc")
        if isinstance(o, (StaticV, ClassM)):
            return ip.getattr(o.func, name)
        return Unk(ip.unknown("attribute %s of %s" % (name, type(o).__name__), o), "attr")

    def noattr(self, o, name):
        raise AbsRaise(ExcV("AttributeError", (self.ip.tname(o), name)))

    CONSTS = {"numpy.pi": math.pi, "math.pi": math.pi, "numpy.e": math.e, "math.e": math.e, "numpy.nan": math.nan,
              "math.nan": math.nan, "numpy.NaN": math.nan, "numpy.NAN": math.nan, "numpy.inf": math.inf, "math.inf": math.inf,
              "numpy.newaxis": None, "numpy.Inf": math.inf, "math.tau": math.tau, "sys.maxsize": 2 ** 63 - 1,
              "numpy.euler_gamma": 0.5772156649015329}

    def ext_attr(self, o, name):
        n = o.name + "." + name
        if n in self.CONSTS:
            return self.CONSTS[n]
        if n == "os.environ":
            return self.ambient(n)
        if n in ("os.sep",):
            return "/"
        if o.name in ("builtins.dict", "builtins.str", "builtins.list", "builtins.object", "builtins.float", "builtins.tuple", "builtins.int"):
            return Ext("method:%s.%s" % (o.name[9:], name))
        if o.name == "sys" and name in ("argv", "stdin", "path", "modules", "platform"):
            return self.ambient(n)
        return self.ip.ext(n)

    def ambient(self, n, *args):
        self.ip.note("ambient", n)
        return Unk(g.mk("ambient", (), (n,)), "ambient " + n)

    def shape_of(self, v):
        try:
            return self.ip.content(v).shape
        except TypeError:
            return None

    def arr_attr(self, o, name):
        ip = self.ip
        c = ip.content(o)
        if name == "shape":
            if c.shape is None:
                return Unk(g.unk("shape", ip.unode(c)), "shape")
            return Tup(c.shape)
        if name == "size":
            return ip.size(c.shape) if c.shape is not None else Num(g.unk("size", ip.unode(c)))
        if name == "ndim":
            return len(c.shape) if c.shape is not None else Num(g.unk("ndim", ip.unode(c)))
        if name == "T":
            r = self.transpose(o)
            if isinstance(r, Arr) and r.addr != o.addr:
                ip.meta[r.addr].setdefault("dt", ip.meta[o.addr].get("dt"))
            return r
        if name in ("real",):
            return o
        if name in ("dtype", "flags", "base", "strides", "itemsize", "nbytes", "data", "flat", "ctypes"):
            if name == "flat":
                return o
            return ExtObj("ndmeta", name=name, node=o)
        if name == "mask":
            return Unk(ip.unknown("mask attr", o), "mask")
        if name not in NDATTRS and not name.startswith("__"):
            return self.noattr(o, name)
        return Bound(Ext("method:arr." + name), o)

    def num_attr(self, o, name):
        ip = self.ip
        if isinstance(o, Unk):
            if name in ("shape", "size", "ndim", "dtype"):
                return Unk(g.unk(name, o.node), name)
            if name == "T":
                return Unk(g.mk("T", (o.node,)), "T")
            if name in NDATTRS:
                return Bound(Ext("method:arr." + name), o)
            return Unk(g.mk("unk", (o.node,), "attr " + name), "attr")
        if isinstance(o, Num) and not o.py:
            if name == "shape":
                return Tup(())
            if name == "size":
                return 1
            if name == "ndim":
                return 0
            if name in ("T", "real"):
                return o
            if name == "dtype":
                return ExtObj("ndmeta", name="dtype", node=o)
            if name in NDATTRS:
                return Bound(Ext("method:arr." + name), o)
        if name in ("real",):
            return o
        if name in ("is_integer", "as_integer_ratio", "bit_length", "conjugate", "hex"):
            return Bound(Ext("method:num." + name), o)
        return self.noattr(o, name)

    def table_attr(self, o, name):
        ip = self.ip
        if o.rec and name not in NDATTRS and name in o.cols:
            return self.table_col(o, name)
        if name == "dtype":
            return ExtObj("ndmeta", name="dtype", node=o)
        if name in ("shape", "size", "ndim"):
            n = len(o.rows) if o.rows is not None else self.table_len(o)
            if isinstance(o.rows, int):
                n = None
            return Tup((n,)) if name == "shape" else (n if name == "size" else 1)
        if name in NDATTRS:
            return Bound(Ext("method:table." + name), o)
        if name in o.cols and not o.rec:
            return self.noattr(o, name)
        raise AbsRaise(ExcV("AttributeError", ("recarray has no attribute %s" % name,)))

    def table_len(self, t):
        return len(next(iter(g.TABLES[t.name].values())))

    def table_col(self, t, name):
        ip = self.ip
        base = t.cols.get(name)
        if base is None:
            raise AbsRaise(ExcV("ValueError", ("no field of name %s" % name,)))
        if t.rows is None:
            return base
        c = ip.content(base)
        if isinstance(t.rows, int):
            return Num(ip.unode(U(g.index(c.node, t.rows), ()))) if isinstance(c, U) else Num(c.cells[t.rows])
        if isinstance(c, U):
            rows = t.rows
            nc = U(g.take(c.node, rows), (len(rows),))
        else:
            nc = D((len(t.rows),), [c.cells[r] for r in t.rows])
        return ip.arr(nc, ip.storages(base), (base.addr, None, None) if False else None)

    def rec_attr(self, o, name):
        n = self.ip.reclen(o)
        if name == "size":
            return n
        if name == "shape":
            return Tup((n,))
        if name == "dtype":
            return ExtObj("recdtype", rec=o)
        return Unk(self.ip.unknown("rec attr " + name, o), "rec")

    def obj_attr(self, o, name):
        ip = self.ip
        k = o.kind
        if k == "instdict":
            return Bound(Ext("method:instdict." + name), o)
        if k == "recdtype" and name == "names":
            return Tup([n for n, _ in o.p["rec"].fields])
        if k == "ndmeta" and o.p["name"] == "dtype" and name == "names" and isinstance(o.p["node"], Table):
            return Tup(list(o.p["node"].cols))
        if k == "ndmeta" and name == "writeable":
            return True
        if k == "path":
            p = o.p["path"]
            if name == "parent":
                return ExtObj("path", path=os.path.dirname(p))
            if name in ("name", "stem", "suffix"):
                b = os.path.basename(p)
                return {"name": b, "stem": os.path.splitext(b)[0], "suffix": os.path.splitext(b)[1]}[name]
            if name == "parents":
                ps = []
                q = p
                while os.path.dirname(q) != q:
                    q = os.path.dirname(q)
                    ps.append(ExtObj("path", path=q))
                return Tup(ps)
            return Bound(Ext("method:path." + name), o)
        if k == "series":
            for kk, v in o.p["items"]:
                if kk == name:
                    return v
            if name in ("index",):
                return Tup([kk for kk, _ in o.p["items"]])
            if name in ("values",):
                return ip.arr(ip.stack_content([ip.content(v) for _, v in o.p["items"]]))
            if name in ("items", "keys", "to_dict", "get", "copy", "loc", "iloc", "at"):
                return Bound(Ext("method:series." + name), o)
            raise AbsRaise(ExcV("AttributeError", ("Series", name)))
        if k == "interp1d" and name in ("x", "y"):
            return o.p[name]
        return Bound(Ext("method:%s.%s" % (k, name)), o)

    # ---------------------------------------------------------------- calls
    def call(self, f, args, kw):
        ip = self.ip
        if isinstance(f, ExtObj):
            return self.call_obj(f, args, kw)
        if isinstance(f, Unk):
            return Unk(ip.unknown("call of unknown", f, *args, *kw.values()), "call")
        if isinstance(f, (ExcV,)):
            raise AbsRaise(ExcV("TypeError", ("exception not callable",)))
        if not isinstance(f, Ext):
            return Unk(ip.unknown("call of %s" % type(f).__name__, *args, *kw.values()), "call")
        n = f.name
        if n.startswith("method:"):
            return self.method(n[7:], args, kw)
        h = getattr(self, "f_" + n.replace(".", "_"), None)
        if h is not None:
            return h(args, kw)
        if n.startswith("builtins.object."):
            if n[16:] in ("__init__", "__init_subclass__"):
                return None
            cs = [a for a in args[:2] if isinstance(a, ClassV)]
            if n[16:] == "__new__" and cs:
                o = Inst(ip.new(), cs[-1])
                ip.set((o.addr, "names"), ())
                return o
            if n[16:] == "__setattr__" and len(args) == 3 and isinstance(args[0], Inst) and isinstance(args[1], str):
                ip.mutate_obj(args[0].addr, "assignment to attribute %s of %s" % (args[1], args[0].cls.name))
                ip.setattr_raw(args[0].addr, args[1], args[2])
                return None
        if n.startswith("builtins."):
            t = getattr(builtins, n[9:], None)
            if isinstance(t, type) and issubclass(t, BaseException):
                return ExcV(n[9:], tuple(args))
        if n in CONFIG:
            ip.note("config", n, args)
            if n.startswith("logging."):
                ip.note("log", n, args)
            return None
        if n.startswith(("numpy.", "math.")):
            return self.np_call(n.split(".", 1)[1], args, kw, n)
        for p in AMBIENT:
            if n == p or n.startswith(p) and p.endswith(".") or n.startswith(p + "."):
                return self.ambient(n)
        if n.startswith(("typing.", "numpy.typing")):
            if n == "typing.cast":
                return args[1]
            if n == "typing.overload" or n == "typing.final":
                return args[0]
            return ExtObj("typing")
        return self.external(n, args, kw)

    def external(self, n, args, kw):
        ip = self.ip
        ip.note("external", n)
        return Unk(ip.unknown("external call " + n, *args, *kw.values()), "call " + n)

    # ---------------------------------------------------------------- numpy
    def out_where(self, res, kw):
        """apply out=/where= keywords of a ufunc."""
        ip = self.ip
        out = kw.get("out")
        wh = kw.get("where")
        if isinstance(out, Tup) and len(out.items) == 1:
            out = out.items[0]
        if isinstance(out, Arr):
            c = ip.content(res)
            if wh is not None and not isinstance(wh, bool):
                c = ip.emap(lambda w, a, b: g.ite(g.truth(w), a, b), ip.content(wh), c, ip.content(out))
            oc = ip.content(out)
            if isinstance(c, U) and c.shape == () and oc.shape is not None:
                c = U(c.node, oc.shape)
            self.uncuttable(out, c)
            ip.mutate_arr(out, c, "out= argument of a numpy function")
            return out
        if wh is not None and not isinstance(wh, bool):
            return ip.ewise(lambda w, a: g.ite(g.truth(w), a, g.unk("uninitialised")), wh, res)
        return res

    def np_call(self, n, args, kw, full):
        if n in ("power", "float_power", "reciprocal") and full.startswith("numpy.") and args:
            dt = self.dt_of(args[0]) if isinstance(args[0], Arr) else None
            if dt is not None and n == "power" and len(args) > 1 and self.negint(args[1]):
                raise AbsRaise(ExcV("ValueError", ("Integers to negative integer powers are not allowed.",)))
            if dt is not None and n == "reciprocal":
                return self.ip.ewise(lambda x: g.cut(x, dt), self.np_call1(n, args, kw, full))
        return self.set_dt(n, args, kw, self.np_call1(n, args, kw, full))

    def negint(self, v):
        return isinstance(v, int) and not isinstance(v, bool) and v < 0

    def np_call1(self, n, args, kw, full):
        ip = self.ip
        h = getattr(self, "np_" + n.replace(".", "_"), None)
        if h is not None:
            for i, a in enumerate(args[:3]):
                if isinstance(a, Gate):
                    return ip.split(a, lambda x, i=i: self.np_call(n, args[:i] + [x] + args[i + 1:], kw, full))
            return h(args, kw)
        if n in UNARY and len(args) >= 1:
            if n in ("round", "around", "round_") and len(args) > 1:
                return ip.ewise(lambda a, b: g.el("round", a, b), args[0], args[1])
            if len(args) == 2 and n not in ("nan_to_num",):
                kw = dict(kw, out=args[1])
            if full.startswith("math.") and isinstance(args[0], Arr):
                s = self.shape_of(args[0])
                if s is not None and ip.size(s) != 1:
                    raise AbsRaise(ExcV("TypeError", ("only length-1 arrays can be converted",)))
            if full.startswith("math.") and n == "log" and len(args) == 2:
                return ip.ewise(lambda a, b: g.div(g.log(a), g.log(b)), args[0], args[1])
            if isinstance(args[0], float) and n in ("isnan",):
                return args[0] != args[0]
            return self.out_where(ip.ewise(UNARY[n], args[0]), kw)
        if n in BINARY and len(args) >= 2:
            if len(args) == 3:
                kw = dict(kw, out=args[2])
            r = self.out_where(ip.ewise(BINARY[n], args[0], args[1]), kw)
            return r
        base, _, meth = n.rpartition(".")
        if base in BINARY and meth in ("reduce", "outer", "at", "accumulate"):
            return self.ufunc_method(base, meth, args, kw)
        if n in REDUCE:
            return self.reduce(n, args[0], args[1:], kw)
        if n.startswith("random"):
            return self.ambient(full)
        if n in ("float64", "float32", "int64", "int32", "float_", "int_", "bool_", "double"):
            return self.f_builtins_float(args, kw)
        if n.startswith("linalg."):
            for a in args:
                if a is None:
                    raise AbsRaise(ExcV("TypeError"))
            nodes = [ip.unode(ip.content(a)) if self._num(a) else ip.unknown("linalg arg", a) for a in args]
            return ip.arr(U(g.mk("op:" + n, tuple(nodes)), None))
        if n == "testing.assert_allclose":
            return None
        return self.external(full, args, kw)

    def _num(self, v):
        return self.ip._numeric(v)

    def ufunc_method(self, base, meth, args, kw):
        ip = self.ip
        if meth == "reduce":
            if base in ("add", "multiply", "maximum", "minimum", "logical_and", "logical_or"):
                it = ip.try_items(args[0])
                if it and not isinstance(args[0], Arr):
                    r = it[0]
                    for x in it[1:]:
                        r = ip.ewise(BINARY[base], r, x)
                    return r
                red = {"add": "sum", "multiply": "prod", "maximum": "max", "minimum": "min", "logical_and": "all",
                       "logical_or": "any"}[base]
                return self.reduce(red, args[0], args[1:], kw)
        if meth == "outer":
            a = self.getitem_arr(self.asarr(args[0]), Tup([SliceV(None, None, None), None]))
            return ip.ewise(BINARY[base], a, args[1])
        if meth == "at":
            if isinstance(args[0], Arr):
                ip.mutate_arr(args[0], U(ip.unknown("ufunc.at", *args), ip.content(args[0]).shape), "ufunc.at on an array")
            return None
        return Unk(ip.unknown("ufunc " + base + "." + meth, *args), "ufunc")

    def asarr(self, v):
        if isinstance(v, Arr):
            return v
        return self.ip.arr(self.ip.content(v))

    def _checknum(self, *vals):
        for v in vals:
            if v is None:
                raise AbsRaise(ExcV("TypeError", ("None in array argument",)))

    def np_array(self, args, kw, copy=True):
        ip = self.ip
        v = args[0]
        if self.ismasked(v):
            v = ip.getattr(v, "data")
        if isinstance(v, Unk):
            return Unk(g.mk("unk", (v.node,), "np.array"), "array")
        if isinstance(v, Arr):
            cp = kw.get("copy", True)
            if copy and cp is not False and cp is not None:
                return ip.arr(ip.content(v))
            return v
        if isinstance(v, (RecArr, Table)):
            if copy and isinstance(v, RecArr):
                return RecArr(tuple((n, ip.arr(ip.content(x)) if isinstance(x, Arr) else x) for n, x in v.fields), v.rec)
            return v
        if isinstance(v, (ListV, Tup)):
            its = ip.items(v)
            if any(isinstance(x, (str, StrT)) or x is None for x in its):
                if all(isinstance(x, str) for x in its):
                    return v if isinstance(v, Tup) else Tup(its)
                if any(x is None for x in its) and "dtype" not in kw and len(args) < 2:
                    raise AbsRaise(ExcV("TypeError", ("array of None",)))
        try:
            c = ip.content(v)
        except TypeError:
            return Unk(ip.unknown("np.array of " + type(v).__name__, v), "array")
        return ip.arr(c)

    def np_asarray(self, args, kw):
        if self.ismasked(args[0]):
            return self.ip.getattr(args[0], "data")
        if isinstance(args[0], (Arr, RecArr, Table)):
            return args[0]
        return self.np_array(args, kw)

    np_asanyarray = np_ascontiguousarray = np_asarray_chkfinite = np_asfarray = np_require = np_asarray

    def np_copy(self, args, kw):
        return self.np_array(args, {})

    def np_atleast_1d(self, args, kw):
        ip = self.ip
        if len(args) > 1:
            return Tup([self.np_atleast_1d([a], {}) for a in args])
        v = args[0]
        if isinstance(v, Arr):
            c = ip.content(v)
            if c.shape == ():
                return ip.arr(D((1,), (ip.unode(c),)), ip.storages(v))
            return v
        if v is None:
            raise AbsRaise(ExcV("TypeError", ("atleast_1d of None",)))
        c = ip.content(v) if self._num(v) else None
        if c is None:
            return Unk(ip.unknown("atleast_1d", v), "arr")
        if c.shape == ():
            return ip.arr(D((1,), (ip.unode(c),)))
        return ip.arr(c)

    def np_atleast_2d(self, args, kw):
        ip = self.ip
        v = args[0]
        a = self.asarr(v) if self._num(v) else None
        if a is None:
            return Unk(ip.unknown("atleast_2d", v), "arr")
        c = ip.content(a)
        if isinstance(c, D) and len(c.shape) < 2:
            return ip.arr(D((1,) + (c.shape or (1,)), c.cells), ip.storages(a))
        if isinstance(c, U) and c.shape is not None and len(c.shape) < 2:
            return ip.arr(U(c.node, (1,) + (c.shape or (1,))), ip.storages(a))
        return a

    def _shape(self, v):
        if isinstance(v, int) and not isinstance(v, bool):
            return (v,)
        it = self.ip.try_items(v) if isinstance(v, (Tup, ListV)) else None
        if it is not None and all(isinstance(x, int) for x in it):
            return tuple(it)
        return None

    def filled(self, shape, node):
        ip = self.ip
        if shape is None:
            return ip.arr(U(node, None))
        if ip.size(shape) <= 64:
            return ip.arr(D(shape, [node] * ip.size(shape)))
        return ip.arr(U(node, shape))

    def _structured(self, args, kw, node, pos=1):
        """np.zeros(n, dtype=[("a", "f8"), ...]) -> record array."""
        ip = self.ip
        dt = kw.get("dtype", args[pos] if len(args) > pos else None)
        if not isinstance(dt, ListV):
            return None
        fs = [ip.try_items(x) if isinstance(x, (Tup, ListV)) else None for x in ip.try_items(dt) or []]
        if not fs or any(f is None or len(f) < 2 or not isinstance(f[0], str) for f in fs):
            return None
        shape = self._shape(args[0] if args else kw.get("shape"))
        return RecArr(tuple((f[0], self.filled(shape, node)) for f in fs), False)

    def np_zeros(self, args, kw):
        r = self._structured(args, kw, g.ZERO)
        return r if r is not None else self.filled(self._shape(args[0] if args else kw.get("shape")), g.ZERO)

    def np_ones(self, args, kw):
        r = self._structured(args, kw, g.ONE)
        return r if r is not None else self.filled(self._shape(args[0] if args else kw.get("shape")), g.ONE)

    def np_empty(self, args, kw):
        r = self._structured(args, kw, g.unk("uninitialised"))
        return r if r is not None else self.filled(self._shape(args[0] if args else kw.get("shape")), g.unk("uninitialised"))

    def np_full(self, args, kw):
        shape = args[0] if args else kw.get("shape")
        val = args[1] if len(args) > 1 else kw.get("fill_value")
        val = self.ip.resolve(val)
        if val is None or isinstance(val, str):
            return self.filled(self._shape(shape), g.NONE if val is None else g.unk("object"))
        c = self.ip.content(val)
        if c.shape == ():
            return self.filled(self._shape(shape), self.ip.unode(c))
        shp = self._shape(shape)
        if shp is None:
            return self.ip.arr(U(g.mk("op:full", (self.ip.unode(c),)), None))
        d = self.ip.densify(c)
        if d is not None:
            if self.ip.bshape([d.shape, shp]) != shp:
                raise AbsRaise(ExcV("ValueError", ("could not broadcast input array",)))
            return self.ip.arr(D(shp, self.ip.bcells(d, shp)))
        return self.ip.arr(U(c.node if isinstance(c, U) else self.ip.unode(c), shp))

    def _like(self, v, node, kw):
        ip = self.ip
        if kw.get("shape") is not None:
            return self.filled(self._shape(kw["shape"]), node)
        if isinstance(v, Unk):
            return ip.arr(U(node, None))
        c = ip.content(v)
        if isinstance(c, D):
            return ip.arr(D(c.shape, [node] * len(c.cells)))
        return ip.arr(U(node, c.shape))

    def np_zeros_like(self, args, kw):
        return self._like(args[0] if args else kw["a"], g.ZERO, kw)

    def np_ones_like(self, args, kw):
        return self._like(args[0] if args else kw["a"], g.ONE, kw)

    def np_empty_like(self, args, kw):
        return self._like(args[0] if args else kw["prototype"], g.unk("uninitialised"), kw)

    def np_full_like(self, args, kw):
        ip = self.ip
        v = args[0] if args else kw["a"]
        fill = args[1] if len(args) > 1 else kw.get("fill_value")
        fc = ip.content(fill)
        if fc.shape == ():
            return self._like(v, ip.unode(fc), kw)
        shp = self._shape(kw["shape"]) if kw.get("shape") is not None else getattr(ip.content(v), "shape", None)
        if shp is None:
            return ip.arr(U(g.mk("op:full", (ip.unode(fc),)), None))
        return self.np_full([Tup(shp), fill], {})

    def uncuttable(self, o, c):
        """The result of an in-place operation must have the type of the array."""
        dt = self.ip.meta[o.addr].get("dt")
        if dt is not None and not all(g.integral(x, dt) for x in (c.cells if isinstance(c, D) else [c.node])):
            raise AbsRaise(ExcV("TypeError", ("Cannot cast ufunc output to the type of the array",)))

    # ---- integer arrays
    # An array created from integers of the caller keeps their type: fractions
    # stored into it are cut off.  meta "dt" of an array holds the inputs that
    # all have to be integers for this to happen (empty: always).
    KEEPDT = set("""array asarray asanyarray ascontiguousarray copy atleast_1d atleast_2d atleast_3d ravel reshape sort
        unique broadcast_to minimum maximum fmin fmax concatenate hstack vstack stack append tile repeat transpose abs
        absolute add subtract multiply negative positive expand_dims squeeze roll flip swapaxes moveaxis zeros_like
        ones_like empty_like full_like diff cumsum insert delete""".split())

    def dt_of(self, v):
        if isinstance(v, bool):
            return None
        if isinstance(v, int):
            return frozenset()
        if isinstance(v, Num):
            return frozenset([v.node]) if v.node.op in ("param", "arg") else v.dt
        if isinstance(v, Arr):
            return self.ip.meta[v.addr].get("dt")
        if isinstance(v, (ListV, Tup)):
            its = self.ip.try_items(v)
            if not its:
                return None
            ds = [self.dt_of(x) for x in its]
            return frozenset().union(*ds) if None not in ds else None
        return None

    def dt_named(self, t):
        """dtype argument -> set of inputs, or None for floating point or unknown."""
        if isinstance(t, Ext) and t.name in ("builtins.int", "numpy.int64", "numpy.int32", "numpy.int_", "numpy.intp"):
            return frozenset()
        if t in ("int", "int64", "int32", "i8", "i4", "i"):
            return frozenset()
        if isinstance(t, ExtObj) and t.kind == "ndmeta" and t.p.get("name") == "dtype":
            return self.dt_of(t.p["node"])
        return None

    def cut(self, v, dt):
        """Value as stored into an array of integers."""
        ip = self.ip
        if dt is None or not self._num(v):
            return v
        f = lambda x: g.cut(x, dt)
        c = ip.content(v)
        cells = c.cells if isinstance(c, D) else [c.node]
        if all(f(x) is x for x in cells):
            return v
        return ip.ewise(f, v)

    def set_dt(self, n, args, kw, r):
        """dtype of the result of a numpy function."""
        ip = self.ip
        if isinstance(r, (Tup, ListV)):
            if n in ("broadcast_arrays", "atleast_1d", "meshgrid"):
                its = ip.try_items(r) or []
                if len(its) == len(args):
                    for a, x in zip(args, its):
                        if isinstance(x, Arr) and not isinstance(a, Arr) or isinstance(x, Arr) and x.addr != a.addr:
                            ip.meta[x.addr].setdefault("dt", self.dt_of(a))
            return r
        if isinstance(r, Num) and n in ("minimum", "maximum", "abs", "absolute", "add", "subtract", "multiply"):
            ds = [self.dt_of(a) for a in args[:2]]
            if r.dt is None and None not in ds and not any(a is r for a in args):
                r.dt = frozenset().union(*ds)
        if not isinstance(r, Arr):
            return r
        t = kw.get("dtype")
        if t is None and n in ("array", "asarray", "zeros", "ones", "empty", "asanyarray") and len(args) > 1:
            t = args[1]
        if t is None and n in ("zeros_like", "ones_like", "empty_like") and len(args) > 1:
            t = args[1]
        if t is None and n in ("full", "full_like") and len(args) > 2:
            t = args[2]
        if t is not None:
            dt = self.dt_named(t)
        elif n == "full":
            dt = self.dt_of(args[1] if len(args) > 1 else kw.get("fill_value"))
        elif n in ("zeros_like", "ones_like", "empty_like", "full_like"):
            dt = self.dt_of(args[0] if args else kw.get("a", kw.get("prototype")))
        elif n in self.KEEPDT:
            if n in ("add", "subtract", "multiply", "minimum", "maximum", "fmin", "fmax", "append"):
                ds = [self.dt_of(a) for a in args[:2]]
            elif n == "insert":
                ds = [self.dt_of(args[0]), self.dt_of(args[-1])]
            else:
                ds = [self.dt_of(args[0])] if args else [None]
            dt = frozenset().union(*ds) if None not in ds else None
        else:
            dt = None
        same = any(isinstance(a, Arr) and a.addr == r.addr for a in args)
        if same:
            if t is not None and ip.meta[r.addr].get("dt") is not None and dt != ip.meta[r.addr]["dt"]:
                r = ip.arr(ip.content(r), ip.storages(r))
            else:
                return r
        if kw.get("out") is not None:
            return r
        if dt is not None:
            if n in ("full", "full_like") or t is not None:
                r2 = self.cut(r, dt)
                if r2 is not r:
                    r = r2
            ip.meta[r.addr]["dt"] = dt
        return r

    def np_arange(self, args, kw):
        ip = self.ip
        if all(ip_isnum(a) for a in args):
            lo, hi, st = 0, None, 1
            if len(args) == 1:
                hi = args[0]
            else:
                lo, hi = args[0], args[1]
                if len(args) > 2:
                    st = args[2]
            n = max(0, math.ceil((hi - lo) / st))
            if n <= 5000:
                return ip.arr(D((n,), [g.const(lo + i * st) for i in range(n)]))
        return ip.arr(U(ip.unknown("arange", *args), None))

    def np_linspace(self, args, kw):
        ip = self.ip
        num = args[2] if len(args) > 2 else kw.get("num", 50)
        if all(ip_isnum(a) for a in args[:2]) and isinstance(num, int) and num <= 2000 and not kw.get("retstep"):
            a, b = args[:2]
            ep = kw.get("endpoint", True)
            d = (b - a) / ((num - 1) if ep else num) if num > 1 else 0
            return ip.arr(D((num,), [g.const(a + i * d) for i in range(num)]))
        return ip.arr(U(g.unk("linspace", *ip.depnodes(args)), (num,) if isinstance(num, int) else None))

    def np_logspace(self, args, kw):
        ip = self.ip
        num = args[2] if len(args) > 2 else kw.get("num", 50)
        if all(ip_isnum(a) for a in args[:2]) and isinstance(num, int) and num <= 2000:
            a, b = args[:2]
            return ip.arr(D((num,), [g.const(10 ** (a + i * (b - a) / max(1, num - 1))) for i in range(num)]))
        return ip.arr(U(g.unk("logspace", *ip.depnodes(args)), None))

    np_geomspace = np_logspace

    def np_eye(self, args, kw):
        n = args[0]
        if isinstance(n, int) and n <= 60:
            return self.ip.arr(D((n, n), [g.ONE if i == j else g.ZERO for i in range(n) for j in range(n)]))
        return self.ip.arr(U(g.mk("eye"), None))

    np_identity = np_eye

    def np_diag(self, args, kw):
        ip = self.ip
        c = ip.content(args[0])
        if isinstance(c, D) and len(args) == 1:
            if len(c.shape) == 1 and c.shape[0] <= 60:
                n = c.shape[0]
                return ip.arr(D((n, n), [c.cells[i] if i == j else g.ZERO for i in range(n) for j in range(n)]))
            if len(c.shape) == 2:
                n = min(c.shape)
                return ip.arr(D((n,), [c.cells[i * c.shape[1] + i] for i in range(n)]))
        return ip.arr(U(g.mk("op:diag", (ip.unode(c),)), None))

    def np_diagonal(self, args, kw):
        return self.np_diag(args[:1], {})

    def np_outer(self, args, kw):
        ip = self.ip
        a = self.asarr(args[0])
        b = self.asarr(args[1])
        col = self.getitem_arr(a, Tup([SliceV(None, None, None), None]))
        return ip.ewise(g.mul, col, b)

    def np_fill_diagonal(self, args, kw):
        ip = self.ip
        a = args[0]
        if not isinstance(a, Arr):
            return None
        c = ip.content(a)
        v = ip.content(args[1]) if len(args) > 1 else ip.content(kw["val"])
        if isinstance(c, D) and len(c.shape) == 2:
            cells = list(c.cells)
            for i in range(min(c.shape)):
                cells[i * c.shape[1] + i] = v.node if isinstance(v, U) else v.cells[i % len(v.cells)]
            nc = D(c.shape, cells)
        else:
            nc = U(g.mk("diagset", (ip.unode(c), ip.unode(v))), c.shape)
        ip.mutate_arr(a, nc, "np.fill_diagonal")
        return None

    def np_copyto(self, args, kw):
        ip = self.ip
        if isinstance(args[0], Arr):
            self.out_where(args[1] if not ip_isnum(args[1]) else args[1], {"out": args[0], **{k: v for k, v in kw.items() if k == "where"}})
        return None

    def np_putmask(self, args, kw):
        self.setitem(args[0], args[1], args[2])
        return None

    np_place = np_putmask

    def np_put(self, args, kw):
        self.setitem(args[0], args[1], args[2])
        return None

    def np_random_shuffle(self, args, kw):
        if isinstance(args[0], Arr):
            self.ip.mutate_arr(args[0], U(self.ip.unknown("shuffle"), None), "np.random.shuffle")
        self.ambient("numpy.random.shuffle")

    def np_stackish(self, args, kw, how):
        ip = self.ip
        it = ip.try_items(args[0])
        if it is None:
            return ip.arr(U(ip.unknown(how, *args), None))
        self._checknum(*it)
        cs = [ip.content(x) for x in it]
        ds = [ip.densify(c) for c in cs]
        axis = kw.get("axis", args[1] if len(args) > 1 else 0)
        if all(d is not None for d in ds) and sum(len(d.cells) for d in ds) <= 20000:
            if how in ("concatenate", "hstack") and all(len(d.shape) <= 1 for d in ds):
                cells = [x for d in ds for x in d.cells]
                return ip.arr(D((len(cells),), cells))
            if how in ("vstack", "stack") and axis == 0 and all(len(d.shape) <= 1 for d in ds) and len({d.shape for d in ds}) == 1:
                return ip.arr(D((len(ds),) + ds[0].shape, [x for d in ds for x in d.cells]))
            if (how in ("column_stack",) or how == "stack" and axis in (1, -1)) and all(len(d.shape) == 1 for d in ds) and len({d.shape for d in ds}) == 1:
                n = ds[0].shape[0]
                return ip.arr(D((n, len(ds)), [d.cells[i] for i in range(n) for d in ds]))
            if how in ("concatenate", "vstack") and axis == 0 and all(len(d.shape) == 2 for d in ds) and len({d.shape[1] for d in ds}) == 1:
                return ip.arr(D((sum(d.shape[0] for d in ds), ds[0].shape[1]), [x for d in ds for x in d.cells]))
        shape = None
        if how in ("concatenate", "hstack") and all(c.shape is not None and len(c.shape) <= 1 for c in cs):
            shape = (sum(c.shape[0] if c.shape else 1 for c in cs),)
        return ip.arr(U(g.mk("op:" + how, tuple(ip.unode(c) for c in cs)), shape))

    def np_vstack(self, a, k):
        return self.np_stackish(a, k, "vstack")

    def np_hstack(self, a, k):
        return self.np_stackish(a, k, "hstack")

    def np_concatenate(self, a, k):
        return self.np_stackish(a, k, "concatenate")

    def np_stack(self, a, k):
        return self.np_stackish(a, k, "stack")

    def np_column_stack(self, a, k):
        return self.np_stackish(a, k, "column_stack")

    def np_row_stack(self, a, k):
        return self.np_stackish(a, k, "vstack")

    def np_take(self, args, kw):
        ip = self.ip
        a = dict(zip(("a", "indices", "axis", "out", "mode"), args))
        a.update(kw)
        v = self.asarr(a["a"]) if self._num(a.get("a")) else None
        if v is None or a.get("out") is not None or a.get("mode", "raise") != "raise":
            return Unk(ip.unknown("take", *args), "take")
        c = ip.content(v)
        one = c.shape is not None and len(c.shape) == 1
        if a.get("axis") in (None, 0, -1) and one or a.get("axis") == 0 and c.shape is not None:
            r = self.getitem(v, a["indices"])
            return ip.arr(ip.content(r)) if isinstance(r, Arr) else r
        return ip.arr(U(ip.unknown("take", *args), None))

    def np_compress(self, args, kw):
        if len(args) == 2 and not kw and self._num(args[1]):
            return self.getitem(self.asarr(args[1]), self.asarr(args[0]))
        return self.ip.arr(U(self.ip.unknown("compress", *args), None))

    def np_extract(self, args, kw):
        return self.np_compress(args, kw)

    def np_linalg_norm(self, args, kw):
        ip = self.ip
        a = dict(zip(("x", "ord", "axis", "keepdims"), args))
        a.update(kw)
        c = ip.content(a["x"]) if self._num(a["x"]) else None
        one = c is not None and c.shape is not None and len(c.shape) == 1
        two = a.get("ord") == 2 and (one or isinstance(a.get("axis"), int) and a.get("axis") is not False)
        if c is None or a.get("keepdims") or not (a.get("ord") is None or two):
            return ip.arr(U(ip.unknown("norm", *args), None))
        sq = ip.ewise(lambda x: g.mul(x, x), a["x"])
        return ip.ewise(UNARY["sqrt"], self.reduce("sum", sq, [], {"axis": a["axis"]} if a.get("axis") is not None else {}))

    def np_trace(self, args, kw):
        if len(args) == 1 and not kw:
            return self.reduce("sum", self.np_diag(args, {}), [], {})
        return Unk(self.ip.unknown("trace", *args), "trace")

    def _triangle(self, args, kw, keep):
        ip = self.ip
        a = dict(zip(("n", "k", "m"), args))
        a.update(kw)
        n, k, m = a.get("n"), a.get("k", 0), a.get("m")
        m = n if m is None else m
        if all(isinstance(x, int) for x in (n, k, m)) and n * m <= 4000:
            ij = [(i, j) for i in range(n) for j in range(m) if keep(j - i, k)]
            return Tup([ip.arr(D((len(ij),), [g.const(t[q]) for t in ij])) for q in (0, 1)])
        return Tup([ip.arr(U(ip.unknown("triangle", *args), None)) for q in (0, 1)])

    def np_triu_indices(self, args, kw):
        return self._triangle(args, kw, lambda d, k: d >= k)

    def np_tril_indices(self, args, kw):
        return self._triangle(args, kw, lambda d, k: d <= k)

    def np_diag_indices(self, args, kw):
        return self._triangle(args[:1], {}, lambda d, k: d == 0)

    def np_append(self, args, kw):
        return self.np_stackish([Tup([args[0], args[1]])], {}, "concatenate")

    def np_block(self, a, k):
        return self.ip.arr(U(self.ip.unknown("block", *a), None))

    def np_insert(self, args, kw):
        ip = self.ip
        c = ip.densify(ip.content(args[0]))
        v = ip.content(args[2])
        if c is not None and isinstance(args[1], int) and v.shape == () and len(c.shape) == 1:
            cells = list(c.cells)
            cells.insert(args[1], ip.unode(v))
            return ip.arr(D((len(cells),), cells))
        return ip.arr(U(ip.unknown("insert", *args), None))

    def np_delete(self, args, kw):
        return self.ip.arr(U(self.ip.unknown("delete", *args), None))

    def np_tile(self, args, kw):
        ip = self.ip
        c = ip.densify(ip.content(args[0]))
        if c is not None and isinstance(args[1], int) and len(c.shape) <= 1:
            return ip.arr(D((len(c.cells) * args[1],), c.cells * args[1]))
        if c is not None and isinstance(args[1], Tup) and len(args[1].items) == 2 and len(c.shape) == 1 and args[1].items[1] == 1 and isinstance(args[1].items[0], int):
            return ip.arr(D((args[1].items[0], c.shape[0]), c.cells * args[1].items[0]))
        return ip.arr(U(ip.unknown("tile", *args), None))

    def np_repeat(self, args, kw):
        ip = self.ip
        c = ip.densify(ip.content(args[0]))
        if c is not None and isinstance(args[1], int):
            cells = [x for x in c.cells for _ in range(args[1])]
            return ip.arr(D((len(cells),), cells))
        return ip.arr(U(ip.unknown("repeat", *args), None))

    def np_meshgrid(self, args, kw):
        ip = self.ip
        if len(args) == 2 and kw.get("indexing", "xy") in ("xy", "ij"):
            a, b = self.asarr(args[0]), self.asarr(args[1])
            if kw.get("indexing", "xy") == "ij":
                a, b = b, a
            z = Tup([SliceV(None, None, None), None])
            bc = self.getitem_arr(b, z)
            row = ip.ewise(lambda x, y: x, a, bc)
            col = ip.ewise(lambda x, y: y, a, bc)
            return Tup([col, row]) if kw.get("indexing", "xy") == "ij" else Tup([row, col])
        return Unk(ip.unknown("meshgrid", *args), "meshgrid")

    def np_ravel(self, args, kw):
        ip = self.ip
        a = self.asarr(args[0])
        c = ip.content(a)
        st = ip.storages(a)
        if isinstance(c, D):
            shape = c.shape
            return ip.arr(D((len(c.cells),), c.cells), st,
                          (a.addr, lambda b: D((len(b.cells),), b.cells) if isinstance(b, D) else b,
                           lambda b, v: D(shape, v.cells) if isinstance(v, D) else v))
        if c.shape is not None and len(c.shape) == 1:
            return a
        return ip.arr(U(g.mk("ravel", (c.node,)), (ip.size(c.shape),) if c.shape is not None else None), st)

    def np_reshape(self, args, kw):
        ip = self.ip
        a = self.asarr(args[0])
        shp = args[1:] if len(args) > 2 else None
        if shp is None:
            sv = args[1] if len(args) > 1 else kw.get("newshape", kw.get("shape"))
            shp = [sv] if isinstance(sv, int) else (ip.try_items(sv) if isinstance(sv, (Tup, ListV)) else None)
        return self.reshape(a, shp)

    def reshape(self, a, shp):
        ip = self.ip
        c = ip.content(a)
        st = ip.storages(a)
        if shp is not None and any(x is None or isinstance(x, (str, float, Tup, ListV)) or isinstance(x, Arr) and ip.content(x).shape not in ((), None) for x in shp):
            raise AbsRaise(ExcV("TypeError", ("not an integer",)))
        if shp is not None and all(isinstance(x, int) for x in shp):
            shp = list(shp)
            n = ip.size(c.shape) if c.shape is not None else None
            if n is not None and -1 in shp:
                i = shp.index(-1)
                r = 1
                for j, x in enumerate(shp):
                    if j != i:
                        r *= x
                shp[i] = n // r if r else 0
            if n is not None and ip.size(shp) != n:
                raise AbsRaise(ExcV("ValueError", ("cannot reshape",)))
            shp = tuple(shp)
            if isinstance(c, D):
                old = c.shape
                return ip.arr(D(shp, c.cells), st,
                              (a.addr, lambda b: D(shp, b.cells) if isinstance(b, D) else b,
                               lambda b, v: D(old, v.cells) if isinstance(v, D) else v))
            if c.shape == shp:
                return a
            if c.shape is not None and len(c.shape) == 1 and len(shp) == 2:
                if shp[1] == 1:
                    return ip.arr(U(g.axcol(c.node), shp), st)
                if shp[0] == 1:
                    return ip.arr(U(c.node, shp), st)
            if c.shape is None and shp == (-1, 1):
                return ip.arr(U(g.axcol(c.node), None), st)
            if c.shape is None and shp in ((1, -1), (-1,)):
                return ip.arr(U(c.node, None), st)
            return ip.arr(U(g.mk("reshape", (c.node,), shp), None if -1 in shp else shp), st)
        return ip.arr(U(g.mk("reshape", (ip.unode(c),), "?"), None), st)

    def reshape_inplace(self, a, shp):
        v = self.reshape(a, self.ip.try_items(shp) if isinstance(shp, (Tup, ListV)) else [shp])
        self.ip.set((a.addr, "c"), self.ip.content(v))

    def transpose(self, a):
        ip = self.ip
        if isinstance(a, Unk):
            return Unk(g.mk("T", (a.node,)), "T")
        c = ip.content(a)
        st = ip.storages(a) if isinstance(a, Arr) else None
        if isinstance(c, D):
            if len(c.shape) < 2:
                return a
            if len(c.shape) == 2:
                def tr(b):
                    if not isinstance(b, D):
                        return U(g.transpose(b.node), None)
                    r, k = b.shape
                    return D((k, r), [b.cells[i * k + j] for j in range(k) for i in range(r)])
                return ip.arr(tr(c), st, (a.addr, tr, lambda b, v: tr(v)) if isinstance(a, Arr) else None)
        if isinstance(c, U):
            if c.shape is not None and len(c.shape) < 2:
                return a
            return ip.arr(U(g.transpose(c.node), tuple(reversed(c.shape)) if c.shape else None), st)
        return ip.arr(U(g.mk("T", (ip.unode(c),)), None), st)

    def np_transpose(self, args, kw):
        return self.transpose(self.asarr(args[0]) if not isinstance(args[0], Unk) else args[0])

    def np_squeeze(self, args, kw):
        ip = self.ip
        a = self.asarr(args[0])
        c = ip.content(a)
        if c.shape is not None:
            shp = tuple(x for x in c.shape if x != 1)
            if shp == c.shape:
                return a
            return ip.arr(D(shp, c.cells) if isinstance(c, D) else U(c.node, shp), ip.storages(a))
        return a

    def np_expand_dims(self, args, kw):
        ax = args[1] if len(args) > 1 else kw.get("axis")
        z = SliceV(None, None, None)
        return self.getitem(args[0], Tup([None, z]) if ax == 0 else Tup([z, None]))

    def np_broadcast_to(self, args, kw):
        ip = self.ip
        a = self.asarr(args[0])
        c = ip.content(a)
        shp = self._shape(args[1])
        if shp is not None and isinstance(c, D) and ip.size(shp) <= 5000:
            return ip.arr(D(shp, ip.bcells(c, shp)), ip.storages(a))
        return ip.arr(U(ip.unode(c), shp), ip.storages(a))

    def np_broadcast_arrays(self, args, kw):
        ip = self.ip
        out = []
        for i in range(len(args)):
            out.append(ip.ewise(lambda *x, i=i: x[i], *args))
        return self.ip.mklist(out)

    def np_where(self, args, kw):
        ip = self.ip
        if len(args) == 1:
            c = ip.content(args[0])
            if isinstance(c, D) and len(c.shape) == 1:
                ds = [ip.decide(g.truth(x)) for x in c.cells]
                if all(d is not None for d in ds):
                    idx = [i for i, d in enumerate(ds) if d]
                    return Tup([ip.arr(D((len(idx),), [g.const(i) for i in idx]))])
            return Tup([ip.arr(U(g.mk("op:nonzero", (ip.unode(c),)), None))])
        self._checknum(*args)
        return ip.ewise(lambda c, a, b: g.ite(g.truth(c), g.tonum(a), g.tonum(b)), args[0], args[1], args[2]) if any(
            ip.isarrlike(a) for a in args) else self._where0(args)

    def _where0(self, args):
        r = self.ip.ewise(lambda c, a, b: g.ite(g.truth(c), g.tonum(a), g.tonum(b)), *args)
        return r

    np_nonzero = np_where
    np_flatnonzero = None

    def np_flatnonzero(self, args, kw):
        return self.np_where(args[:1], {}).items[0]

    def np_argwhere(self, args, kw):
        return self.ip.arr(U(self.ip.unknown("argwhere", *args), None))

    def np_select(self, args, kw):
        ip = self.ip
        conds, choices = ip.items(args[0]), ip.items(args[1])
        default = args[2] if len(args) > 2 else kw.get("default", 0)
        if len(conds) != len(choices):
            raise AbsRaise(ExcV("ValueError", ("select lists differ in length",)))
        self._checknum(*conds, *choices)
        vals = conds + choices + [default]
        k = len(conds)

        def f(*xs):
            r = xs[2 * k]
            for i in range(k - 1, -1, -1):
                r = g.ite(g.truth(xs[i]), g.tonum(xs[k + i]), g.tonum(r))
            return r
        return ip.ewise(f, *vals)

    def np_choose(self, args, kw):
        ip = self.ip
        ch = ip.items(args[1])

        def f(i, *xs):
            r = xs[-1]
            for j in range(len(xs) - 2, -1, -1):
                r = g.ite(g.eq(i, g.const(j)), xs[j], r)
            return r
        return ip.ewise(f, args[0], *ch)

    def np_piecewise(self, args, kw):
        ip = self.ip
        conds, fs = ip.items(args[1]), ip.items(args[2])
        x = args[0]
        default = 0
        if len(fs) == len(conds) + 1:
            default = fs[-1]
        val = lambda f: ip.call(f, [x], {}) if isinstance(f, (FuncV, Bound)) else f
        r = val(default)
        for c, f in reversed(list(zip(conds, fs))):
            r = self.np_where([c, val(f), r], {})
        return r

    def np_clip(self, args, kw):
        ip = self.ip
        x = args[0]
        lo = args[1] if len(args) > 1 else kw.get("a_min", kw.get("min"))
        hi = args[2] if len(args) > 2 else kw.get("a_max", kw.get("max"))
        for i, v in ((1, lo), (2, hi)):
            if isinstance(v, Gate):
                v = ip.resolve(v)
                if isinstance(v, Gate):
                    if i == 1:
                        return ip.split(v, lambda y: self.np_clip([x, y, hi], kw))
                    return ip.split(v, lambda y: self.np_clip([x, lo, y], kw))
        r = x
        if lo is None and hi is None:
            return x
        if lo is not None:
            r = ip.ewise(g.maximum, r, lo)
        if hi is not None:
            r = ip.ewise(g.minimum, r, hi)
        return self.out_where(r, kw)

    def np_interp(self, args, kw):
        ip = self.ip
        names = ["x", "xp", "fp", "left", "right", "period"]
        a = dict(zip(names, args))
        a.update(kw)
        self._checknum(a["x"], a["xp"], a["fp"])
        xp = ip.content(a["xp"])
        fp = ip.content(a["fp"])
        for c, nm in ((xp, "xp"), (fp, "fp")):
            if c.shape == ():
                raise AbsRaise(ExcV("ValueError", ("object of too small depth",)))
        if xp.shape is not None and fp.shape is not None and xp.shape != fp.shape:
            raise AbsRaise(ExcV("ValueError", ("fp and xp are not of the same length",)))
        xn, fn = ip.unode(xp), ip.unode(fp)
        opt = []
        for k in ("left", "right"):
            v = a.get(k)
            opt.append(None if v is None else ip.unode(ip.content(v)))
        ends = ()
        if xp.shape is not None and len(xp.shape) == 1:
            n = xp.shape[0]
            fe = (g.index(fn, 0) if isinstance(fp, U) else fp.cells[0], g.index(fn, n - 1) if isinstance(fp, U) else fp.cells[-1])
            xe = (g.index(xn, 0) if isinstance(xp, U) else xp.cells[0], g.index(xn, n - 1) if isinstance(xp, U) else xp.cells[-1])
            # explicit fill equal to the end value is the default
            if opt[0] is fe[0]:
                opt[0] = None
            if opt[1] is fe[1]:
                opt[1] = None

        def f(x):
            if xp.shape is not None and isinstance(xp, D) and isinstance(fp, D) and x.op == "const" and all(
                    c.op == "const" for c in xp.cells) and all(c.op == "const" for c in fp.cells):
                return g.const(npinterp(x.data, [c.data for c in xp.cells], [c.data for c in fp.cells],
                                        opt[0].data if opt[0] is not None else None, opt[1].data if opt[1] is not None else None))
            return g.interp(x, xn, fn, opts=tuple(opt))
        return ip.ewise(f, a["x"])

    def reduce(self, n, v, rest, kw):
        ip = self.ip
        n = {"amin": "min", "amax": "max", "product": "prod"}.get(n, n)
        if v is None:
            raise AbsRaise(ExcV("TypeError", ("reduction of None",)))
        if not self._num(v):
            return Unk(ip.unknown("reduce " + n, v), "reduce")
        axis = rest[0] if rest else kw.get("axis")
        c = ip.content(v)
        if isinstance(c, U) and (n == "argsort" or n in ("min", "max", "argmin", "argmax") and g.known(c.node) is None):
            c = ip.densify(c) or c
        if n == "count_nonzero" or n == "sum" and g.is_bool(c.cells[0] if isinstance(c, D) and c.cells else c.node if isinstance(c, U) else g.ZERO):
            d = ip.densify(c) if axis is None or c.shape is not None and len(c.shape) == 1 else None
            if d is not None:
                t = [g.truth(x) for x in d.cells]
                if all(x in (g.TRUE, g.FALSE) for x in t):
                    return sum(x is g.TRUE for x in t)
                n = "sum"
                c = D(d.shape, [g.ite(x, g.ONE, g.ZERO) for x in t])
        if c.shape == () and n in ("sum", "min", "max", "mean", "prod", "any", "all", "median"):
            node = ip.unode(c)
            return Num(g.truth(node) if n in ("any", "all") else node)
        if isinstance(c, D) and axis is not None and len(c.shape) == 2 and n in ("sum", "min", "max", "any", "all", "mean", "prod") and axis in (0, 1, -1):
            r, k = c.shape
            groups = [[c.cells[i * k + j] for i in range(r)] for j in range(k)] if axis == 0 else [
                list(c.cells[i * k:(i + 1) * k]) for i in range(r)]
            return ip.arr(D((len(groups),), [self.red(n, x) for x in groups]))
        if isinstance(c, D) and (axis is None or len(c.shape) == 1) and c.cells:
            if n in ("sum", "min", "max", "any", "all", "mean", "prod"):
                return Num(self.red(n, list(c.cells)))
            if n in ("argmin", "argmax") and len(c.shape) == 1:
                if all(x.op == "const" for x in c.cells):
                    vals = [x.data for x in c.cells]
                    return vals.index((min if n == "argmin" else max)(vals))
                return Num(g.mk("op:" + n, (ip.unode(c),), None))
            if n == "argsort" and len(c.shape) == 1:
                order = self.order_of(c.cells)
                if order is not None:
                    return ip.arr(D(c.shape, [g.const(i) for i in order]))
            if n == "cumsum" and len(c.shape) == 1:
                out, acc = [], g.ZERO
                for x in c.cells:
                    acc = g.add(acc, x)
                    out.append(acc)
                return ip.arr(D(c.shape, out))
        node = ip.unode(c)
        if isinstance(c, U) and n in ("any", "all") and g.is_bool(node) and node in (g.TRUE, g.FALSE):
            return node is g.TRUE
        if isinstance(c, U) and n in ("min", "max", "argmin", "argmax") and g.known(node) is not None and isinstance(g.known(node), tuple):
            vals = list(g.known(node))
            i = vals.index((min if n.endswith("min") else max)(vals))
            if n.startswith("arg"):
                return i
            return Num(g.index(node, i))
        r = g.mk("op:" + n, (node,), axis if isinstance(axis, int) else None)
        if n in ("cumsum", "cumprod", "argsort"):
            return ip.arr(U(r, c.shape))
        if n in ("any", "all"):
            r = g.truth(r)
        if axis is None:
            return Num(r)
        return ip.arr(U(r, None))

    def order_of(self, xs):
        """Sorting permutation when every comparison is decided."""
        import functools
        ks = [g.known(x) for x in xs]
        if all(isinstance(k, (int, float)) and k == k for k in ks):
            return sorted(range(len(xs)), key=lambda i: ks[i])
        if len(xs) > 60:
            return None

        def cmp(i, j):
            a, b = xs[i], xs[j]
            if a is b:
                return 0
            x = g.lt(a, b)
            if x is g.TRUE:
                return -1
            y = g.lt(b, a)
            if y is g.TRUE:
                return 1
            if x is g.FALSE and y is g.FALSE:
                return 0
            raise KeyError
        try:
            return sorted(range(len(xs)), key=functools.cmp_to_key(cmp))
        except KeyError:
            return None

    def red(self, n, xs):
        if n in ("min", "max") and len(xs) > 16 and not all(x.op == "const" for x in xs):
            return g.mk("op:" + n, (g.vec(xs),), None)
        if n == "sum":
            return g.add(*xs)
        if n == "mean":
            return g.scale(g.add(*xs), 1.0 / len(xs))
        if n == "prod":
            return g.mul(*xs)
        if n == "min":
            return g.minimum(*xs)
        if n == "max":
            return g.maximum(*xs)
        if n == "any":
            return g.bor(*[g.truth(x) for x in xs])
        return g.band(*[g.truth(x) for x in xs])

    def np_sort(self, args, kw):
        ip = self.ip
        c = ip.content(args[0])
        if isinstance(c, D) and all(x.op == "const" for x in c.cells) and len(c.shape) == 1:
            return ip.arr(D(c.shape, sorted(c.cells, key=lambda x: x.data)))
        d = ip.densify(c)
        if d is not None and len(d.shape) == 1 and len(d.cells) <= 6 and len(args) == 1 and set(kw) <= {"kind"}:
            cells = list(d.cells)
            for i in range(len(cells)):
                for j in range(len(cells) - 1 - i):
                    cells[j], cells[j + 1] = g.minimum(cells[j], cells[j + 1]), g.maximum(cells[j], cells[j + 1])
            return ip.arr(D(d.shape, cells))
        return ip.arr(U(g.mk("op:sort", (ip.unode(c),)), c.shape))

    def np_unique(self, args, kw):
        return self.ip.arr(U(g.mk("op:unique", (self.ip.unode(self.ip.content(args[0])),)), None))

    def np_diff(self, args, kw):
        ip = self.ip
        c = ip.content(args[0])
        if isinstance(c, D) and len(c.shape) == 1:
            return ip.arr(D((c.shape[0] - 1,), [g.sub(b, a) for a, b in zip(c.cells, c.cells[1:])]))
        return ip.arr(U(g.mk("op:diff", (ip.unode(c),)), None))

    def np_searchsorted(self, args, kw):
        ip = self.ip
        a = ip.content(args[0])
        an = ip.unode(a)
        side = kw.get("side", args[2] if len(args) > 2 else "left")
        return ip.ewise(lambda v: g.mk("el:searchsorted", (an, v), str(side)), args[1])

    np_digitize = None

    def np_digitize(self, args, kw):
        bn = self.ip.unode(self.ip.content(args[1]))
        return self.ip.ewise(lambda v: g.mk("el:digitize", (bn, v)), args[0])

    def np_convolve(self, args, kw):
        ip = self.ip
        a = ip.content(args[0])
        b = ip.content(args[1])
        mode = kw.get("mode", args[2] if len(args) > 2 else "full")
        da, db = ip.densify(a), ip.densify(b)
        if da is not None and db is not None and len(da.shape) == len(db.shape) == 1 and mode in ("full", "same", "valid"):
            xs, ks = list(da.cells), list(db.cells)
            if len(xs) < len(ks):
                xs, ks = ks, xs
            if 0 < len(ks) <= 24 and len(xs) <= 2000:
                n, m = len(xs), len(ks)
                full = [g.add(*[g.mul(xs[j - k], ks[k]) for k in range(m) if 0 <= j - k < n]) for j in range(n + m - 1)]
                if mode == "same":
                    full = full[(m - 1) // 2:(m - 1) // 2 + n]
                elif mode == "valid":
                    full = full[m - 1:n]
                return ip.arr(D((len(full),), full))
        return ip.arr(U(g.mk("op:convolve", (ip.unode(a), ip.unode(b)), str(mode)), a.shape if mode == "same" else None))

    def np_trapz(self, args, kw):
        return Num(g.mk("op:trapz", tuple(self.ip.depnodes(args))))

    np_trapezoid = np_trapz

    def np_isclose(self, args, kw):
        ip = self.ip
        names = ["a", "b", "rtol", "atol", "equal_nan"]
        a = dict(zip(names, args))
        a.update(kw)
        self._checknum(a["a"], a["b"])
        return self._close(a["a"], a["b"], a.get("rtol", 1e-5), a.get("atol", 1e-8))

    def _close(self, one, two, rt, at, rel=lambda x, y: g.maximum(y, g.neg(y))):
        ip = self.ip

        def f(x, y):
            x, y = g.tonum(x), g.tonum(y)
            if x is y:
                return g.TRUE
            if x.op == "const" and y.op == "const" and ip_isnum(rt) and ip_isnum(at):
                return g.TRUE if abs(x.data - y.data) <= at + rt * abs(y.data) else g.FALSE
            p, q = sorted((x, y), key=lambda n: n.id)
            if ip_isnum(rt) and ip_isnum(at) and (rt > 1e-4 or at > 1e-6):
                # more than rounding: a condition on the difference
                d = g.sub(x, y)
                return g.le(g.maximum(d, g.neg(d)), g.add(g.const(float(at)), g.scale(rel(x, y), float(rt))))
            return g.mk("isnone", (p, q), ("isclose", rt if ip_isnum(rt) else "?", at if ip_isnum(at) else "?"))
        r = ip.ewise(f, one, two)
        if isinstance(r, Num):
            return ip.boolv(r.node)
        return r

    def np_allclose(self, args, kw):
        return self.reduce("all", self.np_isclose(args, kw), [], {})

    def f_math_isclose(self, args, kw):
        a, b = args
        return self._close(a, b, kw.get("rel_tol", 1e-9), kw.get("abs_tol", 0.0),
                           lambda x, y: g.maximum(x, g.neg(x), y, g.neg(y)))

    def np_array_equal(self, args, kw):
        return Num(g.truth(self.ip.unknown("array_equal", *args)))

    def np_isscalar(self, args, kw):
        v = args[0]
        if isinstance(v, (Num, int, float, str, bool)):
            return True
        if isinstance(v, Unk):
            return Num(g.truth(self.ip.unknown("isscalar", v)))
        return False

    def np_ndim(self, args, kw):
        s = self.shape_of(args[0])
        return len(s) if s is not None else Num(self.ip.unknown("ndim", args[0]))

    def np_shape(self, args, kw):
        s = self.shape_of(args[0])
        return Tup(s) if s is not None else Unk(self.ip.unknown("shape", args[0]), "shape")

    def np_size(self, args, kw):
        s = self.shape_of(args[0])
        return self.ip.size(s) if s is not None else Num(self.ip.unknown("size", args[0]))

    def np_isin(self, args, kw):
        ip = self.ip
        it = ip.try_items(args[1])
        return ip.ewise(lambda x: g.bor(*[g.eq(x, ip.unode(ip.content(y))) for y in it]), args[0])

    np_in1d = np_isin

    def np_dot(self, args, kw):
        return self.matmul(args[0], args[1])

    np_matmul = np_dot

    def np_vdot(self, args, kw):
        return self.matmul(args[0], args[1])

    def np_inner(self, args, kw):
        return self.matmul(args[0], args[1])

    def np_einsum(self, args, kw):
        return self.ip.arr(U(self.ip.unknown("einsum", *args), None))

    def matmul(self, a, b):
        ip = self.ip
        self._checknum(a, b)
        if isinstance(a, Unk) or isinstance(b, Unk) or not self._num(a) or not self._num(b):
            return Unk(g.mk("matmul", tuple(ip.depnodes([a, b]))), "matmul")
        ca, cb = ip.content(a), ip.content(b)
        if isinstance(ca, D) and isinstance(cb, D):
            A = ca.shape if len(ca.shape) == 2 else (1,) + ca.shape
            B = cb.shape if len(cb.shape) == 2 else cb.shape + (1,)
            if len(A) == 2 and len(B) == 2:
                if A[1] != B[0]:
                    raise AbsRaise(ExcV("ValueError", ("matmul shapes",)))
                if A[0] * A[1] * B[1] <= 60000:
                    out = []
                    for i in range(A[0]):
                        for j in range(B[1]):
                            out.append(g.add(*[g.mul(ca.cells[i * A[1] + k], cb.cells[k * B[1] + j]) for k in range(A[1])]))
                    shp = ()
                    if len(ca.shape) == 2:
                        shp += (A[0],)
                    if len(cb.shape) == 2:
                        shp += (B[1],)
                    if shp == ():
                        return Num(out[0])
                    return ip.arr(D(shp, out))
        return ip.arr(U(g.mk("matmul", (ip.unode(ca), ip.unode(cb))), None))

    def dense_inverse(self, c):
        """Cells of the inverse of a small dense square matrix (adjugate), or None."""
        if not isinstance(c, D) or len(c.shape) != 2 or c.shape[0] != c.shape[1] or not 1 <= c.shape[0] <= 3:
            return None
        n = c.shape[0]
        a = lambda i, j: c.cells[i * n + j]
        if n == 1:
            return [g.div(g.ONE, a(0, 0))]
        if n == 2:
            det = g.sub(g.mul(a(0, 0), a(1, 1)), g.mul(a(0, 1), a(1, 0)))
            adj = [a(1, 1), g.neg(a(0, 1)), g.neg(a(1, 0)), a(0, 0)]
        else:
            def cof(i, j):
                p, q = [k for k in range(3) if k != i], [k for k in range(3) if k != j]
                m = g.sub(g.mul(a(p[0], q[0]), a(p[1], q[1])), g.mul(a(p[0], q[1]), a(p[1], q[0])))
                return m if (i + j) % 2 == 0 else g.neg(m)
            det = g.add(*[g.mul(a(0, j), cof(0, j)) for j in range(3)])
            adj = [cof(j, i) for i in range(3) for j in range(3)]
        return [g.div(x, det) for x in adj]

    def np_linalg_solve(self, args, kw):
        inv = self.dense_inverse(self.ip.densify(self.ip.content(args[0])) if self._num(args[0]) else None)
        if inv is not None:
            c = self.ip.densify(self.ip.content(args[0]))
            return self.matmul(self.ip.arr(D(c.shape, inv)), self.asarr(args[1]))
        return self.ip.arr(U(g.mk("op:solve", tuple(self.ip.depnodes(args))), None))

    def np_linalg_inv(self, args, kw):
        d = self.ip.densify(self.ip.content(args[0]))
        inv = self.dense_inverse(d)
        if inv is not None:
            return self.ip.arr(D(d.shape, inv))
        return self.ip.arr(U(g.mk("op:inv", (self.ip.unode(self.ip.content(args[0])),)), None))

    def np_genfromtxt(self, args, kw):
        return self.load_table(args, kw, rec=False)

    def np_recfromcsv(self, args, kw):
        return Unk(self.ip.unknown("recfromcsv"), "table")

    def np_loadtxt(self, args, kw):
        return Unk(self.ip.unknown("loadtxt"), "table")

    def load_table(self, args, kw, rec):
        ip = self.ip
        fn = args[0]
        if isinstance(fn, ExtObj) and fn.kind == "path":
            fn = fn.p["path"]
        if isinstance(fn, ExtObj) and fn.kind == "file":
            fn = fn.p["path"]
        sk = kw.get("skip_header", 0)
        if not isinstance(fn, str) or not isinstance(sk, int) or kw.get("names") is not True or kw.get("delimiter") != ",":
            return Unk(ip.unknown("genfromtxt with unsupported arguments"), "table")
        if not os.path.exists(fn):
            raise AbsRaise(ExcV("FileNotFoundError", (fn,)))
        rel = os.path.basename(fn)
        cols, notes = read_genfromtxt(fn, sk)
        g.TABLES[rel] = cols
        if rel not in ip.tables:
            ip.tables[rel] = {"path": fn, "skip": sk, "notes": notes, "columns": cols}
        n = len(next(iter(cols.values())))
        s = ip.nextaddr
        ip.nextaddr += 1
        ip.sowner[s] = ip.default_owner() if ip.phase != "init" else ("shared", "table " + rel)
        out = {}
        for c in cols:
            cell = [g.NAN if v != v else None for v in cols[c]]
            out[c] = ip.arr(U(g.mk("col", (), (rel, c, None)), (n,)), frozenset([s]))
        # columns share the table's memory but do not overlap: separate alias sets
        for c, a in out.items():
            sc = ip.nextaddr
            ip.nextaddr += 1
            ip.sowner[sc] = ip.sowner[s]
            ip.meta[a.addr]["storage"] = frozenset([sc])
            ip.aliases.setdefault(sc, []).append(a.addr)
        return Table(rel, rec, None, s, out)

    def np_load(self, args, kw):
        ip = self.ip
        fn = args[0]
        if isinstance(fn, ExtObj) and fn.kind == "path":
            fn = fn.p["path"]
        return ExtObj("npz", path=fn if isinstance(fn, str) else "?")

    def np_rec_fromarrays(self, args, kw):
        ip = self.ip
        vals = args[0]
        names = args[2] if len(args) > 2 else kw.get("names")
        it = ip.try_items(names) if not isinstance(names, str) else [x.strip() for x in names.split(",")]
        vs = ip.try_items(vals)
        if it is None or not all(isinstance(x, str) for x in it):
            return Unk(ip.unknown("fromarrays names", vals), "rec")
        if vs is None:
            c = ip.content(vals) if self._num(vals) else None
            if c is not None:
                vs = [Num(g.mk("idx", (ip.unode(c),), i)) for i in range(len(it))]
            else:
                return Unk(ip.unknown("fromarrays", vals), "rec")
        if len(vs) != len(it):
            raise AbsRaise(ExcV("ValueError", ("fromarrays: %d arrays for %d names" % (len(vs), len(it)),)))
        return RecArr(tuple(zip(it, [self._cp(v) for v in vs])))

    def _cp(self, v):
        return self.ip.arr(self.ip.content(v)) if isinstance(v, Arr) else v

    def np_rec_fromrecords(self, args, kw):
        return self.np_rec_array(args, kw)

    def np_rec_array(self, args, kw):
        ip = self.ip
        names = kw.get("names")
        vals = ip.try_items(args[0])
        it = [x.strip() for x in names.split(",")] if isinstance(names, str) else (ip.try_items(names) if names is not None else None)
        if vals is not None and it is not None:
            rows = [ip.try_items(v) if isinstance(v, (Tup, ListV, Arr)) else None for v in vals]
            if all(r is not None and len(r) == len(it) for r in rows):
                fields = []
                for j, nme in enumerate(it):
                    fields.append((nme, ip.arr(ip.stack_content([ip.content(r[j]) for r in rows]))))
                return RecArr(tuple(fields))
            if len(vals) == len(it):
                return RecArr(tuple(zip(it, vals)))
        return Unk(ip.unknown("rec.array", *args), "rec")

    def ma_shim(self, name, args, kw):
        return self.ip.call(self.ip.mashim(name), list(args), kw)

    def ismasked(self, v):
        return isinstance(v, Inst) and v.cls.name == "MaskedArray"

    def np_ma_getmask(self, args, kw):
        if self.ismasked(args[0]):
            return self.ma_shim("getmask", args, kw)
        return self.np_ma_getmaskarray(args, kw)

    def np_ma_getdata(self, args, kw):
        if self.ismasked(args[0]):
            return self.ma_shim("getdata", args, kw)
        return self.np_asarray(args, kw)

    def np_ma_compressed(self, args, kw):
        if self.ismasked(args[0]):
            return self.ma_shim("compressed", args, kw)
        return self.ip.arr(U(g.mk("op:compressed", tuple(self.ip.depnodes(args))), None))

    def np_ma_count_masked(self, args, kw):
        if self.ismasked(args[0]):
            return self.ma_shim("count_masked", args, kw)
        return Num(g.mk("op:count_masked", tuple(self.ip.depnodes(args))))

    def np_ma_getmaskarray(self, args, kw):
        if self.ismasked(args[0]):
            return self.ma_shim("getmaskarray", args, kw)
        return self.ip.arr(U(g.mk("op:mask", tuple(self.ip.depnodes(args))), self.shape_of(args[0])))

    def np_errstate(self, args, kw):
        return ExtObj("ctx")

    def np_vectorize(self, args, kw):
        return ExtObj("vectorize", f=args[0])

    def np_frompyfunc(self, args, kw):
        return ExtObj("vectorize", f=args[0])

    def np_apply_along_axis(self, args, kw):
        return self.ip.arr(U(self.ip.unknown("apply_along_axis", *args[1:]), None))

    def np_ix_(self, args, kw):
        return Unk(self.ip.unknown("ix_", *args), "ix")

    def np_iterable(self, args, kw):
        v = args[0]
        if isinstance(v, Unk):
            return Num(g.truth(self.ip.unknown("iterable", v)))
        return self.ip.isarrlike(v) or isinstance(v, (DictV, SetV, str))

    def np_ndenumerate(self, args, kw):
        it = self.ip.try_items(args[0])
        if it is None:
            return Unk(self.ip.unknown("ndenumerate", *args), "it")
        return GenV([Tup([Tup([i]), x]) for i, x in enumerate(it)])

    def np_fromiter(self, args, kw):
        return self.np_array(args[:1], {})

    def np_polyval(self, args, kw):
        ip = self.ip
        cs = ip.try_items(args[0])
        if cs is None:
            return Unk(ip.unknown("polyval", *args), "polyval")
        r = 0
        for c in cs:
            r = ip.binop("Add", ip.binop("Mult", r, args[1]), c)
        return r

    def np_flip(self, args, kw):
        return self.getitem(args[0], SliceV(None, None, -1))

    def np_roll(self, args, kw):
        return self.ip.arr(U(g.mk("op:roll", tuple(self.ip.depnodes(args))), self.shape_of(args[0])))

    def np_dtype(self, args, kw):
        return ExtObj("typing")

    # ---------------------------------------------------------------- builtins
    def f_builtins_len(self, args, kw):
        ip = self.ip
        v = args[0]
        if isinstance(v, Gate):
            return ip.split(v, lambda x: self.f_builtins_len([x], kw))
        if isinstance(v, str):
            return len(v)
        if isinstance(v, (Tup, GenV)):
            return len(v.items)
        if isinstance(v, (ListV, SetV, DictV)):
            its = ip.get((v.addr, "i"), ())
            return len(its)
        if isinstance(v, Arr):
            s = ip.content(v).shape
            if s is None:
                return Num(g.unk("len", ip.unode(ip.content(v))))
            if s == ():
                raise AbsRaise(ExcV("TypeError", ("len() of unsized object",)))
            return s[0]
        if isinstance(v, Table):
            return len(v.rows) if isinstance(v.rows, tuple) else self.table_len(v)
        if isinstance(v, RecArr):
            n = ip.reclen(v)
            return n if n is not None else Num(ip.unknown("len rec", v))
        if isinstance(v, Inst):
            return ip.call(ip.getattr(v, "__len__"), [], {})
        if isinstance(v, Unk) or isinstance(v, (ExtObj, StrT)):
            return Num(ip.unknown("len", v))
        raise AbsRaise(ExcV("TypeError", ("object of type %s has no len()" % ip.tname(v),)))

    def f_builtins_range(self, args, kw):
        if all(isinstance(a, int) for a in args):
            return Tup(list(range(*args)))
        if any(isinstance(a, float) or a is None for a in args):
            raise AbsRaise(ExcV("TypeError", ("range",)))
        return Unk(self.ip.unknown("range", *args), "range")

    def minmax(self, args, kw, f, name):
        ip = self.ip
        if len(args) == 1:
            it = ip.try_items(args[0])
            if it is None:
                return Num(g.mk("op:" + name, tuple(ip.depnodes(args))))
            if not it:
                if "default" in kw:
                    return kw["default"]
                raise AbsRaise(ExcV("ValueError"))
        else:
            it = list(args)
        if "key" in kw:
            return Unk(ip.unknown("min/max with key", *it), "minmax")
        for i, v in enumerate(it):
            if isinstance(v, Gate):
                return ip.split(v, lambda x, i=i: self.minmax([Tup(it[:i] + [x] + it[i + 1:])], kw, f, name))
        if all(isinstance(v, str) for v in it):
            return min(it) if name == "min" else max(it)
        if len(it) > 1:
            for v in it:
                if v is None or isinstance(v, (str, DictV)):
                    raise AbsRaise(ExcV("TypeError", ("comparison with %s" % ip.tname(v),)))
                if isinstance(v, Arr):
                    s = ip.content(v).shape
                    if s is not None and ip.size(s) > 1:
                        raise AbsRaise(ExcV("ValueError", ("truth value of an array is ambiguous",)))
        if all(ip_isnum(v) for v in it):
            return min(it) if name == "min" else max(it)
        r = it[0]
        for v in it[1:]:
            r = ip.ewise(f, r, v)
        return r

    def f_builtins_min(self, args, kw):
        return self.minmax(args, kw, g.minimum, "min")

    def f_builtins_max(self, args, kw):
        return self.minmax(args, kw, g.maximum, "max")

    def f_builtins_sum(self, args, kw):
        ip = self.ip
        it = ip.try_items(args[0])
        if it is None:
            return Unk(ip.unknown("sum", *args), "sum")
        r = args[1] if len(args) > 1 else kw.get("start", 0)
        for x in it:
            r = ip.binop("Add", r, x)
        return r

    def f_math_fsum(self, args, kw):
        return self.f_builtins_sum(args, kw)

    def f_math_prod(self, args, kw):
        r = 1
        for x in self.ip.items(args[0]):
            r = self.ip.binop("Mult", r, x)
        return r

    def f_builtins_abs(self, args, kw):
        if ip_isnum(args[0]):
            return abs(args[0])
        return self.ip.ewise(UNARY["abs"], args[0])

    def f_builtins_pow(self, args, kw):
        return self.ip.binop("Pow", args[0], args[1])

    f_math_pow = f_builtins_pow

    def f_builtins_round(self, args, kw):
        if ip_isnum(args[0]):
            return round(args[0], *[a for a in args[1:] if isinstance(a, int)])
        return self.ip.ewise(lambda a, *r: g.el("round", a, *r), *args)

    def f_builtins_divmod(self, args, kw):
        return Tup([self.ip.binop("FloorDiv", *args), self.ip.binop("Mod", *args)])

    def f_builtins_float(self, args, kw):
        ip = self.ip
        if not args:
            return 0.0
        v = args[0]
        if isinstance(v, Gate):
            return ip.split(v, lambda x: self.f_builtins_float([x], kw))
        if ip_isnum(v):
            return float(v)
        if isinstance(v, str):
            try:
                return float(v)
            except ValueError:
                raise AbsRaise(ExcV("ValueError"))
        if isinstance(v, Num):
            return Num(g.tonum(v.node), v.py)
        if isinstance(v, Arr):
            c = ip.content(v)
            if isinstance(c, D) and len(c.cells) == 1:
                return Num(c.cells[0])
            if c.shape is not None and ip.size(c.shape) != 1:
                raise AbsRaise(ExcV("TypeError", ("only length-1 arrays can be converted to Python scalars",)))
            return Num(g.mk("scalar", (ip.unode(c),)) if c.shape != () else ip.unode(c))
        if isinstance(v, Unk):
            return Unk(v.node, v.why)
        raise AbsRaise(ExcV("TypeError", ("float() argument must be a number, not %s" % ip.tname(v),)))

    def f_builtins_int(self, args, kw):
        v = args[0] if args else 0
        if isinstance(v, Gate):
            return self.ip.split(v, lambda x: self.f_builtins_int([x], kw))
        if ip_isnum(v):
            return int(v)
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                raise AbsRaise(ExcV("ValueError"))
        if isinstance(v, (Num, Unk, Arr)):
            return Num(g.el("trunc", self.ip.unode(self.ip.content(v))))
        raise AbsRaise(ExcV("TypeError", ("int()",)))

    def f_builtins_bool(self, args, kw):
        return self.ip.boolv(self.ip.truth(args[0] if args else False))

    def f_builtins_str(self, args, kw):
        v = args[0] if args else ""
        if isinstance(v, str):
            return v
        if isinstance(v, (bool, int, float)) or v is None:
            return str(v)
        if isinstance(v, ExtObj) and v.kind == "path":
            return v.p["path"]
        if isinstance(v, StrT):
            return v
        r = self.stringify(v)
        return r if r is not None else StrT([v])

    def f_builtins_repr(self, args, kw):
        v = args[0]
        if israwv(v):
            return repr(v)
        r = self.stringify(v)
        return r if r is not None else StrT([v])

    def f_builtins_format(self, args, kw):
        return StrT([args[0]])

    def f_builtins_list(self, args, kw):
        ip = self.ip
        if not args:
            return ip.mklist([])
        it = ip.try_items(args[0])
        if it is None:
            return Unk(ip.unknown("list()", *args), "list")
        return ip.mklist(it)

    def f_builtins_tuple(self, args, kw):
        if not args:
            return Tup([])
        it = self.ip.try_items(args[0])
        if it is None:
            return Unk(self.ip.unknown("tuple()", *args), "tuple")
        return Tup(it)

    def f_builtins_set(self, args, kw):
        ip = self.ip
        it = ip.try_items(args[0]) if args else []
        if it is None:
            return Unk(ip.unknown("set()", *args), "set")
        a = ip.new()
        out = []
        hs = set()
        for v in it:
            h = ip.hk(v)
            if h not in hs:
                hs.add(h)
                out.append(v)
        ip.set((a, "i"), tuple(out))
        return SetV(a)

    f_builtins_frozenset = f_builtins_set

    def f_builtins_dict(self, args, kw):
        ip = self.ip
        pairs = []
        if args:
            v = ip.resolve(args[0])
            if isinstance(v, (DictV, Inst)) or isinstance(v, ExtObj):
                if isinstance(v, ExtObj) and v.kind == "instdict":
                    pairs = list(ip.attrs(v.p["inst"].addr).items())
                else:
                    if isinstance(v, DictV):
                        pairs = list(ip.dict_items(v, raw=True))
                    else:
                        pairs = list(ip.dict_items(v))
            else:
                it = ip.try_items(v)
                if it is None:
                    return Unk(ip.unknown("dict()", *args), "dict")
                for x in it:
                    p = ip.try_items(x)
                    pairs.append((p[0], p[1]))
        pairs += list(kw.items())
        return ip.mkdict(pairs)

    def f_collections_OrderedDict(self, args, kw):
        return self.f_builtins_dict(args, kw)

    def f_types_MappingProxyType(self, args, kw):
        return args[0]

    def f_types_SimpleNamespace(self, args, kw):
        return Unk(self.ip.unknown("SimpleNamespace", *kw.values()), "ns")

    def f_collections_namedtuple(self, args, kw):
        ip = self.ip
        names = args[1]
        it = names.replace(",", " ").split() if isinstance(names, str) else [x for x in ip.items(names)]
        return ExtObj("namedtuple_type", name=args[0], fields=tuple(it))

    def f_builtins_sorted(self, args, kw):
        ip = self.ip
        it = ip.try_items(args[0])
        if it is not None and "key" not in kw and all(israwv(x) for x in it):
            try:
                return ip.mklist(sorted(it, reverse=bool(kw.get("reverse", False))))
            except TypeError:
                raise AbsRaise(ExcV("TypeError"))
        if it is not None and "key" in kw:
            ks = [ip.call(kw["key"], [x], {}) for x in it]
            if all(israwv(k) for k in ks):
                o = sorted(range(len(it)), key=lambda i: ks[i], reverse=bool(kw.get("reverse", False)))
                return ip.mklist([it[i] for i in o])
        return Unk(ip.unknown("sorted", *args), "sorted")

    def f_builtins_reversed(self, args, kw):
        it = self.ip.try_items(args[0])
        if it is None:
            return Unk(self.ip.unknown("reversed", *args), "rev")
        return GenV(list(reversed(it)))

    def f_builtins_enumerate(self, args, kw):
        it = self.ip.try_items(args[0])
        st = args[1] if len(args) > 1 else kw.get("start", 0)
        if it is None:
            return Unk(self.ip.unknown("enumerate", *args), "enum")
        return GenV([Tup([st + i, x]) for i, x in enumerate(it)])

    def f_builtins_zip(self, args, kw):
        its = [self.ip.try_items(a) for a in args]
        if any(i is None for i in its):
            return Unk(self.ip.unknown("zip", *args), "zip")
        return GenV([Tup(t) for t in zip(*its)])

    def f_itertools_product(self, args, kw):
        import itertools
        its = [self.ip.try_items(a) for a in args]
        if any(i is None for i in its):
            return Unk(self.ip.unknown("product", *args), "product")
        return GenV([Tup(t) for t in itertools.product(*its, repeat=kw.get("repeat", 1))])

    def _itx(name):
        def f(self, args, kw):
            import itertools
            it = self.ip.try_items(args[0])
            if it is None:
                return Unk(self.ip.unknown(name, *args), name)
            return GenV([Tup(t) for t in getattr(itertools, name)(it, *args[1:])])
        return f

    f_itertools_combinations = _itx("combinations")
    f_itertools_permutations = _itx("permutations")
    f_itertools_combinations_with_replacement = _itx("combinations_with_replacement")

    def f_itertools_chain(self, args, kw):
        out = []
        for a in args:
            out += self.ip.items(a)
        return GenV(out)

    def f_builtins_map(self, args, kw):
        its = [self.ip.try_items(a) for a in args[1:]]
        if any(i is None for i in its):
            return Unk(self.ip.unknown("map", *args), "map")
        return GenV([self.ip.call(args[0], list(t), {}) for t in zip(*its)])

    def f_builtins_filter(self, args, kw):
        it = self.ip.try_items(args[1])
        out = []
        if it is not None:
            for x in it:
                d = self.ip.decide(self.ip.truth(self.ip.call(args[0], [x], {}) if args[0] is not None else x))
                if d is None:
                    return Unk(self.ip.unknown("filter", *args), "filter")
                if d:
                    out.append(x)
            return GenV(out)
        return Unk(self.ip.unknown("filter", *args), "filter")

    def f_functools_reduce(self, args, kw):
        it = self.ip.items(args[1])
        r = args[2] if len(args) > 2 else it.pop(0)
        for x in it:
            r = self.ip.call(args[0], [r, x], {})
        return r

    def f_functools_partial(self, args, kw):
        return ExtObj("partial", f=args[0], args=Tup(args[1:]), kw=self.ip.mkdict(list(kw.items())))

    def f_functools_lru_cache(self, args, kw):
        if args and isinstance(args[0], FuncV):
            return self.ip.mark_cached(args[0])
        return ExtObj("lru_cache_deco")

    def f_functools_wraps(self, args, kw):
        return ExtObj("identity_deco")

    def f_dataclasses_dataclass(self, args, kw):
        return ExtObj("dataclass_deco")

    def f_contextlib_contextmanager(self, args, kw):
        return args[0]

    def f_builtins_any(self, args, kw):
        it = self.ip.try_items(args[0])
        if it is None:
            return Num(g.truth(self.ip.unknown("any", *args)))
        return self.ip.boolv(g.bor(*[self.ip.truth(x) for x in it]) if it else g.FALSE)

    def f_builtins_all(self, args, kw):
        it = self.ip.try_items(args[0])
        if it is None:
            return Num(g.truth(self.ip.unknown("all", *args)))
        return self.ip.boolv(g.band(*[self.ip.truth(x) for x in it]) if it else g.TRUE)

    def f_builtins_iter(self, args, kw):
        it = self.ip.try_items(args[0])
        if it is None:
            return Unk(self.ip.unknown("iter", *args), "iter")
        return GenV(it)

    def f_builtins_next(self, args, kw):
        it = self.ip.try_items(args[0])
        if it:
            return it[0]
        if it is not None and len(args) > 1:
            return args[1]
        if it is not None:
            raise AbsRaise(ExcV("StopIteration"))
        return Unk(self.ip.unknown("next", *args), "next")

    def f_builtins_print(self, args, kw):
        self.ip.note("print", "print", args)
        for a in args:
            self.stringify(a)
        return None

    def f_builtins_callable(self, args, kw):
        return isinstance(args[0], (FuncV, Bound, ClassV, Ext))

    def f_builtins_type(self, args, kw):
        v = args[0]
        if isinstance(v, Inst):
            return v.cls
        if isinstance(v, ClassV):
            return Ext("builtins.type")
        if isinstance(v, bool):
            return Ext("builtins.bool")
        if isinstance(v, str):
            return Ext("builtins.str")
        if isinstance(v, float):
            return Ext("builtins.float")
        if isinstance(v, int):
            return Ext("builtins.int")
        if v is None:
            return Ext("builtins.NoneType")
        if isinstance(v, Num) and v.kind:
            return Ext(("numpy." if v.kind[-1].isdigit() else "builtins.") + v.kind)
        if isinstance(v, Num) and v.py:
            return Ext("builtins.float")
        if isinstance(v, ListV):
            return Ext("builtins.list")
        if isinstance(v, DictV):
            return Ext("builtins.dict")
        if isinstance(v, Tup):
            return Ext("builtins.tuple")
        if isinstance(v, Arr):
            return Ext("numpy.ndarray")
        return Unk(self.ip.unknown("type()", v), "type")

    def f_builtins_super(self, args, kw):
        if len(args) == 2 and isinstance(args[0], ClassV):
            return SuperV(args[0], args[1])
        return Unk(self.ip.unknown("super"), "super")

    def f_builtins_object(self, args, kw):
        return ExtObj("object")

    def f_builtins_property(self, args, kw):
        return PropV(args[0] if args else kw.get("fget"), args[1] if len(args) > 1 else kw.get("fset"))

    def f_builtins_staticmethod(self, args, kw):
        return StaticV(args[0])

    def f_builtins_classmethod(self, args, kw):
        return ClassM(args[0])

    def f_builtins_slice(self, args, kw):
        a = list(args)
        if len(a) == 1:
            a = [None, a[0], None]
        while len(a) < 3:
            a.append(None)
        return SliceV(*a)

    def f_builtins_vars(self, args, kw):
        if args and isinstance(args[0], Inst):
            return ExtObj("instdict", inst=args[0])
        if args and isinstance(args[0], (ClassV, Mod)):
            return self.ip.getattr(args[0], "__dict__")
        return Unk(self.ip.unknown("vars"), "vars")

    def f_builtins_dir(self, args, kw):
        return Unk(self.ip.unknown("dir"), "dir")

    def f_builtins_getattr(self, args, kw):
        ip = self.ip
        name = ip.resolve(args[1])
        if isinstance(name, Gate):
            return ip.split(name, lambda n: self.f_builtins_getattr([args[0], n] + args[2:], kw))
        if name is None or isinstance(name, (int, float, Tup, ListV)):
            raise AbsRaise(ExcV("TypeError", ("attribute name must be string",)))
        if not isinstance(name, str):
            return Unk(ip.unknown("getattr with unknown name", args[0], name), "getattr")
        if len(args) > 2:
            m = ip.mark()
            try:
                return ip.getattr(args[0], name)
            except AbsRaise as e:
                if e.exc.type == "AttributeError":
                    ip.rollback(m)
                    return args[2]
                raise
        return ip.getattr(args[0], name)

    def f_builtins_hasattr(self, args, kw):
        ip = self.ip
        if not isinstance(args[1], str):
            return Num(g.truth(ip.unknown("hasattr", *args)))
        if isinstance(args[0], Unk):
            return Num(g.truth(g.mk("unk", (args[0].node,), "hasattr " + args[1])))
        m = ip.mark()
        try:
            ip.getattr(args[0], args[1])
            return True
        except AbsRaise as e:
            ip.rollback(m)
            if e.exc.type == "AttributeError":
                return False
            raise

    def f_builtins_setattr(self, args, kw):
        if isinstance(args[1], str):
            self.ip.setattr(args[0], args[1], args[2])
        else:
            self.ip.unknown("setattr with unknown name")
        return None

    def f_builtins_delattr(self, args, kw):
        return None

    def f_builtins_isinstance(self, args, kw):
        ip = self.ip
        v = ip.resolve(args[0])
        if isinstance(v, Gate):
            return ip.split(v, lambda x: self.f_builtins_isinstance([x, args[1]], kw))
        t = args[1]
        ts = list(t.items) if isinstance(t, Tup) else [t]
        while any(isinstance(x, Tup) for x in ts):
            ts = [y for x in ts for y in (x.items if isinstance(x, Tup) else [x])]
        res = [self.isinst(v, x) for x in ts]
        if any(r is True for r in res):
            return True
        if all(r is False for r in res):
            return False
        return Num(g.truth(ip.unknown("isinstance", v)))

    def isinst(self, v, t):
        if isinstance(t, ExtObj) and t.kind == "typing":
            return None
        if isinstance(v, Inst):
            if isinstance(t, ClassV):
                return t in v.cls.mro
            if isinstance(t, Ext):
                n = t.name.split(".")[-1]
                if any(isinstance(b, Ext) and b.name.split(".")[-1] == n for b in v.cls.mro):
                    return True
                if n in ("Mapping", "MutableMapping", "UserDict"):
                    return any(isinstance(b, ClassV) and b.name in ("UserDict", "MutableMapping", "Mapping") and
                               (b.name == n or n == "Mapping" or b.name == "UserDict" and n == "MutableMapping") for b in v.cls.mro)
                if n == "object":
                    return True
                return False
        if isinstance(t, ClassV):
            if isinstance(v, Unk):
                return None
            if isinstance(v, (DictV, RecArr)) and t.mod == "shim:collections":
                return isinstance(v, DictV) and t.name in ("Mapping", "MutableMapping")
            return False
        if not isinstance(t, Ext):
            return None
        n = t.name.split(".")[-1]
        if isinstance(v, Unk):
            return None
        if n == "object":
            return True
        if v is None:
            return n == "NoneType"
        if isinstance(v, bool):
            return n in ("bool", "int", "Integral", "Number", "Real")
        if isinstance(v, int):
            return n in ("int", "Integral", "Number", "Real")
        if isinstance(v, float):
            return n in ("float", "Number", "Real")
        if isinstance(v, Num):
            if g.is_bool(v.node):
                return n in ("bool", "bool_", "int") if v.py else n in ("bool_", "generic")
            if v.kind:
                return n in KINDS[v.kind]
            return n in ("float", "Number", "Real", "floating", "float64", "generic") if True else None
        if isinstance(v, (str, StrT)):
            return n in ("str", "Sequence", "Iterable", "Collection")
        if isinstance(v, Arr):
            return n in ("ndarray", "Iterable", "Sized", "Container", "Collection")
        if isinstance(v, (RecArr, Table)):
            return n in ("ndarray", "recarray")
        if isinstance(v, ListV):
            return n in ("list", "Sequence", "Iterable", "Collection", "Sized", "MutableSequence")
        if isinstance(v, (Tup,)):
            return n in ("tuple", "Sequence", "Iterable", "Collection", "Sized")
        if isinstance(v, DictV):
            return n in ("dict", "Mapping", "MutableMapping", "Iterable", "Collection", "OrderedDict")
        if isinstance(v, SetV):
            return n in ("set", "Set", "Iterable", "frozenset")
        if isinstance(v, (FuncV, Bound)):
            return n in ("Callable", "FunctionType")
        if isinstance(v, ClassV):
            return n == "type"
        return None

    def f_builtins_issubclass(self, args, kw):
        a, b = args
        if isinstance(a, ClassV):
            ts = b.items if isinstance(b, Tup) else [b]
            return any(t in a.mro if isinstance(t, ClassV) else any(isinstance(m, Ext) and m == t for m in a.mro) for t in ts)
        return Num(g.truth(self.ip.unknown("issubclass")))

    def f_inspect_isclass(self, args, kw):
        return isinstance(args[0], ClassV)

    def f_builtins_open(self, args, kw):
        p = args[0]
        if isinstance(p, ExtObj) and p.kind == "path":
            p = p.p["path"]
        mode = args[1] if len(args) > 1 else kw.get("mode", "r")
        if isinstance(mode, str) and any(c in mode for c in "wax+"):
            self.ip.note("config", "open for writing", args)
            return ExtObj("file", path=p if isinstance(p, str) else "?")
        if not isinstance(p, str) or not os.path.abspath(p).startswith(os.path.abspath(self.ip.pkgdir)):
            self.ip.note("ambient", "open")
            return ExtObj("file", path="?")
        return ExtObj("file", path=p)

    def f_codecs_open(self, args, kw):
        return self.f_builtins_open(args, kw)

    # ---------------------------------------------------------------- os / json / misc
    def f_os_path_join(self, args, kw):
        args = [a.p["path"] if isinstance(a, ExtObj) and a.kind == "path" else a for a in args]
        if all(isinstance(a, str) for a in args):
            return os.path.join(*args)
        return StrT(args)

    f_posixpath_join = f_os_path_join

    def _path1(self, f, args):
        a = args[0]
        if isinstance(a, ExtObj) and a.kind == "path":
            a = a.p["path"]
        if isinstance(a, str):
            return f(a)
        return StrT([a])

    def f_os_path_dirname(self, args, kw):
        return self._path1(os.path.dirname, args)

    def f_os_path_abspath(self, args, kw):
        return self._path1(os.path.abspath, args)

    f_os_path_realpath = f_os_path_abspath

    def f_os_fspath(self, args, kw):
        return self._path1(lambda x: x, args)

    def f_os_path_basename(self, args, kw):
        return self._path1(os.path.basename, args)

    def f_os_path_exists(self, args, kw):
        a = args[0]
        if isinstance(a, str) and self.ip.phase == "init":
            return os.path.exists(a)
        return self.ambient("os.path.exists")

    def f_pathlib_Path(self, args, kw):
        a = [x.p["path"] if isinstance(x, ExtObj) and x.kind == "path" else x for x in args]
        if all(isinstance(x, str) for x in a):
            return ExtObj("path", path=os.path.join(*a) if a else ".")
        return Unk(self.ip.unknown("Path"), "path")

    def pathjoin(self, p, args):
        a = [x.p["path"] if isinstance(x, ExtObj) and x.kind == "path" else x for x in args]
        if all(isinstance(x, str) for x in a):
            return ExtObj("path", path=os.path.join(p.p["path"], *a))
        return Unk(self.ip.unknown("Path join"), "path")

    def f_importlib_resources_files(self, args, kw):
        return ExtObj("path", path=self.ip.pkgdir)

    def f_json_load(self, args, kw):
        f = args[0]
        if isinstance(f, ExtObj) and f.kind == "file" and f.p["path"] != "?":
            with open(f.p["path"], encoding="utf-8") as fh:
                v = json.load(fh)
                g.JSON[os.path.basename(f.p["path"])] = v
                return self.lift_json(v, os.path.basename(f.p["path"]))
        return Unk(self.ip.unknown("json.load"), "json")

    def f_json_loads(self, args, kw):
        if isinstance(args[0], str):
            return self.lift_json(json.loads(args[0]), "json")
        if isinstance(args[0], ExtObj) and args[0].kind == "filetext":
            with open(args[0].p["path"], encoding="utf-8") as fh:
                v = json.load(fh)
                g.JSON[os.path.basename(args[0].p["path"])] = v
                return self.lift_json(v, os.path.basename(args[0].p["path"]))
        return Unk(self.ip.unknown("json.loads"), "json")

    def lift_json(self, v, path):
        ip = self.ip
        if isinstance(v, dict):
            return ip.mkdict([(k, self.lift_json(x, path + ":" + k)) for k, x in v.items()])
        if isinstance(v, list):
            return ip.mklist([self.lift_json(x, path + "[%d]" % i) for i, x in enumerate(v)])
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        ip.data_files = getattr(ip, "data_files", {})
        ip.data_files.setdefault(path.split(":")[0], set()).add(path)
        return Num(g.mk("data", (), (path, float(v))), py=True)

    def f_pandas_Series(self, args, kw):
        v = args[0]
        if isinstance(v, DictV):
            return ExtObj("series", items=tuple(self.ip.dict_items(v)))
        return Unk(self.ip.unknown("pd.Series", *args), "series")

    def f_warnings_warn(self, args, kw):
        self.ip.note("warn", "warnings.warn", (args[0] if args else kw.get("message"), args[1] if len(args) > 1 else kw.get("category")))
        return None

    def f_warnings_catch_warnings(self, args, kw):
        return ExtObj("ctx")

    def f_logging_getLogger(self, args, kw):
        return ExtObj("logger", name=args[0] if args else None)

    def f_logging_NullHandler(self, args, kw):
        return ExtObj("handler")

    def f_logging_StreamHandler(self, args, kw):
        return ExtObj("handler")

    def f_logging_Formatter(self, args, kw):
        return ExtObj("formatter")

    def f_copy_copy(self, args, kw):
        return self.pycopy(args[0], False)

    def f_copy_deepcopy(self, args, kw):
        return self.pycopy(args[0], True)

    def pycopy(self, v, deep, seen=None):
        ip = self.ip
        seen = {} if seen is None else seen
        v = ip.resolve(v)
        if isinstance(v, Arr):
            return ip.arr(ip.content(v))
        if isinstance(v, (ListV, SetV)):
            if v.addr in seen:
                return seen[v.addr]
            a = ip.new()
            r = type(v)(a)
            seen[v.addr] = r
            ip.set((a, "i"), tuple(self.pycopy(x, True, seen) if deep else x for x in ip.get((v.addr, "i"), ())))
            return r
        if isinstance(v, DictV):
            if v.addr in seen:
                return seen[v.addr]
            a = ip.new()
            r = DictV(a)
            seen[v.addr] = r
            ip.set((a, "i"), tuple((k, self.pycopy(x, True, seen) if deep else x) for k, x in ip.get((v.addr, "i"), ())))
            return r
        if isinstance(v, Inst):
            if v.addr in seen:
                return seen[v.addr]
            # protocol lookups on the class, then on the instance
            dn = "__deepcopy__" if deep else "__copy__"
            m = ip.find_class_attr(v.cls, dn)
            if isinstance(m, FuncV):
                return ip.call_func(m, [v] + ([ip.mkdict([])] if deep else []), {})
            if deep:
                # copy.deepcopy uses getattr(x, "__deepcopy__", None)
                d = self.f_builtins_getattr([v, dn, None], {})
                if d is not None:
                    return ip.call(d, [ip.mkdict([])], {})
            new = Inst(ip.new(), v.cls)
            ip.set((new.addr, "names"), ())
            seen[v.addr] = new
            # copy._reconstruct: hasattr(y, '__setstate__') on the empty object
            st = self.f_builtins_hasattr([new, "__setstate__"], {})
            if st is True:
                ip.call(ip.getattr(new, "__setstate__"), [ip.mkdict(list(ip.attrs(v.addr).items()))], {})
                return new
            for k, x in ip.attrs(v.addr).items():
                ip.setattr_raw(new.addr, k, self.pycopy(x, True, seen) if deep else x)
            return new
        if isinstance(v, Tup):
            return Tup([self.pycopy(x, True, seen) for x in v.items]) if deep else v
        return v

    def f_scipy_interpolate_interp1d(self, args, kw):
        ip = self.ip
        names = ["x", "y", "kind", "axis", "copy", "bounds_error", "fill_value", "assume_sorted"]
        a = dict(zip(names, args))
        a.update(kw)
        self._checknum(a["x"], a["y"])
        o = ExtObj("interp1d")
        o.p = a
        ip.note("interp1d", "interp1d", o)
        return o

    def f_scipy_interpolate_NearestNDInterpolator(self, args, kw):
        return self._ndinterp("nearest", args, kw)

    def f_scipy_interpolate_LinearNDInterpolator(self, args, kw):
        return self._ndinterp("linear", args, kw)

    def _ndinterp(self, kind, args, kw):
        names = ("x", "y", "rescale") if kind == "nearest" else ("points", "values", "fill_value", "rescale")
        a = dict(zip(names, args))
        a.update({("x" if kind == "nearest" else "points") if k in ("x", "points") else
                  ("y" if kind == "nearest" else "values") if k in ("y", "values") else k: v for k, v in kw.items()})
        first = [a.pop(n, None) for n in names[:2]]
        opts = tuple(sorted((k, v) for k, v in a.items() if isinstance(v, (bool, int, float, str)) and (k, v) != ("rescale", False)))
        return ExtObj("ndinterp", nodes=tuple(self.ip.depnodes(first)), opts=(kind,) + opts)

    # ---------------------------------------------------------------- objects
    def call_obj(self, f, args, kw):
        ip = self.ip
        k = f.kind
        if k == "partial":
            return ip.call(f.p["f"], list(f.p["args"].items) + args, {**dict(ip.dict_items(f.p["kw"])), **kw})
        if k == "interp1d":
            return self.call_interp1d(f, args[0])
        if k == "ndinterp":
            for a in args:
                it = ip.try_items(a) if isinstance(a, (Tup, ListV)) else [a]
                self._checknum(*(it or []))
            return ip.arr(U(g.mk("op:ndinterp", f.p["nodes"] + tuple(ip.depnodes(args)), f.p["opts"]), None))
        if k == "vectorize":
            sh = [self.shape_of(a) for a in args]
            if all(s == () for s in sh):
                return ip.call(f.p["f"], args, kw)
            ds = [ip.densify(ip.content(a)) for a in args]
            if all(d is not None for d in ds):
                shape = ip.bshape([d.shape for d in ds])
                if ip.size(shape) <= 2000:
                    cells = []
                    for t in zip(*[ip.bcells(d, shape) for d in ds]):
                        cells.append(ip.unode(ip.content(ip.call(f.p["f"], [Num(x) for x in t], kw))))
                    return ip.arr(D(shape, cells))
            return ip.arr(U(ip.unknown("vectorize", *args), None))
        if k == "namedtuple_type":
            vals = list(args) + [kw[n] for n in f.p["fields"][len(args):] if n in kw]
            return ExtObj("namedtuple", fields=f.p["fields"], **{"v_" + n: v for n, v in zip(f.p["fields"], vals)})
        if k in ("lru_cache_deco", "identity_deco"):
            return ip.mark_cached(args[0]) if k == "lru_cache_deco" else args[0]
        if k == "typing":
            return ExtObj("typing")
        return Unk(ip.unknown("call of " + k, *args, *kw.values()), "call")

    def call_interp1d(self, f, x):
        ip = self.ip
        p = f.p
        xn = ip.unode(ip.content(p["x"]))
        yc = ip.content(p["y"])
        yn = ip.unode(yc)
        kind = p.get("kind", "linear")
        be = p.get("bounds_error")
        fv = p.get("fill_value", None)
        if isinstance(fv, float) and fv != fv:
            fvk = "nan"
        elif isinstance(fv, str):
            fvk = fv
        elif isinstance(fv, (Tup, ListV)):
            fvk = tuple(ip.unode(ip.content(i)) for i in ip.items(fv))
        elif fv is None:
            fvk = None
        else:
            fvk = (ip.unode(ip.content(fv)),)
        one = len(yc.shape) == 1 if isinstance(yc, D) else (yc.shape is not None and len(yc.shape) == 1)
        if one and kind in ("linear", "slinear", 1):
            if fvk == "nan" and be is False:
                return ip.ewise(lambda a: g.interp(a, xn, yn, g.NAN, g.NAN), x)
            ends = None
            if isinstance(fvk, tuple) and be is False:
                ends = fvk if len(fvk) == 2 else fvk * 2
                return ip.ewise(lambda a: g.interp(a, xn, yn, *ends), x)
            if fvk == "extrapolate" and not be:
                xd, yd = ip.densify(ip.content(p["x"])), ip.densify(yc)
                if xd is not None and yd is not None and len(xd.cells) == len(yd.cells) > 1:
                    def line(a, i, j):
                        (x0, y0), (x1, y1) = (xd.cells[i], yd.cells[i]), (xd.cells[j], yd.cells[j])
                        return g.add(y0, g.div(g.mul(g.sub(a, x0), g.sub(y1, y0)), g.sub(x1, x0)))
                    return ip.ewise(lambda a: g.interp(a, xn, yn, line(a, 0, 1), line(a, -2, -1)), x)
        kk = kind if isinstance(kind, (str, int)) else ("sym",) + tuple(ip.depnodes([kind]))
        if not one:
            return self._interp1d_rows(p, f, x, xn, yc, kind, kk, be, fvk)
        return ip.ewise(lambda a: g.mk("call", (a, xn, yn), ("interp1d", kk, be if israwv(be) else "?", fvk)), x)

    def _interp1d_rows(self, p, f, x, xn, yc, kind, kk, be, fvk):
        """One curve per row (or column) of a matrix."""
        ip = self.ip
        y = ip.densify(yc)
        axis = p.get("axis", -1)
        xd = ip.densify(ip.content(x))
        if y is None or xd is None or len(y.shape) != 2 or axis not in (0, 1, -1) or len(xd.shape) > 1 or isinstance(fvk, str):
            return ip.arr(U(ip.unknown("interp1d", p["x"], p["y"], x), None))
        r, k = y.shape
        rows = [[y.cells[i * k + j] for j in range(k)] for i in range(r)]
        if axis == 0:
            rows = [list(t) for t in zip(*rows)]
        n = len(rows)
        ends = [(g.NAN, g.NAN)] * n
        if isinstance(fvk, tuple):
            fl = [ip.densify(ip.content(i)) for i in (ip.items(p["fill_value"]) if len(fvk) == 2 else [p["fill_value"]] * 2)]
            if any(d is None or d.shape not in ((), (n,)) for d in fl):
                return ip.arr(U(ip.unknown("interp1d", p["x"], p["y"], x), None))
            ends = list(zip(*[[d.cells[0] if d.shape == () else d.cells[i] for i in range(n)] for d in fl]))
        linear = kind in ("linear", "slinear", 1)
        if linear and not (be is False and (fvk == "nan" or isinstance(fvk, tuple))):
            return ip.arr(U(ip.unknown("interp1d", p["x"], p["y"], x), None))

        def at(i, a):
            row = g.vec(rows[i])
            if not linear:
                return g.mk("call", (a, xn, row), ("interp1d", kk, be if israwv(be) else "?", ends[i]))
            lo, hi = ends[i]
            return g.interp(a, xn, row, None if lo is rows[i][0] else lo, None if hi is rows[i][-1] else hi)
        if xd.shape == ():
            return ip.arr(D((n,), [at(i, xd.cells[0]) for i in range(n)]))
        m = len(xd.cells)
        if axis == 0:
            return ip.arr(D((m, n), [at(i, a) for a in xd.cells for i in range(n)]))
        return ip.arr(D((n, m), [at(i, a) for i in range(n) for a in xd.cells]))

    # ---------------------------------------------------------------- methods
    def method(self, n, args, kw):
        ip = self.ip
        kind, _, name = n.partition(".")
        h = getattr(self, "m_%s_%s" % (kind, name), None)
        if h is not None:
            return h(args[0], args[1:], kw)
        o = args[0] if args else None
        if kind == "arr":
            return self.arr_method(o, name, args[1:], kw)
        if kind == "str":
            if isinstance(o, str) and all(israwv(a) for a in args[1:]) and all(israwv(a) for a in kw.values()):
                try:
                    r = getattr(o, name)(*args[1:], **kw)
                except Exception as e:
                    raise AbsRaise(ExcV(type(e).__name__))
                if isinstance(r, list):
                    return ip.mklist(r)
                if isinstance(r, tuple):
                    return Tup(r)
                return r
            if name == "join":
                it = ip.try_items(args[1])
                if it is not None and all(isinstance(x, str) for x in it):
                    return o.join(it)
                if it is not None:
                    parts = []
                    for i, x in enumerate(it):
                        if i:
                            parts.append(o)
                        parts.append(x)
                    return ip.mkstr(parts)
                return StrT([args[1]])
            if name == "format":
                return self.strformat(o, args[1:], kw)
            return Unk(ip.unknown("str." + name, *args), "str")
        if kind == "strt":
            return StrT(list(o.parts))
        if kind == "logger":
            if name in ("warning", "info", "debug", "error", "critical", "exception", "log", "warn"):
                ip.note("log", "logger." + name, args[1:])
                return None
            if name in ("addHandler", "setLevel", "removeHandler", "addFilter"):
                ip.note("config", "logger." + name, o.p.get("name"))
                return None
            return Unk(g.unk("logger attr"), "logger")
        if kind in ("handler", "formatter"):
            return None
        if kind == "table":
            if name == "view":
                rec = any(isinstance(a, Ext) and a.name.endswith("recarray") for a in list(args[1:]) + list(kw.values()))
                return Table(o.name, rec or o.rec, o.rows, o.storage, o.cols)
            if name == "copy":
                return Table(o.name, o.rec, o.rows, o.storage, {c: ip.arr(ip.content(a)) for c, a in o.cols.items()})
            if name == "setflags":
                return None
            if name in ("sort", "fill", "put", "resize", "partition"):
                ip.note("mutate-shared", "%s() on table %s" % (name, o.name), o.name)
                return None
            return Unk(ip.unknown("table." + name), "table")
        if kind == "npz":
            if name == "close":
                return None
        if kind == "file":
            if name == "read":
                return ExtObj("filetext", path=o.p["path"])
            return None
        if kind == "rec":
            if name in ("copy",):
                return RecArr(tuple((nn, self._cp(v)) for nn, v in o.fields), o.rec)
            if name == "view":
                return o
            if name == "item":
                return Tup([v for _, v in o.fields])
        if kind == "path":
            if name in ("joinpath",):
                return self.pathjoin(o, args[1:])
            if name in ("resolve", "absolute", "expanduser"):
                return ExtObj("path", path=os.path.abspath(o.p["path"]))
            if name == "exists" or name == "is_file":
                if ip.phase == "init":
                    return os.path.exists(o.p["path"])
                return self.ambient("path.exists")
            if name == "open":
                return self.f_builtins_open([o] + args[1:], kw)
            if name == "read_text":
                return ExtObj("filetext", path=o.p["path"])
            if name == "with_name" and isinstance(args[1], str):
                return ExtObj("path", path=os.path.join(os.path.dirname(o.p["path"]), args[1]))
            return Unk(ip.unknown("path." + name), "path")
        if kind == "series":
            if name in ("items",):
                return GenV([Tup([k, v]) for k, v in o.p["items"]])
            if name == "keys":
                return Tup([k for k, _ in o.p["items"]])
            if name == "to_dict":
                return ip.mkdict(o.p["items"])
            if name == "get":
                for k, v in o.p["items"]:
                    if k == args[1]:
                        return v
                return args[2] if len(args) > 2 else None
            if name == "copy":
                return o
        if kind == "namedtuple":
            return Unk(ip.unknown("namedtuple." + name), "nt")
        if kind == "object":
            if name == "__new__":
                o = Inst(ip.new(), args[0])
                ip.set((o.addr, "names"), ())
                return o
            if name in ("__init__", "__init_subclass__"):
                return None
            if name == "__setattr__":
                ip.mutate_obj(args[0].addr, "assignment to attribute %s" % (args[1],))
                ip.setattr_raw(args[0].addr, args[1], args[2])
                return None
            if name == "__getattribute__":
                v = ip.getattr_raw(args[0].addr, args[1])
                if v is not MISSING:
                    return v
                ca = ip.find_class_attr(args[0].cls, args[1])
                if ca is not MISSING:
                    return ip.bind(ca, args[0], args[0].cls)
                raise AbsRaise(ExcV("AttributeError", (args[1],)))
            return None
        if kind == "instdict":
            inst = o.p["inst"]
            if name == "update":
                src = args[1] if len(args) > 1 else None
                pairs = []
                if isinstance(src, ExtObj) and src.kind == "instdict":
                    pairs = list(ip.attrs(src.p["inst"].addr).items())
                elif src is not None:
                    pairs = ip.dict_items(src)
                for k, v in list(pairs) + list(kw.items()):
                    ip.mutate_obj(inst.addr, "__dict__ update")
                    ip.setattr_raw(inst.addr, k, v)
                return None
            if name == "get":
                v = ip.getattr_raw(inst.addr, args[1])
                return v if v is not MISSING else (args[2] if len(args) > 2 else None)
            if name == "setdefault":
                v = ip.getattr_raw(inst.addr, args[1])
                if v is MISSING:
                    ip.mutate_obj(inst.addr, "__dict__ setdefault")
                    ip.setattr_raw(inst.addr, args[1], args[2])
                    return args[2]
                return v
            if name in ("items", "keys", "values", "copy"):
                d = ip.mkdict(list(ip.attrs(inst.addr).items()))
                return ip.call(ip.getattr(d, name), [], {})
            if name == "pop":
                v = ip.getattr_raw(inst.addr, args[1])
                ip.mutate_obj(inst.addr, "__dict__ pop")
                ip.set((inst.addr, "a", args[1]), MISSING)
                return v if v is not MISSING else (args[2] if len(args) > 2 else None)
        if kind == "num":
            if name == "is_integer":
                return Num(g.truth(ip.unknown("is_integer", o)))
        if kind == "ndmeta":
            return Unk(g.unk("ndmeta"), "ndmeta")
        if kind == "interp1d":
            if name == "__call__":
                return self.call_interp1d(o, args[1])
        if name == "__init__":
            return None
        return Unk(ip.unknown("method %s" % n, *args, *kw.values()), "method")

    def strformat(self, fmt, args, kw):
        import string
        ip = self.ip
        parts = []
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(fmt):
                if lit:
                    parts.append(lit)
                if field is None:
                    continue
                name = field
                if name == "":
                    name = str(auto)
                    auto += 1
                base = name.split(".")[0].split("[")[0]
                if base.isdigit():
                    if int(base) >= len(args):
                        raise AbsRaise(ExcV("IndexError"))
                    v = args[int(base)]
                else:
                    if base not in kw:
                        raise AbsRaise(ExcV("KeyError", (base,)))
                    v = kw[base]
                rest = name[len(base):]
                while rest.startswith("."):
                    a, _, rest = rest[1:].partition(".")
                    v = ip.getattr(v, a)
                if spec and v is None:
                    raise AbsRaise(ExcV("TypeError", ("format of None with %s" % spec,)))
                parts.append(v if not isinstance(v, (str, int)) else str(v))
        except ValueError:
            return StrT([fmt])
        return ip.mkstr(parts)

    # list
    def m_list_append(self, o, a, kw):
        ip = self.ip
        ip.mutate_obj(o.addr, "list append")
        ip.set((o.addr, "i"), ip.get((o.addr, "i"), ()) + (a[0],))

    def m_list_extend(self, o, a, kw):
        ip = self.ip
        ip.mutate_obj(o.addr, "list extend")
        it = ip.try_items(a[0])
        if it is None:
            ip.unknown("extend", a[0])
            it = []
        ip.set((o.addr, "i"), ip.get((o.addr, "i"), ()) + tuple(it))

    def m_list_insert(self, o, a, kw):
        ip = self.ip
        ip.mutate_obj(o.addr, "list insert")
        it = list(ip.get((o.addr, "i"), ()))
        it.insert(a[0] if isinstance(a[0], int) else 0, a[1])
        ip.set((o.addr, "i"), tuple(it))

    def m_list_pop(self, o, a, kw):
        ip = self.ip
        ip.mutate_obj(o.addr, "list pop")
        it = list(ip.get((o.addr, "i"), ()))
        if not it:
            raise AbsRaise(ExcV("IndexError"))
        v = it.pop(a[0] if a and isinstance(a[0], int) else -1)
        ip.set((o.addr, "i"), tuple(it))
        return v

    def m_list_remove(self, o, a, kw):
        ip = self.ip
        ip.mutate_obj(o.addr, "list remove")
        it = list(ip.get((o.addr, "i"), ()))
        for i, x in enumerate(it):
            if ip.hk(x) == ip.hk(a[0]):
                del it[i]
                ip.set((o.addr, "i"), tuple(it))
                return
        raise AbsRaise(ExcV("ValueError"))

    def _listmut(what):
        def f(self, o, a, kw):
            ip = self.ip
            ip.mutate_obj(o.addr, "list " + what)
            it = list(ip.get((o.addr, "i"), ()))
            if what == "reverse":
                it.reverse()
            elif what == "clear":
                it = []
            elif what == "sort":
                if all(israwv(x) for x in it) and "key" not in kw:
                    it.sort(reverse=bool(kw.get("reverse", False)))
                else:
                    it = [Unk(ip.unknown("sort", *it), "sort") for _ in it]
            ip.set((o.addr, "i"), tuple(it))
        return f

    m_list_reverse = _listmut("reverse")
    m_list_clear = _listmut("clear")
    m_list_sort = _listmut("sort")

    def m_list_copy(self, o, a, kw):
        return self.ip.mklist(self.ip.items(o))

    def m_list_index(self, o, a, kw):
        ip = self.ip
        its = ip.items(o)
        cs = []
        for i, x in enumerate(its):
            t = ip.truth(ip.compare("Eq", x, a[0]))
            d = ip.decide(t)
            if d:
                if not cs:
                    return i
                cs.append((i, g.TRUE))
                break
            if d is None:
                cs.append((i, t))
        if not cs:
            raise AbsRaise(ExcV("ValueError", ("not in list",)))
        r = g.const(cs[-1][0])
        for i, t in reversed(cs[:-1]):
            r = g.ite(t, g.const(i), r)
        return Num(r)

    m_tuple_index = m_list_index

    def m_list_count(self, o, a, kw):
        return sum(1 for x in self.ip.items(o) if self.ip.hk(x) == self.ip.hk(a[0]))

    m_tuple_count = m_list_count

    # dict
    def m_dict_get(self, o, a, kw):
        ip = self.ip
        if isinstance(o, Gate):
            return ip.split(o, lambda x: self.m_dict_get(x, a, kw))
        k = ip.resolve(a[0])
        d = a[1] if len(a) > 1 else kw.get("default")
        if isinstance(k, Gate):
            return ip.split(k, lambda x: self.m_dict_get(o, [x] + list(a[1:]), kw))
        if isinstance(k, Unk):
            return Unk(ip.unknown("dict.get unknown key", o, k), "dict")
        v = ip.dict_get(o, k)
        if v is MISSING:
            return d
        if isinstance(v, Gate) and v.a is MISSING:
            return ip.join(v.cond, d, v.b)
        if isinstance(v, Gate) and v.b is MISSING:
            return ip.join(v.cond, v.a, d)
        return v

    def m_dict_keys(self, o, a, kw):
        return Tup([k for k, _ in self.ip.dict_items(o)])

    def m_dict_values(self, o, a, kw):
        return Tup([v for _, v in self.ip.dict_items(o)])

    def m_dict_items(self, o, a, kw):
        return Tup([Tup([k, v]) for k, v in self.ip.dict_items(o)])

    def m_dict_copy(self, o, a, kw):
        return self.ip.mkdict(list(self.ip.dict_items(o, raw=True)))

    def m_dict_update(self, o, a, kw):
        ip = self.ip
        ip.mutate_obj(o.addr, "dict update")
        if a:
            v = ip.resolve(a[0])
            if isinstance(v, ExtObj) and v.kind == "instdict":
                for k, x in ip.attrs(v.p["inst"].addr).items():
                    ip.dict_set(o, k, x, quiet=True)
            elif isinstance(v, (DictV, Inst)):
                for k, x in ip.dict_items(v):
                    ip.dict_set(o, k, x, quiet=True)
            else:
                it = ip.try_items(v)
                for p in it or []:
                    q = ip.try_items(p)
                    ip.dict_set(o, q[0], q[1], quiet=True)
        for k, x in kw.items():
            ip.dict_set(o, k, x, quiet=True)

    def m_dict_setdefault(self, o, a, kw):
        ip = self.ip
        v = ip.dict_get(o, a[0])
        d = a[1] if len(a) > 1 else None
        if v is MISSING:
            ip.dict_set(o, a[0], d)
            return d
        return v

    def m_dict_pop(self, o, a, kw):
        ip = self.ip
        v = ip.dict_get(o, a[0])
        if v is MISSING:
            if len(a) > 1:
                return a[1]
            raise AbsRaise(ExcV("KeyError", (a[0],)))
        ip.mutate_obj(o.addr, "dict pop")
        h = ip.hk(a[0])
        ip.set((o.addr, "i"), tuple(p for p in ip.get((o.addr, "i"), ()) if ip.hk(p[0]) != h))
        return v

    def m_dict_clear(self, o, a, kw):
        self.ip.mutate_obj(o.addr, "dict clear")
        self.ip.set((o.addr, "i"), ())

    def m_dict_fromkeys(self, o, a, kw):
        its = self.ip.items(o) if not isinstance(o, Ext) else self.ip.items(a[0])
        return self.ip.mkdict([(k, a[-1] if len(a) and not isinstance(a[-1], (Tup, ListV)) else None) for k in its])

    def m_dict___contains__(self, o, a, kw):
        return self.ip.contains(o, a[0])

    def m_dict___getitem__(self, o, a, kw):
        return self.getitem(o, a[0])

    def m_dict_get_(self, o, a, kw):
        return None

    # set
    def m_set_add(self, o, a, kw):
        ip = self.ip
        ip.mutate_obj(o.addr, "set add")
        it = ip.get((o.addr, "i"), ())
        if ip.hk(a[0]) not in [ip.hk(x) for x in it]:
            ip.set((o.addr, "i"), it + (a[0],))

    def _setop(op):
        def f(self, o, a, kw):
            other = a[0] if isinstance(a[0], SetV) else self.f_builtins_set([a[0]], {})
            if isinstance(other, Unk):
                return Unk(self.ip.unknown("set op", *a), "set")
            return self.ip.binop(op, o, other)
        return f

    m_set_union = _setop("BitOr")
    m_set_intersection = _setop("BitAnd")
    m_set_difference = _setop("Sub")
    m_set_symmetric_difference = _setop("BitXor")

    def m_set_update(self, o, a, kw):
        for x in self.ip.items(a[0]):
            self.m_set_add(o, [x], {})

    def m_set_issubset(self, o, a, kw):
        hb = [self.ip.hk(x) for x in self.ip.items(a[0])]
        return all(self.ip.hk(x) in hb for x in self.ip.items(o))

    def m_set_issuperset(self, o, a, kw):
        ha = [self.ip.hk(x) for x in self.ip.items(o)]
        return all(self.ip.hk(x) in ha for x in self.ip.items(a[0]))

    def m_set_isdisjoint(self, o, a, kw):
        ha = [self.ip.hk(x) for x in self.ip.items(o)]
        return not any(self.ip.hk(x) in ha for x in self.ip.items(a[0]))

    def m_set_copy(self, o, a, kw):
        return self.f_builtins_set([o], {})

    def m_tuple__asdict(self, o, a, kw):
        return Unk(self.ip.unknown("_asdict"), "nt")

    # ndarray
    def arr_method(self, o, name, a, kw):
        r = self.arr_method1(o, name, a, kw)
        if isinstance(o, Arr) and isinstance(r, Arr) and r.addr != o.addr:
            dt = self.ip.meta[o.addr].get("dt")
            if name in ("copy", "flatten", "ravel", "reshape", "squeeze", "transpose", "view", "__copy__", "__deepcopy__",
                        "swapaxes", "take", "repeat", "clip", "cumsum"):
                self.ip.meta[r.addr].setdefault("dt", dt)
        return r

    def arr_method1(self, o, name, a, kw):
        ip = self.ip
        if isinstance(o, (Num,)) or isinstance(o, Unk):
            if name in ("item", "copy", "astype", "tolist", "conj", "squeeze", "flatten", "ravel", "round", "reshape", "view"):
                if name in ("ravel", "flatten", "reshape") and isinstance(o, Num):
                    return ip.arr(D((1,), (o.node,)))
                return o
            if name in REDUCE:
                return self.reduce(name, o, list(a), kw)
            if name in ("fill", "sort", "put") and isinstance(o, Unk):
                ip.note("mutate-unknown", name, o.why)
                return None
            if isinstance(o, Unk):
                return Unk(ip.unknown("method " + name, o, *a), "method")
            return self.noattr(o, name)
        c = ip.content(o)
        if name in ("copy", "flatten", "__copy__", "__deepcopy__"):
            if name == "flatten" and isinstance(c, D):
                return ip.arr(D((len(c.cells),), c.cells))
            return ip.arr(c)
        if name == "astype":
            t = a[0] if a else kw.get("dtype")
            if kw.get("copy") is False and self.dt_named(t) == ip.meta[o.addr].get("dt"):
                return o
            if kw.get("copy") is False and self.dt_named(t) is None:
                return ip.arr(c, ip.storages(o))
            dt = self.dt_named(t)
            if dt is not None:
                r = self.cut(ip.arr(c), dt)
                r = ip.arr(ip.content(r))
                ip.meta[r.addr]["dt"] = dt
                return r
            if isinstance(t, Ext) and t.name in ("builtins.bool", "numpy.bool_"):
                return ip.ewise(g.truth, o)
            return ip.arr(c)
        if name == "view":
            return o
        if name == "reshape":
            shp = list(a)
            if len(shp) == 1 and isinstance(shp[0], (Tup, ListV)):
                shp = ip.items(shp[0])
            return self.reshape(o, shp)
        if name == "ravel":
            return self.np_ravel([o], kw)
        if name == "squeeze":
            return self.np_squeeze([o], kw)
        if name == "transpose":
            return self.transpose(o)
        if name in REDUCE:
            return self.reduce(name, o, list(a), kw)
        if name == "fill":
            v = ip.unode(ip.content(self.cut(a[0], ip.meta[o.addr].get("dt"))))
            ip.mutate_arr(o, D(c.shape, [v] * len(c.cells)) if isinstance(c, D) else U(v, c.shape), "ndarray.fill")
            return None
        if name in ("sort", "partition"):
            if isinstance(c, D) and all(x.op == "const" for x in c.cells) and len(c.shape) == 1:
                nc = D(c.shape, sorted(c.cells, key=lambda x: x.data))
            else:
                nc = U(g.mk("op:sort", (ip.unode(c),)), c.shape)
            ip.mutate_arr(o, nc, "ndarray.sort")
            return None
        if name == "resize":
            ip.mutate_arr(o, U(ip.unknown("resize", o), None), "ndarray.resize")
            return None
        if name == "put":
            self.setitem(o, a[0], a[1])
            return None
        if name == "item":
            if a:
                return self.getitem(o, a[0])
            if isinstance(c, D) and len(c.cells) == 1:
                return Num(c.cells[0])
            if c.shape is not None and ip.size(c.shape) != 1:
                raise AbsRaise(ExcV("ValueError", ("can only convert an array of size 1",)))
            return Num(ip.unode(c))
        if name == "tolist":
            it = ip.try_items(o)
            if it is None:
                return Unk(ip.unknown("tolist", o), "list")
            return ip.mklist([self.arr_method(x, "tolist", [], {}) if isinstance(x, Arr) else x for x in it])
        if name == "dot":
            return self.matmul(o, a[0])
        if name == "clip":
            return self.np_clip([o] + list(a), kw)
        if name == "round":
            return ip.ewise(lambda x: g.el("round", x), o)
        if name == "take":
            return self.getitem(o, a[0])
        if name == "repeat":
            return self.np_repeat([o] + list(a), kw)
        if name == "searchsorted":
            return self.np_searchsorted([o] + list(a), kw)
        if name == "diagonal":
            return self.np_diag([o], {})
        if name == "nonzero":
            return self.np_where([o], {})
        if name in ("conj", "conjugate"):
            return o
        if name in ("setflags", "tofile", "dump"):
            return None
        if name == "swapaxes":
            return self.transpose(o)
        if name == "__len__":
            return self.f_builtins_len([o], {})
        if name == "trace":
            return self.reduce("sum", self.np_diag([o], {}), [], {})
        return Unk(ip.unknown("ndarray." + name, o, *a), "method")

    # ---------------------------------------------------------------- indexing
    def getitem(self, o, i):
        ip = self.ip
        o = ip.resolve(o)
        i = ip.resolve(i)
        if isinstance(o, Gate):
            return ip.split(o, lambda x: self.getitem(x, i))
        if isinstance(i, Gate):
            return ip.split(i, lambda x: self.getitem(o, x))
        if isinstance(o, Inst):
            f = ip.find_class_attr(o.cls, "__getitem__")
            if f is MISSING:
                raise AbsRaise(ExcV("TypeError", ("%s is not subscriptable" % o.cls.name,)))
            return ip.call(ip.bind(f, o, o.cls), [i], {})
        if isinstance(o, DictV):
            if isinstance(i, (Num, Unk)) and not israwv(i):
                if isinstance(i, Num) and any(ip.hk(k) == ip.hk(i) for k, _ in ip.dict_items(o)):
                    return ip.dict_get(o, i)
                its = ip.dict_items(o)
                if isinstance(i, Num) and its:
                    # may be any entry
                    r = its[-1][1]
                    for k, v in reversed(its[:-1]):
                        c = ip.truth(ip.compare("Eq", i, k))
                        r = ip.join(c, v, r)
                    ip.may_raise(ExcV("KeyError", ("symbolic key",)))
                    return r
                return Unk(ip.unknown("dict lookup with unknown key", o, i), "dict")
            v = ip.dict_get(o, i)
            if isinstance(v, Gate) and (v.a is MISSING or v.b is MISSING):
                return ip.split(v, lambda x: x)
            if v is MISSING:
                raise AbsRaise(ExcV("KeyError", (i if israwv(i) else "?",)))
            return v
        if isinstance(o, Table):
            return self.table_getitem(o, i)
        if isinstance(o, RecArr):
            if isinstance(i, str):
                for n, v in o.fields:
                    if n == i:
                        return v
                raise AbsRaise(ExcV("ValueError", ("no field of name %s" % i,)))
            if isinstance(i, (ListV, Tup)):
                ks = ip.try_items(i)
                if ks and all(isinstance(x, str) for x in ks):
                    d = dict(o.fields)
                    if any(x not in d for x in ks):
                        raise AbsRaise(ExcV("KeyError", ("no field of name",)))
                    return RecArr(tuple((x, d[x]) for x in ks), o.rec)
            if isinstance(i, (int, Num, SliceV, Arr, ListV)):
                return RecArr(tuple((n, self.getitem(v, i) if isinstance(v, Arr) else v) for n, v in o.fields), o.rec)
            return Unk(ip.unknown("recarray index", o, i), "rec")
        if isinstance(o, (ListV, Tup, GenV)):
            its = ip.items(o)
            if isinstance(i, bool):
                i = int(i)
            if isinstance(i, int):
                if -len(its) <= i < len(its):
                    return its[i]
                raise AbsRaise(ExcV("IndexError", ("list index out of range",)))
            if isinstance(i, SliceV):
                if all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.step)):
                    r = its[slice(i.lo, i.hi, i.step)]
                    return ip.mklist(r) if isinstance(o, ListV) else Tup(r)
                return Unk(ip.unknown("slice", o, i.lo, i.hi), "slice")
            if isinstance(i, (float, str)) or i is None or isinstance(i, (Tup, ListV)):
                raise AbsRaise(ExcV("TypeError", ("list indices",)))
            if isinstance(i, Num) and its:
                r = its[-1]
                for k in range(len(its) - 2, -1, -1):
                    r = ip.join(g.eq(i.node, g.const(k)), its[k], r)
                return r
            return Unk(ip.unknown("list index", o, i), "list")
        if isinstance(o, str):
            if isinstance(i, int):
                try:
                    return o[i]
                except IndexError:
                    raise AbsRaise(ExcV("IndexError"))
            if isinstance(i, SliceV) and all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.step)):
                return o[slice(i.lo, i.hi, i.step)]
            raise AbsRaise(ExcV("TypeError", ("string index",)))
        if isinstance(o, Arr):
            return self.getitem_arr(o, i)
        if isinstance(o, Num):
            if isinstance(i, Tup) and not i.items or i is Ellipsis:
                return o
            if o.py:
                raise AbsRaise(ExcV("TypeError", ("number is not subscriptable",)))
            if isinstance(i, Tup) and all(x is None for x in i.items):
                return ip.arr(D((1,) * len(i.items), (o.node,)))
            if i is None:
                return ip.arr(D((1,), (o.node,)))
            raise AbsRaise(ExcV("IndexError", ("invalid index to scalar variable",)))
        if o is None or isinstance(o, (bool, int, float)):
            raise AbsRaise(ExcV("TypeError", ("%s object is not subscriptable" % ip.tname(o),)))
        if isinstance(o, ExtObj):
            if o.kind == "npz":
                return ip.arr(U(g.mk("data", (), (os.path.basename(o.p["path"]) + ":" + str(i),)), None))
            if o.kind == "series":
                for k, v in o.p["items"]:
                    if k == i:
                        return v
                raise AbsRaise(ExcV("KeyError", (i,)))
            if o.kind == "instdict":
                v = ip.getattr_raw(o.p["inst"].addr, i)
                if v is MISSING:
                    raise AbsRaise(ExcV("KeyError", (i,)))
                return v
            if o.kind == "typing":
                return ExtObj("typing")
            if o.kind == "namedtuple" and isinstance(i, int):
                return o.p["v_" + o.p["fields"][i]]
        if isinstance(o, Ext):
            if o.name == "numpy.c_" and isinstance(i, Tup) and not any(isinstance(x, (SliceV, str)) for x in i.items):
                return self.np_column_stack([i], {})
            if o.name in ("numpy.r_",):
                return self.np_r_(i)
            if o.name == "numpy.c_":
                return self.np_stackish([i], {}, "column_stack")
            if o.name in ("numpy.s_", "numpy.index_exp"):
                return i
            return ExtObj("typing")
        if isinstance(o, ClassV):
            return ExtObj("typing")
        if isinstance(o, Unk):
            if isinstance(i, str):
                return Unk(g.mk("unk", (o.node,), "item " + i), "item")
            if isinstance(i, int):
                return Unk(g.mk("idx", (o.node,), i), "item")
            return Unk(ip.unknown("index of unknown", o, i), "item")
        if isinstance(o, SetV):
            raise AbsRaise(ExcV("TypeError", ("set is not subscriptable",)))
        return Unk(ip.unknown("index of %s" % type(o).__name__, o), "item")

    def np_r_(self, i):
        ip = self.ip
        parts = list(i.items) if isinstance(i, Tup) else [i]
        out = []
        for p in parts:
            if isinstance(p, SliceV):
                if all(x is None or isinstance(x, int) for x in (p.lo, p.hi, p.step)):
                    out += [g.const(k) for k in range(p.lo or 0, p.hi, p.step or 1)]
                    continue
                return ip.arr(U(ip.unknown("r_"), None))
            c = ip.content(p)
            if c.shape == ():
                out.append(ip.unode(c))
                continue
            d = ip.densify(c)
            if d is None:
                return ip.arr(U(g.mk("op:concatenate", tuple(ip.depnodes(parts))), None))
            out += list(d.cells)
        return ip.arr(D((len(out),), out))

    def table_getitem(self, o, i):
        ip = self.ip
        if isinstance(i, str):
            return self.table_col(o, i)
        if isinstance(i, StrT):
            return Unk(ip.unknown("column by computed name"), "col")
        if isinstance(i, bool):
            return Unk(ip.unknown("table index"), "table")
        n = self.table_len(o)
        rows = list(range(n)) if o.rows is None else (list(o.rows) if isinstance(o.rows, tuple) else None)
        if rows is None:
            return Unk(ip.unknown("record index"), "table")
        if isinstance(i, int):
            if not -len(rows) <= i < len(rows):
                raise AbsRaise(ExcV("IndexError"))
            return Table(o.name, o.rec, rows[i], o.storage, o.cols)
        if isinstance(i, SliceV) and all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.step)):
            return Table(o.name, o.rec, tuple(rows[slice(i.lo, i.hi, i.step)]), o.storage, o.cols)
        if isinstance(i, (ListV, Tup)):
            its = ip.items(i)
            if its and all(isinstance(x, str) for x in its):
                return Table(o.name, o.rec, o.rows, o.storage, {c: o.cols[c] for c in its if c in o.cols})
        if isinstance(i, (ListV, Tup, Arr)):
            c = ip.content(i)
            if isinstance(c, D) and len(c.shape) == 1:
                if all(x.op == "const" for x in c.cells):
                    return Table(o.name, o.rec, tuple(rows[int(x.data)] for x in c.cells), o.storage,
                                 {k: ip.arr(ip.content(v)) for k, v in o.cols.items()})
                if all(g.is_bool(x) for x in c.cells):
                    ds = [ip.decide(x) for x in c.cells]
                    if None not in ds and len(ds) == len(rows):
                        return Table(o.name, o.rec, tuple(r for r, d in zip(rows, ds) if d), o.storage,
                                     {k: ip.arr(ip.content(v)) for k, v in o.cols.items()})
            dn = ip.densify(c)
            if dn is not None and len(dn.cells) == len(rows) and all(g.is_bool(x) for x in dn.cells):
                ds = [ip.decide(x) for x in dn.cells]
                if None not in ds:
                    return Table(o.name, o.rec, tuple(r for r, d in zip(rows, ds) if d), o.storage,
                                 {k: ip.arr(ip.content(v)) for k, v in o.cols.items()})
        return Unk(ip.unknown("table index", i), "table")

    def index_list(self, i, n):
        """('int', k) | ('list', [..], isview) | ('bool', node content) | None"""
        ip = self.ip
        if isinstance(i, bool):
            return None
        if isinstance(i, int):
            return ("int", i)
        if isinstance(i, (float, str)) or isinstance(i, Num) and i.node.op == "const" and isinstance(
                i.node.data, float) and not i.node.data.is_integer():
            raise AbsRaise(ExcV("IndexError", ("only integers, slices",)))
        if isinstance(i, SliceV):
            if n is None:
                if i.lo is None and i.hi is None and i.step is None:
                    return ("full",)
                return None
            if all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.step)):
                return ("list", list(range(n))[slice(i.lo, i.hi, i.step)], True)
            return None
        if isinstance(i, Num):
            if i.node.op == "const" and float(i.node.data).is_integer():
                return ("int", int(i.node.data))
            return ("sym", i.node)
        if isinstance(i, (Arr, ListV)):
            c = ip.content(i)
            if isinstance(c, D) and len(c.shape) == 1:
                if all(x.op == "const" for x in c.cells):
                    return ("list", [int(x.data) for x in c.cells], False)
                if all(g.is_bool(x) for x in c.cells):
                    ds = [ip.decide(x) for x in c.cells]
                    if None not in ds:
                        return ("list", [k for k, d in enumerate(ds) if d], False)
                    return ("bool", c)
                return ("symlist", c)
            if isinstance(c, U) and g.is_bool(c.node):
                return ("bool", c)
            if isinstance(c, D) and all(g.is_bool(x) for x in c.cells):
                return ("bool", c)
        return None

    def getitem_arr(self, o, i):
        r = self.getitem_arr1(o, i)
        if isinstance(r, Arr) and r.addr != o.addr:
            self.ip.meta[r.addr].setdefault("dt", self.ip.meta[o.addr].get("dt"))
        return r

    def getitem_arr1(self, o, i):
        ip = self.ip
        c = ip.content(o)
        st = ip.storages(o)
        if isinstance(i, str):
            raise AbsRaise(ExcV("IndexError", ("only integers, slices",)))
        if i is Ellipsis or isinstance(i, Tup) and not i.items:
            return o
        if isinstance(i, SliceV) and i.lo is None and i.hi is None and i.step is None:
            return o
        tup = list(i.items) if isinstance(i, Tup) else [i]
        if any(isinstance(x, Gate) for x in tup):
            k = next(k for k, x in enumerate(tup) if isinstance(x, Gate))
            return ip.split(tup[k], lambda x: self.getitem_arr(o, Tup(tup[:k] + [x] + tup[k + 1:])))
        nd = len(c.shape) if c.shape is not None else None
        if Ellipsis in [x for x in tup if x is Ellipsis]:
            if nd is None:
                return ip.arr(U(g.mk("reshape", (ip.unode(c),), "ellipsis"), None), st)
            k = next(k for k, x in enumerate(tup) if x is Ellipsis)
            m = nd - sum(1 for x in tup if x is not None and x is not Ellipsis)
            tup = tup[:k] + [SliceV(None, None, None)] * m + tup[k + 1:]
        # single scalar/boolean/fancy index on U
        if isinstance(c, U) and len(tup) == 1 and (nd is None or nd == 1):
            n = c.shape[0] if nd == 1 else None
            if tup[0] is None:
                return ip.arr(U(c.node, (1, n) if n is not None else None), st)
            x = self.index_list(tup[0], n)
            if x is None:
                if isinstance(tup[0], SliceV):
                    s = tup[0]
                    node = g.mk("slice", (c.node,) + tuple(ip.depnodes([z for z in (s.lo, s.hi, s.step) if z is not None])),
                                tuple(z if israwv(z) else "?" for z in (s.lo, s.hi, s.step)))
                    return ip.arr(U(node, None), st)
                if not self._num(tup[0]):
                    return Unk(ip.unknown("array index", o, tup[0]), "idx")
                idx = ip.content(tup[0])
                return ip.arr(U(g.mk("idxn", (c.node, ip.unode(idx))), idx.shape))
            if x[0] == "full":
                return o
            if x[0] == "int":
                if n is not None and not -n <= x[1] < n:
                    raise AbsRaise(ExcV("IndexError", ("index %d out of bounds for size %d" % (x[1], n),)))
                return Num(g.index(c.node, x[1]))
            if x[0] == "sym" and x[1].op in ("op:argmin", "op:argmax"):
                d = ip.densify(c)
                if d is not None:
                    return self.dense_index(o, d, tup, st)
            if x[0] == "sym":
                return Num(g.mk("idxn", (c.node, x[1])))
            if x[0] == "list":
                rows = x[1]
                if n is not None and any(not -n <= r < n for r in rows):
                    raise AbsRaise(ExcV("IndexError"))
                nc = U(g.take(c.node, rows), (len(rows),))
                if x[2]:
                    return ip.arr(nc, st, (o.addr, lambda b: U(g.take(b.node, rows), (len(rows),)) if isinstance(b, U) else D((len(rows),), [b.cells[r] for r in rows]), None))
                return ip.arr(nc)
            if x[0] == "symlist":
                return ip.arr(D(x[1].shape, [g.mk("idxn", (c.node, y)) for y in x[1].cells]))
            if x[0] == "bool":
                return ip.arr(U(g.mk("el:msel", (c.node, ip.unode(x[1]))), None))
        if isinstance(c, U) and nd == 1 and len(tup) == 2 and None in tup:
            other = tup[0] if tup[1] is None else tup[1]
            if isinstance(other, SliceV) and other.lo is None and other.hi is None and other.step is None:
                if tup[1] is None:
                    return ip.arr(U(g.axcol(c.node), (c.shape[0], 1)), st)
                return ip.arr(U(c.node, (1, c.shape[0])), st)
        if isinstance(c, U) and nd is None and len(tup) == 2 and None in tup:
            if tup[1] is None:
                return ip.arr(U(g.axcol(c.node), None), st)
            return ip.arr(U(c.node, None), st)
        if isinstance(c, U) and nd == 0:
            if all(x is None for x in tup):
                return ip.arr(D((1,) * len(tup), (c.node,)), st)
            raise AbsRaise(ExcV("IndexError", ("too many indices",)))
        d = ip.densify(c)
        if d is not None:
            r = self.dense_index(o, d, tup, st)
            if r is not None:
                return r
        nodes = [ip.unode(c)]
        key = []
        for x in tup:
            if isinstance(x, SliceV):
                key.append(("s",) + tuple(z if israwv(z) else "?" for z in (x.lo, x.hi, x.step)))
                nodes += ip.depnodes([z for z in (x.lo, x.hi, x.step) if z is not None and not israwv(z)])
            elif israwv(x):
                key.append(x)
            else:
                key.append("n")
                nodes += ip.depnodes([x])
        node = g.mk("idxn", tuple(nodes), tuple(key))
        if all(isinstance(x, int) or isinstance(x, Num) for x in tup) and nd is not None and len(tup) == nd:
            return Num(node)
        return ip.arr(U(node, None), st)

    def paired(self, d, tup):
        """(shape, offsets) of an index with several arrays of given positions,
        which numpy pairs with one another; None for any other index."""
        ip = self.ip
        if len(tup) != len(d.shape) or sum(isinstance(x, (Arr, ListV)) for x in tup) < 2:
            return None
        cs = []
        for x, n in zip(tup, d.shape):
            if isinstance(x, bool) or not isinstance(x, (int, Num, Arr, ListV)):
                return None
            c = ip.densify(ip.content(x))
            if c is None or any(y.op != "const" or isinstance(y.data, bool) or not float(y.data).is_integer() for y in c.cells):
                return None
            if any(not -n <= y.data < n for y in c.cells):
                raise AbsRaise(ExcV("IndexError", ("index out of bounds",)))
            cs.append(c)
        shape = ip.bshape([c.shape for c in cs])
        if shape is None:
            return None
        offs = None
        for c, n in zip(cs, d.shape):
            ks = [int(y.data) % n for y in ip.bcells(c, shape)]
            offs = ks if offs is None else [o * n + k for o, k in zip(offs, ks)]
        return shape, offs

    def dense_index(self, o, d, tup, st):
        """numpy basic/advanced indexing on a dense array; None if unsupported."""
        ip = self.ip
        pr = self.paired(d, tup)
        if pr is not None:
            return ip.arr(D(pr[0], [d.cells[k] for k in pr[1]]))
        # full boolean mask
        if len(tup) == 1 and isinstance(tup[0], (Arr, ListV)):
            ic = ip.content(tup[0])
            dm = ip.densify(ic)
            if dm is not None and dm.shape == d.shape and dm.cells and all(g.is_bool(x) for x in dm.cells):
                ds = [ip.decide(x) for x in dm.cells]
                if None not in ds:
                    cells = [x for x, t in zip(d.cells, ds) if t]
                    return ip.arr(D((len(cells),), cells))
                return ip.arr(MaskSel(d, dm)) if False else ip.arr(U(g.mk("el:msel", (ip.unode(d), ip.unode(dm))), None))
        axes = []
        ax = 0
        view = True
        nfancy = 0
        for x in tup:
            if x is None:
                axes.append(("new",))
                continue
            if ax >= len(d.shape):
                raise AbsRaise(ExcV("IndexError", ("too many indices for array",)))
            r = self.index_list(x, d.shape[ax])
            if r is None or r[0] in ("bool",):
                return None
            if r[0] == "int":
                if not -d.shape[ax] <= r[1] < d.shape[ax]:
                    raise AbsRaise(ExcV("IndexError", ("index out of bounds",)))
                axes.append(("int", r[1] % d.shape[ax]))
            elif r[0] == "list":
                if not r[2]:
                    view = False
                    nfancy += 1
                if any(not -d.shape[ax] <= k < d.shape[ax] for k in r[1]):
                    raise AbsRaise(ExcV("IndexError"))
                axes.append(("list", [k % d.shape[ax] for k in r[1]]))
            elif r[0] == "sym":
                if len(tup) == 1 and len(d.shape) == 1:
                    # symbolic position
                    n = d.shape[0]
                    if r[1].op in ("op:argmin", "op:argmax") and r[1].args[0] is ip.unode(d):
                        return Num(self.red(r[1].op[6:], list(d.cells)))
                    res = d.cells[n - 1]
                    for k in range(n - 2, -1, -1):
                        res = g.ite(g.eq(r[1], g.const(k)), d.cells[k], res)
                    return Num(res)
                axes.append(("sym", r[1], d.shape[ax]))
            elif r[0] == "symlist":
                if len(tup) == 1 and len(d.shape) == 1:
                    out = []
                    for s in r[1].cells:
                        n = d.shape[0]
                        res = d.cells[n - 1]
                        for k in range(n - 2, -1, -1):
                            res = g.ite(g.eq(s, g.const(k)), d.cells[k], res)
                        out.append(res)
                    return ip.arr(D((len(out),), out))
                return None
            else:
                return None
            ax += 1
        while ax < len(d.shape):
            axes.append(("list", list(range(d.shape[ax]))))
            ax += 1
        if nfancy > 1:
            return None
        shape = []
        for a in axes:
            if a[0] == "new":
                shape.append(1)
            elif a[0] == "list":
                shape.append(len(a[1]))
        strides = []
        acc = 1
        for s in reversed(d.shape):
            strides.insert(0, acc)
            acc *= s
        positions = [[]]
        # iterate positions in C order over result axes
        syms = [a for a in axes if a[0] == "sym"]

        def rec(k, axn, off, symoffs):
            if k == len(axes):
                yield off, symoffs
                return
            a = axes[k]
            if a[0] == "new":
                yield from rec(k + 1, axn, off, symoffs)
            elif a[0] == "int":
                yield from rec(k + 1, axn + 1, off + a[1] * strides[axn], symoffs)
            elif a[0] == "sym":
                yield from rec(k + 1, axn + 1, off, symoffs + [(a[1], a[2], strides[axn])])
            else:
                for j in a[1]:
                    yield from rec(k + 1, axn + 1, off + j * strides[axn], symoffs)

        offs = list(rec(0, 0, 0, []))
        cells = []
        for off, so in offs:
            if not so:
                cells.append(d.cells[off])
            else:
                def pick(off, so):
                    if not so:
                        return d.cells[off]
                    node, n, stx = so[0]
                    res = pick(off + (n - 1) * stx, so[1:])
                    for k in range(n - 2, -1, -1):
                        res = g.ite(g.eq(node, g.const(k)), pick(off + k * stx, so[1:]), res)
                    return res
                cells.append(pick(off, so))
        if not shape and all(a[0] in ("int", "sym") for a in axes):
            return Num(cells[0])
        nc = D(tuple(shape), cells)
        if view and not syms:
            poss = [off for off, _ in offs]
            shp = tuple(shape)

            def rd(b):
                return D(shp, [b.cells[p] for p in poss]) if isinstance(b, D) else U(g.unk("view", b.node), shp)

            def wb(b, v):
                b = ip.densify(b)
                v = ip.densify(v)
                if b is None or v is None:
                    return None
                cells = list(b.cells)
                for p, x in zip(poss, ip.bcells(v, shp)):
                    cells[p] = x
                return D(b.shape, cells)
            return ip.arr(nc, st, (o.addr, rd, wb))
        return ip.arr(nc)

    def setitem(self, o, i, v):
        ip = self.ip
        o = ip.resolve(o)
        i = ip.resolve(i)
        if isinstance(o, Gate):
            ip.fork(o.cond, lambda: self.setitem(o.a, i, v), lambda: self.setitem(o.b, i, v))
            return
        if isinstance(i, Gate):
            ip.fork(i.cond, lambda: self.setitem(o, i.a, v), lambda: self.setitem(o, i.b, v))
            return
        if isinstance(o, Inst):
            f = ip.find_class_attr(o.cls, "__setitem__")
            if f is MISSING:
                raise AbsRaise(ExcV("TypeError", ("%s does not support item assignment" % o.cls.name,)))
            ip.call(ip.bind(f, o, o.cls), [i, v], {})
            return
        if isinstance(o, DictV):
            if not israwv(i) and not isinstance(i, (Tup, Num)):
                ip.unknown("dict store with unknown key")
            ip.dict_set(o, i, v)
            return
        if isinstance(o, ListV):
            ip.mutate_obj(o.addr, "store to list element")
            its = list(ip.items(o))
            if isinstance(i, int):
                if not -len(its) <= i < len(its):
                    raise AbsRaise(ExcV("IndexError"))
                its[i] = v
            elif isinstance(i, SliceV) and all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.step)):
                its[slice(i.lo, i.hi, i.step)] = ip.items(v)
            elif isinstance(i, Num):
                its = [ip.join(g.eq(i.node, g.const(k)), v, x) for k, x in enumerate(its)]
            else:
                raise AbsRaise(ExcV("TypeError", ("list indices",)))
            ip.set((o.addr, "i"), tuple(its))
            return
        if isinstance(o, Arr):
            self.setitem_arr(o, i, v)
            return
        if isinstance(o, Table):
            if isinstance(i, str) and i in o.cols:
                self.setitem_arr(o.cols[i], SliceV(None, None, None), v)
                return
            kind, desc = ip.sowner.get(o.storage, ("case", ""))
            if kind != "case":
                ip.note("mutate-" + kind, "store into table %s" % o.name, desc)
            return
        if isinstance(o, RecArr):
            if isinstance(i, str):
                for n, x in o.fields:
                    if n == i and isinstance(x, Arr):
                        self.setitem_arr(x, SliceV(None, None, None), v)
                        return
            ip.unknown("store into recarray")
            return
        if isinstance(o, ExtObj):
            if o.kind == "instdict":
                inst = o.p["inst"]
                ip.mutate_obj(inst.addr, "__dict__ store")
                if isinstance(i, str):
                    ip.setattr_raw(inst.addr, i, v)
                return
            if o.kind == "series":
                ip.note("mutate-shared", "store into Series", "series")
                return
        if isinstance(o, Unk):
            if o.why.startswith("ambient os.environ"):
                ip.note("config", "os.environ store", None)
            ip.note("mutate-unknown", "store into unknown object", o.why)
            return
        if isinstance(o, (Tup, str, int, float, Num)) or o is None:
            raise AbsRaise(ExcV("TypeError", ("%s does not support item assignment" % ip.tname(o),)))
        ip.unknown("store into %s" % type(o).__name__)

    def setitem_arr(self, o, i, v):
        ip = self.ip
        c = ip.content(o)
        if v is None:
            v = float("nan")
        if not self._num(v):
            if isinstance(v, (str, DictV)):
                raise AbsRaise(ExcV("ValueError", ("could not convert",)))
            ip.mutate_arr(o, U(ip.unknown("store of unknown", c, v), c.shape), "store into an array")
            return
        v = self.cut(v, ip.meta[o.addr].get("dt"))
        vc = ip.content(v)
        full = isinstance(i, SliceV) and i.lo is None and i.hi is None and i.step is None or i is Ellipsis
        if full:
            if c.shape is not None and vc.shape is not None:
                shp = ip.bshape([c.shape, vc.shape])
                if shp != c.shape:
                    raise AbsRaise(ExcV("ValueError", ("could not broadcast",)))
            dv = ip.densify(vc)
            if isinstance(c, D) and dv is not None:
                nc = D(c.shape, ip.bcells(dv, c.shape))
            else:
                nc = U(ip.unode(vc), c.shape)
            ip.mutate_arr(o, nc, "store into an array")
            return
        tup = list(i.items) if isinstance(i, Tup) else [i]
        if len(tup) == 1 and isinstance(tup[0], (Arr, ListV, Num)):
            mc = ip.content(tup[0])
            isb = isinstance(mc, U) and g.is_bool(mc.node) or isinstance(mc, D) and mc.cells and all(g.is_bool(x) for x in mc.cells)
            if isb:
                nc = self.masked_store(c, mc, vc)
                ip.mutate_arr(o, nc, "masked store into an array")
                return
        d = ip.densify(c)
        if d is not None:
            r = self.dense_store(d, tup, vc)
            if r is not None:
                ip.mutate_arr(o, r, "store into an array element")
                return
        if isinstance(c, U) and len(tup) == 1 and isinstance(tup[0], SliceV):
            pass
        nodes = [ip.unode(c), ip.unode(vc)] + ip.depnodes([x for x in tup if not isinstance(x, SliceV) and x is not None and x is not Ellipsis])
        ip.mutate_arr(o, U(g.mk("unk", tuple(nodes), "store"), c.shape), "store into an array element")

    def masked_store(self, c, mc, vc):
        ip = self.ip

        def strip(n, m):
            memo = {}

            def go(x):
                if x in memo:
                    return memo[x]
                if x.op == "el:msel" and x.args[1] in m:
                    r = x.args[0]
                elif g.elementwise(x):
                    r = g.rebuild(x, go)
                else:
                    r = x
                memo[x] = r
                return r
            return go(n)

        dm, dc = ip.densify(mc), ip.densify(c)
        if dm is not None and dc is not None and dm.shape == dc.shape and (isinstance(c, D) or isinstance(mc, D)):
            mnode = ip.unode(dm)
            if vc.shape == () or isinstance(vc, U) and vc.shape == ():
                return D(dc.shape, [g.ite(g.truth(m), ip.unode(vc), x) for m, x in zip(dm.cells, dc.cells)])
            vn = strip(ip.unode(vc), (mnode, ip.unode(mc)))
            cells = []
            for k, (m, x) in enumerate(zip(dm.cells, dc.cells)):
                cells.append(g.ite(g.truth(m), g.index(vn, k), x))
            if not any(y.op == "el:msel" for cc in cells for y in g.walk(cc)):
                ds = [ip.decide(g.truth(m)) for m in dm.cells]
                if isinstance(vc, D) and None not in ds and sum(ds) == len(vc.cells):
                    it = iter(vc.cells)
                    return D(dc.shape, [next(it) if t else x for t, x in zip(ds, dc.cells)])
                return D(dc.shape, cells)
            return U(g.mk("unk", (ip.unode(dc), mnode, ip.unode(vc)), "masked store"), dc.shape)
        mnode = ip.unode(mc)
        ms = (mnode,) if dm is None else (mnode, ip.unode(dm))
        part = self.part_store(c, ip.unode(vc), ms, dm, dc)
        if part is not None:
            return part
        vn = strip(ip.unode(vc), ms)
        return U(g.ite(g.truth(mnode), vn, ip.unode(c)), c.shape if c.shape != () else mc.shape)

    def part_store(self, c, vn, ms, dm, dc):
        """Store of a value that is partly given for the selected elements only."""
        ip = self.ip
        if dm is None or dc is None or dm.shape != dc.shape or len(dc.shape) != 1:
            return None
        sel, seen = [], set()
        stack = [vn]
        short = set()
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "el:msel" and x.args[1] in ms:
                sel.append(x)
            elif x.op == "col" and x.data[2] is not None:
                short.add(len(x.data[2]))
            elif x.op == "vec":
                short.add(len(x.args))
            elif g.elementwise(x):
                stack.extend(x.kids())
        if not short or short == {len(dc.cells)}:
            return None
        on = [ip.decide(g.truth(m)) for m in dm.cells]
        if None in on:
            return None
        n = sum(on)
        if short != {n}:
            if n and 1 not in short:
                raise AbsRaise(ExcV("ValueError", ("shape mismatch",)))
            return None
        cells = list(dc.cells)
        for t, k in enumerate([k for k, b in enumerate(on) if b]):
            def at(x):
                if x in sel:
                    return g.index(x.args[0], k)
                if g.elementwise(x):
                    return g.rebuild(x, at)
                return g.index(x, t)
            cells[k] = at(vn)
        return D(dc.shape, cells)

    def bound_node(self, b, n, default):
        """A slice bound of an axis of length n as a node, when its sign is known."""
        if b is None:
            return g.const(default)
        if isinstance(b, bool):
            return None
        if isinstance(b, int):
            return g.const(max(0, b + n) if b < 0 else b)
        if isinstance(b, Num) and g.iv(b.node)[0] >= 0:
            return b.node
        return None

    def dense_store(self, d, tup, vc):
        ip = self.ip
        pr = self.paired(d, tup)
        if pr is not None:
            dv = ip.densify(vc)
            if dv is None:
                return None
            if ip.bshape([dv.shape, pr[0]]) != pr[0]:
                raise AbsRaise(ExcV("ValueError", ("shape mismatch",)))
            cells = list(d.cells)
            for k, v in zip(pr[1], ip.bcells(dv, pr[0])):
                cells[k] = v
            return D(d.shape, cells)
        if sum(isinstance(x, (Arr, ListV)) for x in tup) > 1:
            return None
        axes = []
        ax = 0
        if any(x is Ellipsis for x in tup):
            k = next(k for k, x in enumerate(tup) if x is Ellipsis)
            m = len(d.shape) - len(tup) + 1
            tup = tup[:k] + [SliceV(None, None, None)] * m + tup[k + 1:]
        sym = None
        for x in tup:
            if x is None or ax >= len(d.shape):
                return None
            r = self.index_list(x, d.shape[ax])
            if r is None and isinstance(x, SliceV) and x.step in (None, 1) and len(tup) == 1 and len(d.shape) == 1 and vc.shape == ():
                lo, hi = self.bound_node(x.lo, d.shape[0], 0), self.bound_node(x.hi, d.shape[0], d.shape[0])
                if lo is not None and hi is not None:
                    v = ip.unode(vc)
                    return D(d.shape, [g.ite(g.band(g.le(lo, g.const(k)), g.lt(g.const(k), hi)), v, y)
                                       for k, y in enumerate(d.cells)])
            if r is None:
                return None
            if r[0] == "int":
                if not -d.shape[ax] <= r[1] < d.shape[ax]:
                    raise AbsRaise(ExcV("IndexError", ("index out of bounds",)))
                axes.append([r[1] % d.shape[ax]])
            elif r[0] == "list":
                axes.append([k % d.shape[ax] for k in r[1]])
            elif r[0] == "sym" and len(tup) == 1 and len(d.shape) == 1 and vc.shape == ():
                v = ip.unode(vc)
                return D(d.shape, [g.ite(g.eq(r[1], g.const(k)), v, x) for k, x in enumerate(d.cells)])
            else:
                return None
            ax += 1
        shape = []
        for x in tup:
            pass
        for k, a in enumerate(axes):
            if not (isinstance(tup[k], int) or isinstance(tup[k], Num)):
                shape.append(len(a))
        while ax < len(d.shape):
            axes.append(list(range(d.shape[ax])))
            shape.append(d.shape[ax])
            ax += 1
        strides = []
        acc = 1
        for s in reversed(d.shape):
            strides.insert(0, acc)
            acc *= s
        offs = [0]
        for a, s in zip(axes, strides):
            offs = [o + k * s for o in offs for k in a]
        dv = ip.densify(vc)
        if dv is None:
            return None
        vals = ip.bcells(dv, tuple(shape)) if ip.bshape([dv.shape, tuple(shape)]) == tuple(shape) else None
        if vals is None:
            raise AbsRaise(ExcV("ValueError", ("could not broadcast",)))
        cells = list(d.cells)
        for o, v in zip(offs, vals):
            cells[o] = v
        return D(d.shape, cells)

    def delitem(self, o, i):
        ip = self.ip
        if isinstance(o, DictV):
            self.m_dict_pop(o, [i], {})
        elif isinstance(o, ListV):
            ip.mutate_obj(o.addr, "del list element")
            its = list(ip.items(o))
            if isinstance(i, int):
                del its[i]
            ip.set((o.addr, "i"), tuple(its))
        elif isinstance(o, Inst):
            ip.call(ip.getattr(o, "__delitem__"), [i], {})


def ip_isnum(v):
    return isinstance(v, (bool, int, float))


def israwv(v):
    return v is None or isinstance(v, (bool, int, float, str))


def npinterp(x, xp, fp, left, right):
    if x < xp[0]:
        return fp[0] if left is None else left
    if x > xp[-1]:
        return fp[-1] if right is None else right
    for a, b, c, d in zip(xp, xp[1:], fp, fp[1:]):
        if a <= x <= b:
            return c + (d - c) * (x - a) / (b - a) if b != a else d
    return fp[-1]
