"""Dispatch of calls and attributes that leave the analysed package."""
import poly as V
from poly import P, ZERO, ONE, const, of_atom
import domains as D
from domains import NEG, ZER, POS, ANY
from values import *
import interp as I
import pybuiltins as B
import npnum as N
import nplin as L
from pybuiltins import native_attr, builtin_attr

FLOATC = {"numpy.e": 2.718281828459045, "numpy.inf": float("inf"), "numpy.Inf": float("inf"),
          "numpy.infty": float("inf"), "numpy.nan": float("nan"), "numpy.NaN": float("nan"),
          "numpy.NINF": float("-inf"), "numpy.euler_gamma": 0.5772156649015329}
EXCS = {"numpy.linalg.LinAlgError": "LinAlgError", "numpy.AxisError": "AxisError",
        "numpy.exceptions.AxisError": "AxisError", "importlib.metadata.PackageNotFoundError": "ModuleNotFoundError",
        "dataclasses.FrozenInstanceError": "AttributeError"}
BINUF = {"numpy.add": "Add", "numpy.subtract": "Sub", "numpy.multiply": "Mult", "numpy.divide": "Div",
         "numpy.true_divide": "Div", "numpy.power": "Pow"}


def install(m):
    for n, f in B.BI.items():
        m.builtins[n] = Builtin(n, (lambda f: lambda it, a, k: guarded(m, it, f, a, k))(f))
    for n in I.EXC_BASES if hasattr(I, "EXC_BASES") else EXC_BASES:
        if n not in ("LinAlgError", "AxisError", "Error"):
            m.builtins.setdefault(n, ExcV(n))


def guarded(m, it, f, a, k):
    try:
        return f(m, it, a, k)
    except N.UnkOperand:
        return UnkV("unknown operand")


def ext(m, it, path):
    if path in ("math.pi", "numpy.pi", "scipy.constants.pi"):
        import models
        return scalar(models.pi_atom())
    if path == "math.tau":
        import models
        return scalar(models.pi_atom().scale(2))
    if path in FLOATC:
        return FLOATC[path]
    if path.startswith("math.") and path[5:] in ("e", "inf", "nan"):
        return B.MATHCONST[path[5:]]
    if path == "numpy.newaxis":
        return None
    if path in EXCS:
        return ExcV(EXCS[path])
    if path in ("typing.TYPE_CHECKING",):
        return False
    if path.startswith("builtins."):
        v = m.builtins.get(path[9:])
        if v is not None:
            return v
    if path in ("sys.float_info", "sys.version_info", "sys.argv", "sys.platform", "numpy.__version__"):
        if path == "sys.argv":
            it.event("nondet", what=path)
        return UnkV(path)
    if path.startswith(B.NONDET):
        it.event("nondet", what=path)
    return Ext(path)


def call_ext(m, it, path, args, kw):
    if path.startswith("scipy.spatial.distance") or path.startswith("numpy.ma."):
        raise Undecided("unmodelled function " + path)
    f = N.NP.get(path) or B.STD.get(path)
    if f is not None:
        if any(isinstance(a, UnkV) for a in args) and path.startswith("numpy.linalg"):
            it.event("unknown_operand", func=path)
        return guarded(m, it, f, args, kw)
    if path.startswith(("typing.", "numpy.typing.")):
        return Ext("typing.item")
    if path.startswith("matplotlib.") or path.startswith("mpl_toolkits."):
        return plt_call(m, it, path, args, kw)
    if path.startswith(B.NONDET):
        it.event("nondet", what=path)
        return UnkV(path)
    if path == "numpy.ndarray":
        raise Undecided("ndarray constructor")
    if path.endswith(".accumulate") or path.endswith(".at"):
        raise Undecided("ufunc method " + path)
    it.event("unmodelled", what=path)
    for a in list(args) + list(kw.values()):
        if isinstance(a, Arr) and a.shape != ():
            # an unknown function might write to it; assume NumPy functions do not
            pass
    return UnkV("call of " + path, args)


# ------------------------------------------------------------------ matplotlib
def plt_call(m, it, path, args, kw):
    name = path.split(".")[-1]
    if name in ("subplots",):
        it.event("figure", how=path)
        fig = OpaqueObj("fig", "new figure")
        sk = kw.get("subplot_kw")
        three = isinstance(sk, dict) and sk.get("projection") == "3d"
        return (fig, OpaqueObj("ax3d" if three else "ax2d", "new axes"))
    if name == "figure":
        it.event("figure", how=path)
        return OpaqueObj("fig", "new figure")
    if name in ("axes", "subplot"):
        it.event("pltcall", path=path, args=args, kw=kw)
        return OpaqueObj("ax3d" if kw.get("projection") == "3d" else "ax2d", "new axes")
    if name == "gca":
        it.event("pltcall", path=path, args=args, kw=kw)
        return OpaqueObj("ax", "current axes")
    if name[:1].isupper():
        o = OpaqueObj("artist", name)
        o.attrs["args"] = args
        o.attrs["kw"] = kw
        o.attrs["path"] = path
        return o
    it.event("pltcall", path=path, args=args, kw=kw)
    return OpaqueObj("plt", name)


def opaque_attr(m, it, o, name):
    if name in o.attrs and o.kind in ("optres", "given"):
        return o.attrs[name]
    if o.kind == "dtype":
        known = {"f": ("f", "d", "float64", 8, "<f8", "numpy.float64"), "i": ("i", "l", "int64", 8, "<i8", "numpy.int64"),
                 "b": ("b", "?", "bool", 1, "|b1", "numpy.bool_"), "o": ("O", "O", "object", 8, "|O", "numpy.object_")}.get(o.label)
        names = ("kind", "char", "name", "itemsize", "str", "type")
        if known is None or name not in names:
            return UnkV("dtype." + name)
        x = known[names.index(name)]
        return UnkV("dtype.type") if name == "type" else x
    if o.kind == "optres":
        return UnkV("optimize result ." + name)
    return OpaqueObj("method", o.label + "." + name) if not _owner(o) else _meth(o, name)


def _owner(o):
    return True


def _meth(o, name):
    r = OpaqueObj("method", "%s.%s" % (o.label, name))
    r.attrs["owner"] = o
    r.attrs["name"] = name
    return r


def opaque_call(m, it, o, args, kw):
    if o.kind == "method":
        own = o.attrs["owner"]
        name = o.attrs["name"]
        if own.kind == "fig" and name in ("add_subplot", "gca", "subplots", "add_axes"):
            three = kw.get("projection") == "3d"
            return OpaqueObj("ax3d" if three else "ax2d", "new axes")
        if own.kind in ("ax2d", "ax3d", "ax"):
            it.event("axcall", ax=own, method=name, args=list(args), kw=dict(kw))
            return OpaqueObj("artist", "%s.%s()" % (own.label, name))
        it.event("opcall", obj=own, method=name, args=list(args), kw=dict(kw))
        return OpaqueObj("result", "%s.%s()" % (own.label, name))
    it.event("opcall", obj=o, method="()", args=list(args), kw=dict(kw))
    return OpaqueObj("result", o.label + "()")


# ------------------------------------------------------------------ ndarray attributes
DELEG = {"sum", "mean", "max", "min", "any", "all", "prod", "std", "var", "cumsum", "argmin", "argmax", "argsort",
         "repeat", "take", "clip", "swapaxes", "trace", "round", "dot"}
DIRECT = {"repeat": "numpy.repeat", "take": "numpy.take", "clip": "numpy.clip", "swapaxes": "numpy.swapaxes",
          "trace": "numpy.trace", "round": "numpy.around", "cumsum": "numpy.cumsum", "argsort": "numpy.argsort",
          "dot": "numpy.dot", "sum": "numpy.sum", "mean": "numpy.mean", "max": "numpy.max", "min": "numpy.min",
          "any": "numpy.any", "all": "numpy.all", "prod": "numpy.prod", "std": "numpy.std", "var": "numpy.var",
          "argmin": "numpy.argmin", "argmax": "numpy.argmax", "nonzero": "numpy.nonzero",
          "diagonal": "numpy.diagonal", "conj": "numpy.conj", "conjugate": "numpy.conj",
          "searchsorted": "numpy.searchsorted", "ptp": "numpy.ptp", "compress": "numpy.compress",
          "choose": "numpy.choose", "squeeze": "numpy.squeeze"}
BIN = {"__add__": "Add", "__sub__": "Sub", "__mul__": "Mult", "__truediv__": "Div", "__pow__": "Pow",
       "__floordiv__": "FloorDiv", "__mod__": "Mod", "__matmul__": "MatMult", "__and__": "BitAnd", "__or__": "BitOr",
       "__xor__": "BitXor"}
CMP = {"__eq__": "Eq", "__ne__": "NotEq", "__lt__": "Lt", "__le__": "LtE", "__gt__": "Gt", "__ge__": "GtE"}
UN = {"__neg__": "USub", "__pos__": "UAdd", "__invert__": "Invert"}
INPL = {"__iadd__": "Add", "__isub__": "Sub", "__imul__": "Mult", "__itruediv__": "Div"}


def mth(name, fn):
    return Builtin("ndarray." + name, fn)


def tolist(m, it, a):
    if a.is_scalar():
        return Arr((), [a.c], "py", a.dt)
    if isinstance(a.shape[0], str):
        return USeq(tolist(m, it, Arr(a.shape[1:], list(a.cells), "nd" if a.ndim > 1 else "np", a.dt)), a.shape[0])
    n = a.shape[0]
    k = len(a.cells) // n if n else 0
    return [tolist(m, it, Arr(a.shape[1:], a.cells[i * k:(i + 1) * k], "nd" if a.ndim > 1 else "np", a.dt))
            for i in range(n)]


def arr_attr(m, it, a, name):
    py = a.t == "py"
    if py:
        if name == "real":
            return a
        if name == "imag":
            return 0
        if name == "is_integer" and a.dt == "f":
            def f(it, ar, k):
                c = a.c
                if isinstance(c, P) and c.const() is not None:
                    return c.const().denominator == 1
                return Arr((), [Cond("isint", c)], "py", "b")
            return Builtin("is_integer", f)
        if name in ("conjugate", "__float__", "__trunc__", "__round__", "__abs__", "__int__"):
            fn = {"conjugate": lambda it, x, k: a, "__float__": lambda it, x, k: B.tofloat(m, it, a),
                  "__int__": lambda it, x, k: B.toint(m, it, a), "__trunc__": lambda it, x, k: B.toint(m, it, a),
                  "__round__": lambda it, x, k: B.BI["round"](m, it, [a] + x, k),
                  "__abs__": lambda it, x, k: B.BI["abs"](m, it, [a], {})}[name]
            return Builtin(name, fn)
        if name not in BIN and name not in CMP and name not in UN and name not in ("__class__", "__doc__", "__bool__"):
            raise it.err("AttributeError", "'float' object has no attribute '%s'" % name)
    if name == "shape":
        return tuple(m.shape_val(s) for s in a.shape)
    if name == "ndim":
        return a.ndim
    if name == "size":
        return N.size(m, it, a)
    if name == "T":
        return m.transpose(it, a)
    if name == "dtype":
        o = OpaqueObj("dtype", a.dt)
        return o
    if name == "itemsize":
        return 8
    if name == "base":
        return UnkV("base")
    if name == "flags":
        return OpaqueObj("flags", a.buf.label or "array")
    if name == "real":
        return a
    if name == "imag":
        return Arr(a.shape, [ZERO] * len(a.cells), "nd" if a.shape != () else "np", "f")
    if name == "flat":
        r = N.plain(a)
        return Arr((len(r.cells),), None, "nd", r.dt, r.buf, r.idx) if not r.rows() and r.shape != () else m.flat(it, r)
    if name == "__class__":
        return B.type_of(m, it, a)
    if name == "__dict__":
        if a.attrs is None:
            a.attrs = {}
        return a.attrs
    if name == "__doc__":
        return None
    if name in DIRECT:
        path = DIRECT[name]

        def f(it, ar, k):
            return call_ext(m, it, path, [a] + ar, k)
        return mth(name, f)
    if name == "copy":
        def f(it, ar, k):
            r = N.fresh(a)
            if isinstance(a.t, ClassV):
                m.finalize(it, r, a)
                if a.attrs:
                    r.attrs = r.attrs if r.attrs else dict(a.attrs)
            return r
        return mth(name, f)
    if name in ("flatten", "ravel"):
        def f(it, ar, k):
            r = N.ravel(m, it, a)
            if name == "flatten" or a.rows():
                r = Arr(r.shape, list(r.cells), r.t, r.dt)
            if isinstance(a.t, ClassV):
                r = Arr(r.shape, None, a.t, r.dt, r.buf, r.idx)
                m.finalize(it, r, a)
            return r
        return mth(name, f)
    if name == "reshape":
        def f(it, ar, k):
            return m.reshape(it, a, tuple(ar) if len(ar) != 1 else ar[0])
        return mth(name, f)
    if name == "transpose":
        def f(it, ar, k):
            axes = ar[0] if len(ar) == 1 and isinstance(ar[0], (tuple, list)) else (ar or None)
            return m.transpose(it, a, [x % a.ndim for x in axes] if axes else None)
        return mth(name, f)
    if name == "tolist":
        return mth(name, lambda it, ar, k: tolist(m, it, a))
    if name == "item":
        def f(it, ar, k):
            x = a
            if ar:
                if len(ar) == 1 and isinstance(ar[0], int) and a.ndim > 1:
                    x = N.ravel(m, it, N.plain(a))
                x = m.arr_getitem(it, x, tuple(ar) if len(ar) > 1 else ar[0])
            elif a.rows() or len(a.cells) != 1:
                raise it.err("ValueError", "can only convert an array of size 1 to a Python scalar")
            return Arr((), [x.cells[0]], "py", a.dt)
        return mth(name, f)
    if name == "astype":
        def f(it, ar, k):
            d = ar[0] if ar else k.get("dtype")
            dt = N.dtype_of(it, d)
            r = N.cast(m, it, a, dt, "astype")
            if r is a and k.get("copy", True) is False:
                return a
            r = N.fresh(r, a.t)
            return m.finalize(it, r, a) if isinstance(r.t, ClassV) else r
        return mth(name, f)
    if name == "view":
        def f(it, ar, k):
            t = ar[0] if ar else k.get("type", k.get("dtype"))
            if isinstance(t, ClassV):
                if not t.is_array:
                    raise it.err("TypeError", "Type must be a sub-type of ndarray type")
                b = a
                if b.is_scalar() and b.t != "nd":
                    b = Arr((), list(b.cells), "nd", b.dt)
                return m.view_as(it, b, t)
            if isinstance(t, Ext) and t.path == "numpy.ndarray":
                return N.plain(a) if a.shape != () else a
            if t is None:
                return m.view_as(it, a, a.t)
            raise Undecided("view")
        return mth(name, f)
    if name == "sort":
        return mth(name, lambda it, ar, k: N.sort_inplace(m, it, a, ar[0] if ar else k.get("axis", -1)))
    if name == "fill":
        def f(it, ar, k):
            m.store_all(it, a, N.arr(m, it, ar[0]), "fill")
        return mth(name, f)
    if name in ("resize", "partition", "put", "itemset", "byteswap"):
        def f(it, ar, k):
            if a.buf.frozen:
                it.event("write", label=a.buf.frozen, how="ndarray." + name)
            raise Undecided("ndarray." + name)
        return mth(name, f)
    if name == "setflags":
        return mth(name, lambda it, ar, k: None)
    if name == "is_integer":
        raise it.err("AttributeError", name)
    if name in ("tobytes", "tostring", "data", "ctypes", "strides", "nbytes", "dumps", "__array_interface__"):
        it.event("repr", what=name) if name == "data" else None
        return UnkV("ndarray." + name)
    if name == "__array_wrap__":
        def f(it, ar, k):
            x = ar[0]
            if isinstance(x, Arr) and isinstance(a.t, ClassV):
                return m.view_as(it, x, a.t)
            return x
        return mth(name, f)
    if name == "__array_finalize__":
        return mth(name, lambda it, ar, k: None)
    if name == "__array_priority__":
        return 0.0
    if name == "__getitem__":
        return mth(name, lambda it, ar, k: m.arr_getitem(it, a, ar[0]))
    if name == "__setitem__":
        return mth(name, lambda it, ar, k: m.arr_setitem(it, a, ar[0], ar[1]))
    if name == "__len__":
        return mth(name, lambda it, ar, k: B.BI["len"](m, it, [a], {}))
    if name == "__iter__":
        return mth(name, lambda it, ar, k: it.iterate(a))
    if name == "__contains__":
        return mth(name, lambda it, ar, k: m.contains(it, ar[0], a))
    if name == "__bool__":
        return mth(name, lambda it, ar, k: it.truth(a))
    if name == "__float__":
        return mth(name, lambda it, ar, k: B.tofloat(m, it, a))
    if name == "__int__":
        return mth(name, lambda it, ar, k: B.toint(m, it, a))
    if name == "__abs__":
        return mth(name, lambda it, ar, k: B.BI["abs"](m, it, [a], {}))
    if name in ("__repr__", "__str__"):
        def f(it, ar, k):
            it.event("repr", what="ndarray")
            return UnkV("repr")
        return mth(name, f)
    if name in BIN:
        return mth(name, lambda it, ar, k: m.arith(it, BIN[name], a, ar[0]) if name != "__matmul__" else m.matmul(it, a, ar[0]))
    if name.startswith("__r") and "__" + name[3:] in BIN:
        return mth(name, lambda it, ar, k: m.arith(it, BIN["__" + name[3:]], ar[0], a))
    if name in INPL:
        def f(it, ar, k):
            r = m.arith(it, INPL[name], a, ar[0])
            m.store_all(it, a, r, "in-place operator")
            return a
        return mth(name, f)
    if name in CMP:
        return mth(name, lambda it, ar, k: m.compare(it, CMP[name], a, ar[0]))
    if name in UN:
        return mth(name, lambda it, ar, k: m.unop(it, UN[name], a))
    if name in ("__array_ufunc__", "__array_function__", "__reduce__", "__reduce_ex__", "__array__", "__hash__",
                "__copy__", "__deepcopy__", "__setattr__", "__new__", "__init__", "__sizeof__"):
        raise Undecided("ndarray." + name)
    if a.t == "np" and name in ("is_integer", "as_integer_ratio"):
        return UnkV(name)
    raise it.err("AttributeError", "'numpy.ndarray' object has no attribute '%s'" % name)
