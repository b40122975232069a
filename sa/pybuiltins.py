"""Models of the Python builtins and of the pure-Python standard library."""
import itertools
import math as _math
from fractions import Fraction
import poly as V
from poly import P, ZERO, ONE, const, of_atom
import domains as D
from domains import NEG, ZER, POS, ANY
from values import *
import interp as I
from interp import LazyGen, Iter, SymGen

BI = {}
STD = {}
TYPES = {"int", "float", "bool", "str", "list", "tuple", "dict", "set", "frozenset", "object", "type", "complex",
         "slice", "range", "bytes"}


def bi(name):
    def d(f):
        BI[name] = f
        return f
    return d


def std(*names):
    def d(f):
        for n in names:
            STD[n] = f
        return f
    return d


def need(it, args, lo, hi=None, name="function"):
    if len(args) < lo or (hi is not None and len(args) > hi):
        raise it.err("TypeError", "%s: wrong number of arguments" % name)


def drive(m, it, src):
    """Items of an iterable: list or USeq."""
    return it.iterate(src)


@bi("len")
def _len(m, it, args, kw):
    need(it, args, 1, 1, "len")
    x = args[0]
    if isinstance(x, Arr):
        if x.is_scalar():
            raise it.err("TypeError", "len() of unsized object")
        return m.shape_val(x.shape[0])
    if isinstance(x, USeq):
        return m.shape_val(x.axis)
    if isinstance(x, (list, tuple, dict, str, set, frozenset, range, bytes)):
        return len(x)
    if isinstance(x, Obj):
        f, _ = x.cls.lookup("__len__")
        if f is not None:
            return it.call(I.Bound(f, x), [], {})
        raise it.err("TypeError", "object has no len()")
    if isinstance(x, UnkV):
        return UnkV("len")
    raise it.err("TypeError", "object has no len()")


@bi("range")
def _range(m, it, args, kw):
    need(it, args, 1, 3, "range")
    vals = []
    for a in args:
        k = m.intindex(it, a) if isinstance(a, Arr) else a
        if isinstance(k, float) or isinstance(k, Arr) and k.dt == "f":
            raise it.err("TypeError", "'float' object cannot be interpreted as an integer")
        vals.append(k)
    if all(isinstance(v, int) for v in vals):
        return range(*vals)
    if len(vals) == 1 and isinstance(vals[0], Arr) or len(vals) == 2 and vals[0] == 0 and isinstance(vals[1], Arr):
        d = m.dim(it, vals[-1])
        return USeq(Arr((), [m.iota(d)], "py", "i"), d)
    raise Undecided("range with a symbolic bound")


def fold_sum(m, it, start, items):
    if isinstance(items, USeq):
        e = m.asnum(it, items.elem)
        if e is None:
            return UnkV("sum")
        cells = [D.nsum(m.topoly(it, c), items.axis) for c in e.cells]
        r = Arr(e.shape, cells, e.t if e.is_scalar() else "nd", "i" if e.dt == "b" else e.dt)
        if isinstance(e.t, ClassV) and not e.is_scalar():
            r = m.wrap(it, r, e)
        if start == 0 and isinstance(start, int):
            return r
        return m.binop(it, "Add", start, r)
    acc = start
    for x in items:
        acc = m.binop(it, "Add", acc, x)
    return acc


@bi("sum")
def _sum(m, it, args, kw):
    need(it, args, 1, 2, "sum")
    start = args[1] if len(args) > 1 else kw.get("start", 0)
    if isinstance(args[0], UnkV):
        return UnkV("sum")
    return fold_sum(m, it, start, drive(m, it, args[0]))


@bi("abs")
def _abs(m, it, args, kw):
    need(it, args, 1, 1, "abs")
    x = args[0]
    if isinstance(x, (int, float)):
        return abs(x)
    if isinstance(x, Arr):
        return m.ufunc(it, V.absv, [x], None, True)
    if isinstance(x, UnkV):
        return x
    if isinstance(x, Obj):
        f, _ = x.cls.lookup("__abs__")
        if f is not None:
            return it.call(I.Bound(f, x), [], {})
    raise it.err("TypeError", "bad operand type for abs()")


def minmax(kind):
    def f(m, it, args, kw):
        key = kw.get("key")
        if len(args) == 1:
            if isinstance(args[0], UnkV):
                return UnkV(kind)
            items = drive(m, it, args[0])
        else:
            items = list(args)
        if isinstance(items, USeq):
            if key is not None:
                raise Undecided("keyed extremum of a symbolic sequence")
            e = m.asnum(it, items.elem)
            if e is None or not e.is_scalar():
                raise Undecided("extremum of a symbolic sequence")
            return Arr((), [D.reduce_axis("n" + kind, m.topoly(it, e.c), items.axis)], e.t, e.dt)
        if not items:
            if "default" in kw:
                return kw["default"]
            raise it.err("ValueError", "%s() arg is an empty sequence" % kind)
        if key is None and all(isinstance(x, (int, float)) for x in items):
            return (max if kind == "max" else min)(items)
        if key is None and all(isinstance(x, (int, float)) or isinstance(x, Arr) and x.is_scalar() for x in items):
            arrs = [m.asnum(it, x) for x in items]
            r = m.topoly(it, arrs[0].c)
            for x in arrs[1:]:
                r = m.pmax(it, r, m.topoly(it, x.c), kind)
            return Arr((), [r], "py" if all(x.t == "py" for x in arrs) else "np", promote_(arrs))
        best = items[0]
        kb = it.call(key, [best], {}) if key is not None else best
        for x in items[1:]:
            kx = it.call(key, [x], {}) if key is not None else x
            if it.truth(m.compare(it, "Gt" if kind == "max" else "Lt", kx, kb)):
                best, kb = x, kx
        return best
    return f


def promote_(arrs):
    import models
    return models.promote(*[a.dt for a in arrs])


BI["max"] = minmax("max")
BI["min"] = minmax("min")


def anyall(kind):
    def f(m, it, args, kw):
        need(it, args, 1, 1, kind)
        src = args[0]
        want = kind == "any"

        def sym(items):
            c = it.cond_of(items.elem)
            if any(items.axis in p.rows() for p in c.polys()):
                c = Cond("nany" if want else "nall", c, items.axis)
            return Arr((), [c], "py", "b")
        if isinstance(src, UnkV):
            return UnkV(kind)
        if isinstance(src, LazyGen):
            hit = []

            def feed(v):
                if it.truth(v) == want:
                    hit.append(1)
                    return True
                return False
            try:
                src.stream(feed)
            except SymGen:
                src.done = False
                return sym(src.run_sym())
            return bool(hit) == want if hit else not want
        items = drive(m, it, src)
        if isinstance(items, USeq):
            return sym(items)
        for x in items:
            if it.truth(x) == want:
                return want
        return not want
    return f


BI["any"] = anyall("any")
BI["all"] = anyall("all")


@bi("zip")
def _zip(m, it, args, kw):
    cols = [drive(m, it, a) for a in args]
    us = [c for c in cols if isinstance(c, USeq)]
    if us:
        if len(us) != len(cols) or len({u.axis for u in us}) != 1:
            raise Undecided("zip of sequences of unrelated lengths")
        return USeq(tuple(u.elem for u in us), us[0].axis)
    return Iter([tuple(x) for x in zip(*cols)])


@bi("map")
def _map(m, it, args, kw):
    cols = [drive(m, it, a) for a in args[1:]]
    us = [c for c in cols if isinstance(c, USeq)]
    if us:
        if len(us) != len(cols) or len({u.axis for u in us}) != 1:
            raise Undecided("map over sequences of unrelated lengths")
        return USeq(it.call(args[0], [u.elem for u in us], {}), us[0].axis)
    return Iter([it.call(args[0], list(x), {}) for x in zip(*cols)])


@bi("filter")
def _filter(m, it, args, kw):
    items = drive(m, it, args[1])
    if isinstance(items, USeq):
        raise Undecided("filter of a symbolic sequence")
    return Iter([x for x in items if it.truth(x if args[0] is None else it.call(args[0], [x], {}))])


@bi("enumerate")
def _enumerate(m, it, args, kw):
    items = drive(m, it, args[0])
    start = args[1] if len(args) > 1 else kw.get("start", 0)
    if isinstance(items, USeq):
        i = Arr((), [m.iota(items.axis)], "py", "i")
        return USeq((m.binop(it, "Add", i, start), items.elem), items.axis)
    return Iter([(m.binop(it, "Add", start, i), x) for i, x in enumerate(items)])


def insertion_sort(m, it, items, key=None, rev=False):
    if len(items) > 6:
        raise Undecided("sorting a long sequence")
    out = []
    for x in items:
        kx = it.call(key, [x], {}) if key is not None else x
        i = len(out)
        while i > 0 and it.truth(m.compare(it, "Gt" if rev else "Lt", kx, out[i - 1][1])):
            i -= 1
        out.insert(i, (x, kx))
    return [x for x, _ in out]


def sort_rows(m, it, items, kw):
    """A sequence of rows in the order of their (first) key."""
    if kw.get("reverse", False) is not False:
        raise Undecided("sorting in reverse order")
    k = items.elem if kw.get("key") is None else it.call(kw["key"], [items.elem], {})
    while isinstance(k, (list, tuple)) and k or isinstance(k, Arr) and k.ndim:
        k = k[0] if isinstance(k, (list, tuple)) else Arr((), [k.cells[0]], "py", k.dt)
    if not isinstance(k, Arr):
        raise Undecided("sorting a symbolic sequence")
    import npnum
    by = npnum.order_atom(m, it, m.topoly(it, k.c), items.axis)
    return USeq(m.row_inst(it, items.elem, items.axis, ("perm", by)), items.axis)


@bi("sorted")
def _sorted(m, it, args, kw):
    items = drive(m, it, args[0])
    if isinstance(items, USeq):
        return sort_rows(m, it, items, kw)
    rev = kw.get("reverse", False)
    return insertion_sort(m, it, items, kw.get("key"), bool(rev) if isinstance(rev, (bool, int)) else it.truth(rev))


@bi("reversed")
def _reversed(m, it, args, kw):
    items = drive(m, it, args[0])
    if isinstance(items, USeq):
        return USeq(m.row_inst(it, items.elem, items.axis, ("perm", "rev")), items.axis)
    return Iter(items[::-1])


@bi("iter")
def _iter(m, it, args, kw):
    items = drive(m, it, args[0])
    if isinstance(items, USeq):
        return items
    return Iter(items)


@bi("next")
def _next(m, it, args, kw):
    x = args[0]
    if isinstance(x, LazyGen):
        got = []
        try:
            x.stream(lambda v: (got.append(v), True)[1])
        except SymGen:
            raise Undecided("next of a symbolic generator")
        if got:
            return got[0]
        if len(args) > 1:
            return args[1]
        raise it.err("StopIteration", "")
    if isinstance(x, Iter):
        if x.pos < len(x.items):
            x.pos += 1
            return x.items[x.pos - 1]
        if len(args) > 1:
            return args[1]
        raise it.err("StopIteration", "")
    if isinstance(x, UnkV):
        return UnkV("next")
    raise Undecided("next")


def seqctor(kind):
    def f(m, it, args, kw):
        if not args:
            return [] if kind is list else ()
        x = args[0]
        if isinstance(x, UnkV):
            return UnkV("sequence")
        items = drive(m, it, x)
        if isinstance(items, USeq):
            return USeq(items.elem, items.axis, kind.__name__)
        return kind(items)
    return f


BI["list"] = seqctor(list)
BI["tuple"] = seqctor(tuple)


@bi("set")
def _set(m, it, args, kw):
    if not args:
        return set()
    items = drive(m, it, args[0])
    if isinstance(items, USeq):
        return UnkV("set")
    return it.mkset(items)


BI["frozenset"] = _set


@bi("dict")
def _dict(m, it, args, kw):
    d = {}
    if args:
        x = args[0]
        if isinstance(x, dict):
            d.update(x)
        else:
            for p in drive(m, it, x):
                p = list(p)
                d[p[0]] = p[1]
    d.update(kw)
    return d


def tofloat(m, it, x, t="py"):
    if isinstance(x, str):
        try:
            return float(x)
        except ValueError:
            raise it.err("ValueError", "could not convert string to float")
    if isinstance(x, (bool, int, float)):
        return float(x) if t == "py" else Arr((), [const(x)] if x == x and abs(x) != _math.inf else
                                              m.asnum(it, x).cells, t, "f")
    if isinstance(x, Arr):
        if len(x.cells) == 1 and not x.rows():
            return Arr((), [m.topoly(it, x.cells[0])], t, "f")
        raise it.err("TypeError", "only length-1 arrays can be converted to Python scalars")
    if isinstance(x, UnkV):
        return UnkV("float")
    if isinstance(x, Obj):
        f, _ = x.cls.lookup("__float__")
        if f is not None:
            return it.call(I.Bound(f, x), [], {})
    raise it.err("TypeError", "float() argument must be a string or a number")


@bi("float")
def _float(m, it, args, kw):
    if not args:
        return 0.0
    return tofloat(m, it, args[0])


def toint(m, it, x, t="py"):
    if isinstance(x, (bool, int, float)):
        if isinstance(x, float) and x != int(x):
            it.event("truncate", how="int()")
        return int(x)
    if isinstance(x, str):
        try:
            return int(x)
        except ValueError:
            raise it.err("ValueError", "invalid literal for int()")
    if isinstance(x, Arr):
        if len(x.cells) != 1 or x.rows():
            raise it.err("TypeError", "only length-1 arrays can be converted to Python scalars")
        c = x.cells[0]
        if isinstance(c, Cond):
            return Arr((), [m.topoly(it, c)], t, "i")
        if x.dt in "ib":
            return Arr((), [c], t, "i")
        r = m.trunc(it, c)
        if r != c:
            it.event("truncate", how="int()")
        k = r.const()
        if k is not None and t == "py":
            return int(k)
        return Arr((), [r], t, "i")
    if isinstance(x, UnkV):
        return UnkV("int")
    raise it.err("TypeError", "int() argument must be a string or a number")


@bi("int")
def _int(m, it, args, kw):
    if not args:
        return 0
    return toint(m, it, args[0])


@bi("bool")
def _bool(m, it, args, kw):
    if not args:
        return False
    x = args[0]
    if isinstance(x, (bool, int, float, str, type(None), list, tuple, dict, set)):
        return bool(x)
    if isinstance(x, UnkV):
        return UnkV("bool")
    c = it.cond_of(x)
    if c.kind == "const":
        return c.args[0]
    return Arr((), [c], "py", "b")


@bi("str")
def _str(m, it, args, kw):
    if args and isinstance(args[0], (Obj,)):
        f, _ = args[0].cls.lookup("__repr__")
        if f is not None:
            return it.call(I.Bound(f, args[0]), [], {})
    if args and isinstance(args[0], Arr):
        it.event("repr", value=args[0])
    return text(args[0]) if args else ""


@bi("repr")
def _repr(m, it, args, kw):
    if isinstance(args[0], Obj):
        f, _ = args[0].cls.lookup("__repr__")
        if f is not None:
            return it.call(I.Bound(f, args[0]), [], {})
    return text(args[0], how="repr")


BI["format"] = lambda m, it, args, kw: text(*args)
BI["ascii"] = _repr
BI["chr"] = lambda m, it, args, kw: chr(args[0])
BI["ord"] = lambda m, it, args, kw: ord(args[0]) if isinstance(args[0], str) and len(args[0]) == 1 else UnkV("ord")


@bi("complex")
def _complex(m, it, args, kw):
    raise Undecided("complex numbers")


@bi("object")
def _object(m, it, args, kw):
    raise Undecided("object()")


@bi("slice")
def _slice(m, it, args, kw):
    return slice(*args)


# ------------------------------------------------------------------ types
def type_of(m, it, x):
    if isinstance(x, Obj):
        return x.cls
    if isinstance(x, Arr):
        if isinstance(x.t, ClassV):
            return x.t
        if x.t == "py":
            return m.builtins[{"f": "float", "i": "int", "b": "bool"}.get(x.dt, "float")]
        if x.t == "np":
            return Ext({"f": "numpy.float64", "i": "numpy.int64", "b": "numpy.bool_"}.get(x.dt, "numpy.float64"))
        return Ext("numpy.ndarray")
    for k, n in ((bool, "bool"), (int, "int"), (float, "float"), (str, "str"), (list, "list"), (tuple, "tuple"),
                 (dict, "dict"), (set, "set"), (range, "range"), (frozenset, "frozenset")):
        if isinstance(x, k):
            return m.builtins[n]
    if isinstance(x, USeq):
        return m.builtins[x.kind]
    if isinstance(x, ClassV):
        return m.builtins["type"]
    if x is None:
        return Ext("builtins.NoneType")
    return Ext("builtins." + type(x).__name__)


BASES = {
    "numpy.float64": ("numpy.floating", "numpy.inexact", "numpy.number", "numpy.generic", "float", "numbers.Number",
                      "numbers.Real", "numbers.Complex"),
    "numpy.int64": ("numpy.integer", "numpy.signedinteger", "numpy.number", "numpy.generic", "numbers.Number",
                    "numbers.Real", "numbers.Integral", "numbers.Complex", "numbers.Rational"),
    "numpy.bool_": ("numpy.generic",),
    "float": ("numbers.Number", "numbers.Real", "numbers.Complex"),
    "int": ("numbers.Number", "numbers.Real", "numbers.Integral", "numbers.Complex", "numbers.Rational"),
    "bool": ("int", "numbers.Number", "numbers.Real", "numbers.Integral"),
    "list": ("collections.abc.Sequence", "collections.abc.Iterable", "typing.Sequence", "typing.Iterable",
             "collections.abc.Sized", "collections.abc.Collection", "collections.abc.MutableSequence"),
    "tuple": ("collections.abc.Sequence", "collections.abc.Iterable", "typing.Sequence", "typing.Iterable",
              "collections.abc.Sized", "collections.abc.Collection"),
    "str": ("collections.abc.Sequence", "collections.abc.Iterable", "typing.Sequence"),
    "dict": ("collections.abc.Mapping", "collections.abc.Iterable"),
    "numpy.ndarray": ("collections.abc.Iterable", "collections.abc.Sized", "typing.Iterable"),
}


def tname(t):
    if isinstance(t, Builtin):
        return t.name
    if isinstance(t, Ext):
        p = t.path
        return {"numpy.float_": "numpy.float64", "numpy.double": "numpy.float64", "numpy.bool": "numpy.bool_",
                "numpy.int_": "numpy.int64", "numpy.intp": "numpy.int64"}.get(p, p)
    return None


def is_sub(m, it, t, u):
    """type t is a subtype of u: True / False / None."""
    if isinstance(u, (tuple, list)):
        rs = [is_sub(m, it, t, x) for x in u]
        return True if True in rs else (None if None in rs else False)
    if isinstance(u, Builtin) and u.name == "object":
        return True
    if isinstance(u, UnkV):
        return None
    if isinstance(t, ClassV):
        if isinstance(u, ClassV):
            return t.isa(u)
        n = tname(u)
        if n == "numpy.ndarray":
            return t.is_array
        if t.is_array:
            return n in BASES["numpy.ndarray"]
        if isinstance(u, Ext) and any(isinstance(b, Ext) for b in t.mro):
            return True if u in t.mro else None
        return False
    a, b = tname(t), tname(u)
    if a is None or b is None:
        if isinstance(u, ClassV):
            return False
        if b == "type" and isinstance(t, ClassV):
            return True
        return False
    if a == b or b in BASES.get(a, ()):
        return True
    if b == "typing.item" or b.startswith("typing.Union"):
        return None
    return False


def isinst(m, it, x, u):
    if isinstance(x, UnkV):
        return None
    if isinstance(u, (tuple, list)):
        rs = [isinst(m, it, x, y) for y in u]
        return True if True in rs else (None if None in rs else False)
    if isinstance(x, OpaqueObj):
        n = tname(u)
        if n is None:
            return False
        leaf = n.rsplit(".", 1)[-1]
        if x.kind == "ax3d":
            return leaf in ("Axes3D", "Axes", "_AxesBase", "Artist", "object")
        if x.kind == "ax2d":
            return leaf in ("Axes", "_AxesBase", "Artist", "object", "Subplot", "SubplotBase")
        return None
    if isinstance(x, ExcObj):
        return isinstance(u, ExcV) and exc_isa(x.name, u.name)
    return is_sub(m, it, type_of(m, it, x), u)


@bi("isinstance")
def _isinstance(m, it, args, kw):
    need(it, args, 2, 2, "isinstance")
    r = isinst(m, it, args[0], args[1])
    if r is None:
        return Arr((), [Cond("unk", "isinstance%d" % it.steps)], "py", "b")
    return r


@bi("issubclass")
def _issubclass(m, it, args, kw):
    need(it, args, 2, 2, "issubclass")
    if isinstance(args[0], UnkV):
        return UnkV("issubclass")
    r = is_sub(m, it, args[0], args[1])
    if r is None:
        return Arr((), [Cond("unk", "issubclass%d" % it.steps)], "py", "b")
    return r


@bi("type")
def _type(m, it, args, kw):
    if len(args) == 1:
        if isinstance(args[0], UnkV):
            return UnkV("type")
        return type_of(m, it, args[0])
    raise Undecided("type()")


@bi("getattr")
def _getattr(m, it, args, kw):
    need(it, args, 2, 3, "getattr")
    if not isinstance(args[1], str):
        raise it.err("TypeError", "attribute name must be string") if not isinstance(args[1], UnkV) else Undecided("getattr")
    if len(args) == 3:
        return it.getattr(args[0], args[1], args[2])
    return it.getattr(args[0], args[1])


@bi("hasattr")
def _hasattr(m, it, args, kw):
    o, n = args
    if isinstance(o, UnkV):
        return UnkV("hasattr")
    # do not run methods, only properties
    try:
        it.getattr(o, n)
        return True
    except PyExc as e:
        if e.name == "AttributeError":
            return False
        raise


@bi("setattr")
def _setattr(m, it, args, kw):
    it.setattr(args[0], args[1], args[2])


@bi("delattr")
def _delattr(m, it, args, kw):
    it.setattr(args[0], args[1], None, delete=True)


@bi("callable")
def _callable(m, it, args, kw):
    x = args[0]
    if isinstance(x, UnkV):
        return UnkV("callable")
    if isinstance(x, Obj):
        return x.cls.lookup("__call__")[1] is not None
    return isinstance(x, (FuncV, Bound, Builtin, ClassV, Ext, ExcV))


@bi("print")
def _print(m, it, args, kw):
    it.event("io", what="print")


@bi("input")
def _input(m, it, args, kw):
    it.event("nondet", what="input()")
    return UnkV("input")


@bi("open")
def _open(m, it, args, kw):
    it.event("io", what="open")
    return UnkV("file")


@bi("id")
def _id(m, it, args, kw):
    it.event("nondet", what="id()")
    return Arr((), [it.freshatom("nondet", int=True)], "py", "i")


@bi("hash")
def _hash(m, it, args, kw):
    x = args[0]
    if isinstance(x, (list, dict, set)) or isinstance(x, Arr) and not x.is_scalar():
        raise it.err("TypeError", "unhashable type")
    if isinstance(x, Obj):
        it.event("nondet", what="hash()")
    return Arr((), [it.freshatom("opaque", int=True)], "py", "i")


@bi("vars")
def _vars(m, it, args, kw):
    o = args[0]
    if isinstance(o, Obj):
        return dict(o.attrs)
    return UnkV("vars")


@bi("dir")
def _dir(m, it, args, kw):
    return UnkV("dir")


@bi("globals")
def _globals(m, it, args, kw):
    raise Undecided("globals()")


@bi("super")
def _super(m, it, args, kw):
    if len(args) == 2:
        return SuperV(args[0], args[1])
    raise Undecided("super")


@bi("round")
def _round(m, it, args, kw):
    x = args[0]
    nd = args[1] if len(args) > 1 else kw.get("ndigits")
    if isinstance(x, (int, float)) and (nd is None or isinstance(nd, int)):
        return round(x, nd) if nd is not None else round(x)
    if isinstance(x, UnkV):
        return x
    if isinstance(x, (Obj,)) or isinstance(x, Arr) and not x.is_scalar():
        f = None
        cls = x.cls if isinstance(x, Obj) else x.t
        if isinstance(cls, ClassV):
            f, _ = cls.lookup("__round__")
        if f is not None:
            return it.call(I.Bound(f, x), args[1:], {})
        raise it.err("TypeError", "type doesn't define __round__ method")
    a = m.asnum(it, x)
    return rnd(m, it, a, nd, integer=nd is None)


def rnd(m, it, a, nd, integer=False):
    n = m.asnum(it, nd if nd is not None else 0)
    if n is None:
        return UnkV("round")
    if not n.is_scalar():
        raise it.err("TypeError", "decimals must be an integer")
    if n.dt == "f":
        raise it.err("TypeError", "'float' object cannot be interpreted as an integer")
    q = m.topoly(it, n.c)
    it.event("round", value=a, digits=q)

    def f(c):
        if c.const() is not None and q.const() is not None:
            return const(round(c.const(), int(q.const())))
        if (a.dt in "ib" or V.whole(c)) and q.const() is not None and q.const() >= 0:
            return c
        at = V.T.get("round", (c, q))
        if at.info is None:
            at.info = {}
        return of_atom(at)
    return m.ufunc(it, f, [a], "i" if integer else a.dt, a.t == "py")


@bi("pow")
def _pow(m, it, args, kw):
    return m.binop(it, "Pow", args[0], args[1])


@bi("divmod")
def _divmod(m, it, args, kw):
    return (m.binop(it, "FloorDiv", args[0], args[1]), m.binop(it, "Mod", args[0], args[1]))


@bi("property")
def _property(m, it, args, kw):
    return Wrapped("property", args[0] if args else kw.get("fget"), args[1] if len(args) > 1 else kw.get("fset"))


@bi("classmethod")
def _classmethod(m, it, args, kw):
    return Wrapped("classmethod", args[0])


@bi("staticmethod")
def _staticmethod(m, it, args, kw):
    return Wrapped("staticmethod", args[0])


# ------------------------------------------------------------------ stdlib
def ident_decorator(m, it, args, kw):
    return Builtin("decorator", lambda it, a, k: a[0])


@std("functools.wraps")
def _wraps(m, it, args, kw):
    src = args[0] if args else None

    def deco(it, a, k):
        if isinstance(a[0], FuncV):
            a[0].attrs.setdefault("__wrapped__", src)
        return a[0]
    return Builtin("wraps", deco)


@std("functools.lru_cache", "functools.cache")
def _lru(m, it, args, kw):
    if args and isinstance(args[0], (FuncV, Bound, Builtin, Wrapped, ClassV)):
        return Wrapped("cached", args[0])
    return Builtin("lru_cache", lambda it, a, k: Wrapped("cached", a[0]))


@std("functools.cached_property")
def _cprop(m, it, args, kw):
    return Wrapped("cached_property", args[0])


@std("functools.partial")
def _partial(m, it, args, kw):
    f, pre = args[0], args[1:]
    b = Builtin("partial", lambda it, a, k: it.call(f, list(pre) + a, {**kw, **k}))
    return b


@std("functools.reduce")
def _freduce(m, it, args, kw):
    items = drive(m, it, args[1])
    if isinstance(items, USeq):
        raise Undecided("reduce over a symbolic sequence")
    if len(args) > 2:
        acc = args[2]
    else:
        if not items:
            raise it.err("TypeError", "reduce() of empty iterable")
        acc, items = items[0], items[1:]
    for x in items:
        acc = it.call(args[0], [acc, x], {})
    return acc


@std("functools.total_ordering", "functools.singledispatch", "abc.abstractmethod", "typing.overload", "typing.final",
     "typing.no_type_check", "typing.runtime_checkable", "typing_extensions.override", "typing.override")
def _idd(m, it, args, kw):
    return args[0]


@std("contextlib.suppress", "contextlib.nullcontext")
def _ctx(m, it, args, kw):
    raise Undecided("context manager")


@std("itertools.combinations")
def _comb(m, it, args, kw):
    items = drive(m, it, args[0])
    r = args[1] if len(args) > 1 else kw.get("r")
    if isinstance(items, USeq) or not isinstance(r, int):
        raise Undecided("combinations")
    return Iter(list(itertools.combinations(items, r)))


@std("itertools.permutations")
def _perm(m, it, args, kw):
    items = drive(m, it, args[0])
    r = args[1] if len(args) > 1 else None
    if isinstance(items, USeq):
        raise Undecided("permutations")
    return Iter(list(itertools.permutations(items, r)))


@std("itertools.product")
def _product(m, it, args, kw):
    cols = [drive(m, it, a) for a in args]
    if any(isinstance(c, USeq) for c in cols):
        raise Undecided("product")
    return Iter(list(itertools.product(*cols, repeat=kw.get("repeat", 1))))


@std("itertools.chain")
def _chain(m, it, args, kw):
    out = []
    for a in args:
        x = drive(m, it, a)
        if isinstance(x, USeq):
            raise Undecided("chain")
        out.extend(x)
    return Iter(out)


@std("itertools.chain.from_iterable")
def _chainf(m, it, args, kw):
    return _chain(m, it, drive(m, it, args[0]), {})


@std("itertools.starmap")
def _starmap(m, it, args, kw):
    items = drive(m, it, args[1])
    if isinstance(items, USeq):
        raise Undecided("starmap")
    return Iter([it.call(args[0], list(x), {}) for x in items])


@std("itertools.islice")
def _islice(m, it, args, kw):
    items = drive(m, it, args[0])
    if isinstance(items, USeq):
        raise Undecided("islice")
    return Iter(list(itertools.islice(items, *args[1:])))


@std("itertools.repeat")
def _repeat(m, it, args, kw):
    if len(args) < 2:
        raise Undecided("repeat")
    return Iter([args[0]] * args[1])


@std("itertools.pairwise")
def _pairwise(m, it, args, kw):
    items = drive(m, it, args[0])
    if isinstance(items, USeq):
        raise Undecided("pairwise")
    return Iter(list(zip(items, items[1:])))


@std("operator.attrgetter")
def _attrgetter(m, it, args, kw):
    return Builtin("attrgetter", lambda it, a, k: it.getattr(a[0], args[0]))


@std("operator.itemgetter")
def _itemgetter(m, it, args, kw):
    return Builtin("itemgetter", lambda it, a, k: it.getitem(a[0], args[0]))


for _n, _o in (("add", "Add"), ("sub", "Sub"), ("mul", "Mult"), ("truediv", "Div"), ("pow", "Pow"),
               ("matmul", "MatMult"), ("and_", "BitAnd"), ("or_", "BitOr")):
    STD["operator." + _n] = (lambda o: lambda m, it, args, kw: m.binop(it, o, args[0], args[1]))(_o)
for _n, _o in (("lt", "Lt"), ("le", "LtE"), ("gt", "Gt"), ("ge", "GtE"), ("eq", "Eq"), ("ne", "NotEq")):
    STD["operator." + _n] = (lambda o: lambda m, it, args, kw: m.compare(it, o, args[0], args[1]))(_o)
STD["operator.neg"] = lambda m, it, args, kw: m.unop(it, "USub", args[0])
STD["operator.methodcaller"] = lambda m, it, args, kw: Builtin(
    "methodcaller", lambda it, a, k: it.call(it.getattr(a[0], args[0]), args[1:], kw))


@std("typing.cast")
def _cast(m, it, args, kw):
    return args[1]


@std("typing.TypeVar", "typing.NewType", "typing.ParamSpec", "typing.NamedTuple")
def _tv(m, it, args, kw):
    return Ext("typing.item")


@std("inspect.getfullargspec", "inspect.signature")
def _argspec(m, it, args, kw):
    f = args[0]
    skip = False
    if isinstance(f, ClassV):
        g, _ = f.lookup("__init__")
        if not isinstance(g, FuncV):
            g, _ = f.lookup("__new__")
            g = g.func if isinstance(g, Wrapped) else g
        f = g
    if isinstance(f, Bound):
        f = f.func
    if not isinstance(f, FuncV):
        raise Undecided("getfullargspec")
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    o = OpaqueObj("argspec", "argspec")
    o.attrs = {"args": names, "varargs": a.vararg.arg if a.vararg else None,
               "varkw": a.kwarg.arg if a.kwarg else None, "kwonlyargs": [x.arg for x in a.kwonlyargs],
               "parameters": {n: UnkV("parameter") for n in names + ([a.kwarg.arg] if a.kwarg else [])}}
    return o


@std("dataclasses.dataclass")
def _dataclass(m, it, args, kw):
    def deco(it, a, k):
        c = a[0]
        if not isinstance(c, ClassV):
            raise Undecided("dataclass")
        fields = []
        for b in reversed(c.mro):
            if isinstance(b, ClassV):
                for n in b.ns.get("__annotations__", {}):
                    if n not in fields:
                        fields.append(n)
        c.dataclass = fields
        return c
    if args:
        return deco(it, args, {})
    return Builtin("dataclass", deco)


@std("dataclasses.field")
def _field(m, it, args, kw):
    if "default" in kw:
        return kw["default"]
    raise Undecided("dataclass field")


@std("dataclasses.replace", "copy.copy", "copy.deepcopy")
def _copy(m, it, args, kw):
    x = args[0]
    return deep(m, it, x, {})


def deep(m, it, x, memo):
    if id(x) in memo:
        return memo[id(x)]
    if isinstance(x, Arr):
        if x.is_scalar():
            return x
        r = Arr(x.shape, x.cells, x.t, x.dt)
        r.attrs = dict(x.attrs) if x.attrs else x.attrs
    elif isinstance(x, Obj):
        r = Obj(x.cls)
        memo[id(x)] = r
        r.attrs = {k: deep(m, it, v, memo) for k, v in x.attrs.items()}
    elif isinstance(x, list):
        r = [deep(m, it, v, memo) for v in x]
    elif isinstance(x, tuple):
        r = tuple(deep(m, it, v, memo) for v in x)
    elif isinstance(x, dict):
        r = {k: deep(m, it, v, memo) for k, v in x.items()}
    else:
        r = x
    memo[id(x)] = r
    return r


@std("importlib.metadata.version")
def _version(m, it, args, kw):
    return "0"


@std("importlib.import_module")
def _import_module(m, it, args, kw):
    n = args[0]
    it.event("import", name=n)
    if isinstance(n, str) and n.split(".")[0] == it.program.package:
        return it.module(n)
    it.check_blocked(n)
    return Ext(n)


BI["__import__"] = _import_module


@std("importlib.util.find_spec")
def _find_spec(m, it, args, kw):
    n = args[0]
    if isinstance(n, str) and n.split(".")[0] in it.blocked:
        return None
    return UnkV("spec")


@std("warnings.warn", "logging.warning", "logging.info", "logging.debug", "logging.error")
def _warn(m, it, args, kw):
    it.event("io", what="warning")


NONDET = ("random.", "numpy.random.", "time.", "uuid.", "secrets.", "os.urandom", "os.environ", "os.getenv",
          "datetime.", "os.getpid", "threading.get_ident")

# ------------------------------------------------------------------ math


def m1(m, it, x, name):
    """Scalar argument of a math function."""
    if isinstance(x, (str, list, tuple, dict, Obj)) or x is None:
        raise it.err("TypeError", "must be real number")
    if isinstance(x, USeq):
        raise it.err("TypeError", "must be real number")
    a = m.asnum(it, x)
    if a is None:
        return None
    if len(a.cells) != 1 or a.rows():
        raise it.err("TypeError", "only length-1 arrays can be converted to Python scalars")
    return m.topoly(it, a.cells[0])


def mathfn(name, np_name=None):
    def d(f):
        def g(m, it, args, kw):
            if kw:
                raise it.err("TypeError", "%s() takes no keyword arguments" % name)
            ps = [m1(m, it, x, name) for x in args]
            if any(p is None for p in ps):
                return UnkV(name)
            r = f(m, it, *ps)
            return Arr((), [r], "py", "f") if isinstance(r, P) else r
        STD["math." + name] = g
        return f
    return d


@mathfn("sqrt")
def _msqrt(m, it, p):
    m.sqrtcheck(it, p, "math.sqrt")
    return V.sqrt(p)


@mathfn("fabs")
def _mfabs(m, it, p):
    return V.absv(p)


@mathfn("pow")
def _mpow(m, it, p, q):
    r = m.power(it, Arr((), [p]), Arr((), [q]))
    return r.c


def arcdom(m, it, p, how):
    lo, hi = it.facts.bounds(p)
    it.event("acos", arg=p, lo=lo, hi=hi, how=how)


@mathfn("acos")
def _macos(m, it, p):
    arcdom(m, it, p, "math.acos")
    return trig("acos", p)


@mathfn("asin")
def _masin(m, it, p):
    arcdom(m, it, p, "math.asin")
    return trig("asin", p)


def pi_multiple(p):
    """k if p == k*pi, else None."""
    if not p.t:
        return Fraction(0)
    if len(p.t) == 1:
        (mm, c), = p.t.items()
        if len(mm) == 1 and mm[0][1] == 1 and V.T.atoms[mm[0][0]].kind == "pi":
            return c
    return None


def trig(name, p):
    k = pi_multiple(p)
    if k is not None and name in ("sin", "cos", "tan"):
        if name == "tan":
            if k.denominator == 1:
                return ZERO
        else:
            k2 = k * 2
            if k2.denominator == 1:
                n = int(k2) % 4
                return const([0, 1, 0, -1][n] if name == "sin" else [1, 0, -1, 0][n])
    if not p.t:
        import models
        return {"atan": ZERO, "asin": ZERO, "acos": models.pi_atom().scale(Fraction(1, 2)), "exp": ONE}.get(
            name, V.func(name, p))
    c = p.const()
    if c == 1:
        import models
        if name == "acos" or name == "log":
            return ZERO
        if name == "asin":
            return models.pi_atom().scale(Fraction(1, 2))
        if name == "atan":
            return models.pi_atom().scale(Fraction(1, 4))
    if c == -1 and name == "acos":
        import models
        return models.pi_atom()
    # canonical sign for odd/even functions
    if p.t and p.t[max(p.t)] < 0:
        if name in ("sin", "tan", "asin", "atan"):
            return -V.func(name, -p)
        if name == "cos":
            return V.func(name, -p)
    return V.func(name, p)


for _n in ("sin", "cos", "tan", "atan", "exp"):
    mathfn(_n)((lambda n: lambda m, it, p: trig(n, p))(_n))


@mathfn("log")
def _mlog(m, it, p, *b):
    it.event("log", arg=p, signs=it.facts.signs(p))
    return V.func("log", p)


@mathfn("atan2")
def _matan2(m, it, y, x):
    return atan2(it, y, x)


def atan2(it, y, x):
    if not y.t and it.facts.signs(x) == POS:
        return ZERO
    return V.func("atan2", y, x)


@std("math.hypot")
def _hypot(m, it, args, kw):
    ps = [m1(m, it, x, "hypot") for x in args]
    if any(p is None for p in ps):
        return UnkV("hypot")
    s = ZERO
    for p in ps:
        s = s + p * p
    return Arr((), [V.sqrt(s)], "py", "f")


@std("math.dist")
def _dist(m, it, args, kw):
    a, b = m.asnum(it, args[0]), m.asnum(it, args[1])
    if a is None or b is None:
        return UnkV("dist")
    if a.shape != b.shape:
        raise it.err("ValueError", "both points must have the same number of dimensions")
    s = ZERO
    for p, q in zip(m.pcells(it, a), m.pcells(it, b)):
        s = s + (p - q) * (p - q)
    return Arr((), [V.sqrt(s)], "py", "f")


@std("math.fsum", "math.prod")
def _fsum(m, it, args, kw):
    return fold_sum(m, it, 0, drive(m, it, args[0]))


@mathfn("radians")
def _rad(m, it, p):
    import models
    return p * models.pi_atom().scale(Fraction(1, 180))


@mathfn("degrees")
def _deg(m, it, p):
    import models
    return V.div(p.scale(180), models.pi_atom())


@mathfn("copysign")
def _copysign(m, it, x, y):
    s = it.facts.signs(y)
    if s == POS:
        return V.absv(x)
    if s == NEG:
        return -V.absv(x)
    # copysign(x, 0.0) is +|x|
    if it.decide(it.cmpc(">=", y)):
        return V.absv(x)
    return -V.absv(x)


def intfn(name, rnd_):
    @mathfn(name)
    def f(m, it, p):
        c = p.const()
        if c is not None:
            return int(rnd_(c))
        at = p.single()
        if at is not None and (at.info or {}).get("int"):
            return p
        it.event("floor", value=p)
        a = V.T.get(name, (p,))
        a.info = a.info or {"int": True}
        return Arr((), [of_atom(a)], "py", "i")


intfn("floor", _math.floor)
intfn("ceil", _math.ceil)
intfn("trunc", _math.trunc)


def boolfn(name):
    @mathfn(name)
    def f(m, it, p):
        if name == "isfinite":
            c = TRUE if not it.facts.maybe_nan(p) else Cond("finite", p)
        elif name == "isnan":
            c = FALSE if not it.facts.maybe_nan(p) else Cond("isnan", p)
        else:
            c = FALSE if not it.facts.maybe_nan(p) else Cond("isinf", p)
        if c.kind == "const":
            return c.args[0]
        return Arr((), [c], "py", "b")


for _n in ("isfinite", "isnan", "isinf"):
    boolfn(_n)


@std("math.isclose")
def _isclose(m, it, args, kw):
    kw = dict(kw)
    for i, n in enumerate(("a", "b")):
        if n in kw:
            args.insert(i, kw.pop(n))
    need(it, args, 2, 2, "isclose")
    rel = kw.pop("rel_tol", 1e-9)
    ab = kw.pop("abs_tol", 0.0)
    if kw:
        raise it.err("TypeError", "isclose() got an unexpected keyword argument %s" % sorted(kw))
    ps = [m1(m, it, x, "isclose") for x in (args[0], args[1], rel, ab)]
    if any(p is None for p in ps):
        it.event("isclose", a=None, b=None, rel=ps[2], abs=ps[3], how="math")
        return UnkV("isclose")
    for q in ps[2:]:
        if q.const() is not None and q.const() < 0:
            raise it.err("ValueError", "tolerances must be non-negative")
    it.event("isclose", a=ps[0], b=ps[1], rel=ps[2], abs=ps[3], how="math")
    c = mkclose(*ps)
    k = it.known(c)
    if k is not None:
        return k
    return Arr((), [c], "py", "b")


MATHCONST = {"pi": None, "e": _math.e, "inf": _math.inf, "nan": _math.nan, "tau": None}


# ------------------------------------------------------------------ methods of native values
def native_attr(m, it, o, name):
    if isinstance(o, list):
        return list_attr(m, it, o, name)
    if isinstance(o, tuple):
        if name == "index":
            return Builtin("tuple.index", lambda it, a, k: _index(m, it, o, a[0]))
        if name == "count":
            return Builtin("tuple.count", lambda it, a, k: sum(1 for x in o if it.truth(m.compare(it, "Eq", x, a[0]))))
    if isinstance(o, dict):
        return dict_attr(m, it, o, name)
    if isinstance(o, str):
        return str_attr(m, it, o, name)
    if isinstance(o, (set, frozenset)):
        def f(it, a, k):
            it.mutate_native(o, name) if name in ("add", "discard", "remove", "update", "clear", "pop") else None
            try:
                return getattr(o, name)(*a)
            except (TypeError, KeyError) as e:
                raise it.err(type(e).__name__, str(e))
        if hasattr(o, name):
            return Builtin("set." + name, f)
    if isinstance(o, (bool, int, float)):
        if name == "real":
            return o
        if name == "imag":
            return 0
        if name in ("is_integer", "bit_length", "conjugate"):
            return Builtin(name, lambda it, a, k: getattr(o, name)())
        if name in ("item",):
            raise it.err("AttributeError", "'%s' object has no attribute '%s'" % (type(o).__name__, name))
    if isinstance(o, (LazyGen, Iter)) and name == "__next__":
        return Builtin("__next__", lambda it, a, k: _next(m, it, [o], {}))
    if isinstance(o, USeq):
        if name in ("append", "extend", "insert", "pop", "sort", "reverse"):
            raise Undecided("mutation of a symbolic sequence")
    if name == "__class__":
        return type_of(m, it, o)
    if name == "__doc__":
        return None
    if name == "__len__":
        return Builtin("__len__", lambda it, a, k: BI["len"](m, it, [o], {}))
    raise it.err("AttributeError", "'%s' object has no attribute '%s'" % (type(o).__name__, name))


def _index(m, it, o, v):
    for i, x in enumerate(o):
        if x is v or it.truth(m.compare(it, "Eq", x, v)):
            return i
    raise it.err("ValueError", "not in list")


def list_attr(m, it, o, name):
    def f(it, a, k):
        if name == "index":
            return _index(m, it, o, a[0])
        if name == "count":
            return sum(1 for x in o if it.truth(m.compare(it, "Eq", x, a[0])))
        if name == "copy":
            return list(o)
        it.mutate_native(o, "list." + name)
        if name == "append":
            o.append(a[0])
        elif name == "extend":
            items = it.iterate(a[0])
            if isinstance(items, USeq):
                raise Undecided("extend by a symbolic sequence")
            o.extend(items)
        elif name == "insert":
            o.insert(a[0], a[1])
        elif name == "pop":
            try:
                return o.pop(*a)
            except IndexError:
                raise it.err("IndexError", "pop from empty list")
        elif name == "clear":
            o.clear()
        elif name == "reverse":
            o.reverse()
        elif name == "remove":
            o.pop(_index(m, it, o, a[0]))
        elif name == "sort":
            o[:] = insertion_sort(m, it, list(o), k.get("key"), bool(k.get("reverse", False)))
        elif name == "__setitem__":
            it.setitem(o, a[0], a[1])
        elif name == "__getitem__":
            return it.getitem(o, a[0])
        else:
            raise Undecided("list." + name)
    if hasattr(o, name):
        return Builtin("list." + name, f)
    raise it.err("AttributeError", "'list' object has no attribute '%s'" % name)


def dict_attr(m, it, o, name):
    def f(it, a, k):
        if name == "get":
            try:
                return o[a[0]] if a[0] in o else (a[1] if len(a) > 1 else None)
            except TypeError:
                return UnkV("dict.get")
        if name == "items":
            return [(x, y) for x, y in o.items()]
        if name == "keys":
            return list(o)
        if name == "values":
            return list(o.values())
        if name == "copy":
            return dict(o)
        it.mutate_native(o, "dict." + name)
        try:
            if name == "update":
                for x in a:
                    if isinstance(x, dict):
                        o.update(x)
                    else:
                        raise Undecided("dict.update")
                o.update(k)
                return None
            if name == "setdefault":
                return o.setdefault(*a)
            if name == "pop":
                if a[0] in o:
                    return o.pop(a[0])
                if len(a) > 1:
                    return a[1]
                raise it.err("KeyError", str(a[0]))
            if name == "clear":
                return o.clear()
        except TypeError:
            raise Undecided("dict key")
        raise Undecided("dict." + name)
    if hasattr(o, name):
        return Builtin("dict." + name, f)
    raise it.err("AttributeError", "'dict' object has no attribute '%s'" % name)


def str_attr(m, it, o, name):
    def f(it, a, k):
        if name == "join":
            items = it.iterate(a[0])
            if isinstance(items, USeq):
                return UStr("{}")
            known = not isinstance(o, UStr) and all(isinstance(x, str) and not isinstance(x, UStr) for x in items)
            return (str if known else UStr)(o.join(x if isinstance(x, str) else "{}" for x in items))
        if name == "format":
            try:
                parts = [text(x) for x in a], {x: text(y) for x, y in k.items()}
                known = not isinstance(o, UStr) and not any(isinstance(x, UStr) for x in list(parts[1].values()) + parts[0])
                return (str if known else UStr)(str(o).format(*parts[0], **parts[1]))
            except (ValueError, IndexError, KeyError):
                return UStr(o)
        if all(isinstance(x, (str, int, tuple)) for x in a):
            try:
                r = getattr(o, name)(*a, **k)
            except (ValueError, IndexError, TypeError) as e:
                raise it.err(type(e).__name__, str(e))
            return r
        return "{}"
    if hasattr(o, name):
        return Builtin("str." + name, f)
    raise it.err("AttributeError", "'str' object has no attribute '%s'" % name)


def builtin_attr(m, it, o, name):
    if o.name == "object" and name == "__new__":
        return Builtin("object.__new__", lambda it, a, k: it.raw_new(a))
    if o.name == "object" and name == "__setattr__":
        return Builtin("object.__setattr__", lambda it, a, k: it.raw_setattr(a[0], a[1], a[2]))
    if o.name == "object" and name == "__init__":
        return Builtin("object.__init__", lambda it, a, k: None)
    if o.name == "dict" and name == "fromkeys":
        return Builtin("dict.fromkeys", lambda it, a, k: {x: (a[1] if len(a) > 1 else None) for x in it.iterate(a[0])})
    if o.name in ("list", "dict", "str", "set") and hasattr({"list": list, "dict": dict, "str": str, "set": set}[o.name], name):
        return Builtin(o.name + "." + name, lambda it, a, k: it.call(native_attr(m, it, a[0], name), a[1:], k))
    if name in ("__wrapped__", "__dict__", "__self__"):
        raise it.err("AttributeError", name)
    if name in ("__doc__", "__module__"):
        return None
    if o.name == "vectorize" and name == "pyfunc":
        return UnkV("pyfunc")
    return UnkV("attribute of builtin " + o.name)
