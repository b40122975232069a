"""Models of NumPy: creation, element-wise functions, reductions, shapes."""
import itertools
import math as _math
from fractions import Fraction
import poly as V
from poly import P, ZERO, ONE, const, of_atom
import domains as D
from domains import NEG, ZER, POS, ANY
from values import *
import interp as I
from interp import LazyGen, Iter
import pybuiltins as B

NP = {}


class UnkOperand(Exception):
    pass


def np_(*names):
    def d(f):
        for n in names:
            NP[n] = f
        return f
    return d


def arr(m, it, v):
    if isinstance(v, (LazyGen, Iter)):
        v = it.iterate(v)
    a = m.asnum(it, v)
    if a is None:
        raise UnkOperand()
    return a


def sig(it, names, args_, kw_, **defaults):
    """Bind arguments to names; leftovers must be known defaults."""
    out = dict(defaults)
    if len(args_) > len(names):
        raise it.err("TypeError", "too many positional arguments")
    for n, v in zip(names, args_):
        out[n] = v
    for k, v in kw_.items():
        if k in names[:len(args_)]:
            raise it.err("TypeError", "multiple values for argument '%s'" % k)
        if k not in names:
            raise it.err("TypeError", "unexpected keyword argument '%s'" % k)
        out[k] = v
    return out


def plain(a):
    """As a base-class array (np.asarray)."""
    if isinstance(a.t, ClassV) or a.t == "py":
        r = Arr(a.shape, None, "nd" if a.shape != () else "np", a.dt, a.buf, a.idx)
        r.meta = a.meta
        return r
    return a


NARROW_FLOAT = ("float32", "float16", "f", "f4", "f2", "e", "single", "half")
NARROW_INT = ("int32", "int16", "int8", "uint8", "uint16", "uint32", "i", "i4", "i2", "i1", "u4", "u2", "u1", "intc", "short", "byte", "b",
              "uint", "uint64", "u8")


def narrowing(it, cells, n):
    """The operands' values are squeezed into a smaller type."""
    if any(V.T.atoms[i].kind == "in" for c in cells if isinstance(c, V.P) for i in c.atoms()):
        it.event("lowprec", dtype=n)


def dtype_of(it, d):
    """'f' / 'i' / 'b' / 'o' or None."""
    if d is None:
        return None
    n = d if isinstance(d, str) else B.tname(d)
    if n is None:
        if isinstance(d, OpaqueObj) and d.kind == "dtype":
            return d.label
        raise Undecided("dtype")
    n = n.replace("numpy.", "").lstrip("<>=|")
    it.narrow = None
    if n in ("float", "float64", "float_", "double", "f8", "d", "floating", "longdouble") + NARROW_FLOAT:
        if n in NARROW_FLOAT:
            it.event("lowprec", dtype=n)
        return "f"
    if n in ("int", "int64", "int_", "intp", "i8", "integer", "l", "q", "long", "longlong") + NARROW_INT:
        if n in NARROW_INT:
            it.narrow = n
        return "i"
    if n in ("bool", "bool_", "?"):
        return "b"
    if n in ("object", "object_", "O"):
        return "o"
    raise Undecided("dtype " + str(n))


def cast(m, it, a, dt, how):
    n, it.narrow = getattr(it, "narrow", None), None
    if n and dt == "i":
        narrowing(it, a.cells, n)
    if dt is None or dt == a.dt:
        return a
    if dt == "o":
        return Arr(a.shape, a.cells, a.t, "o")
    if dt == "b":
        return Arr(a.shape, [m.tocond(it, c) for c in a.cells], a.t, "b")
    if a.dt == "f" and dt == "i":
        cells = []
        for c in m.pcells(it, a):
            r = m.trunc(it, c)
            if r != c:
                it.event("truncate", how=how)
            cells.append(r)
        return Arr(a.shape, cells, a.t, "i")
    return Arr(a.shape, m.pcells(it, a), a.t, dt)


def fresh(a, t=None):
    return Arr(a.shape, list(a.cells), a.t if t is None else t, a.dt)


# ------------------------------------------------------------------ creation
@np_("numpy.array")
def _array(m, it, args, kw):
    o = sig(it, ["object", "dtype"], args, {k: v for k, v in kw.items() if k in ("object", "dtype")}, dtype=None)
    a = arr(m, it, o["object"])
    dt = dtype_of(it, o["dtype"])
    copy = kw.get("copy", True)
    subok = kw.get("subok", False)
    ndmin = kw.get("ndmin", 0)
    src = o["object"]
    r = cast(m, it, a, dt, "dtype conversion")
    if r is a and copy is not True and copy != 1 and isinstance(src, Arr):
        r = a if subok else plain(a)
    else:
        cells = list(r.cells)
        if any(isinstance(c, Cond) for c in cells) and r.dt != "b":
            cells = [m.topoly(it, c) for c in cells]
        t = "np" if a.shape == () else "nd"
        if subok is True and isinstance(a.t, ClassV):
            t = a.t
        meta = r.meta
        r = Arr(r.shape, cells, t, r.dt)
        r.meta = meta
        if isinstance(t, ClassV):
            m.finalize(it, r, a)
    while isinstance(ndmin, int) and r.ndim < ndmin:
        r = Arr((1,) + r.shape, None, "nd", r.dt, r.buf, r.idx)
    return r


@np_("numpy.asarray", "numpy.ascontiguousarray", "numpy.asfarray", "numpy.asarray_chkfinite")
def _asarray(m, it, args, kw):
    o = sig(it, ["a", "dtype", "order"], args, kw, dtype=None, order=None)
    src = o["a"]
    a = arr(m, it, src)
    dt = dtype_of(it, o["dtype"])
    r = cast(m, it, a, dt, "dtype conversion")
    if isinstance(src, Arr) and r is a:
        return plain(a)
    return Arr(r.shape, list(r.cells), "np" if r.shape == () else "nd", r.dt)


@np_("numpy.asanyarray", "numpy.require")
def _asany(m, it, args, kw):
    src = args[0]
    a = arr(m, it, src)
    if "dtype" in kw:
        a = cast(m, it, a, dtype_of(it, kw["dtype"]), "dtype conversion")
    return a


@np_("numpy.copy")
def _copy(m, it, args, kw):
    a = arr(m, it, args[0])
    return Arr(a.shape, list(a.cells), "np" if a.shape == () else "nd", a.dt)


def filled(value, dt):
    def f(m, it, args, kw):
        o = sig(it, ["shape", "dtype", "order"], args, kw, dtype=None, order=None)
        shape = m.shape_arg(it, o["shape"])
        d = dtype_of(it, o["dtype"]) or dt
        n = 1
        for s in shape:
            n *= s if isinstance(s, int) else 1
        v = const(value)
        cells = [v] * n
        if d == "b":
            cells = [TRUE if value else FALSE] * n
        if shape == ():
            return Arr((), cells, "np", d)
        return Arr(shape, cells, "nd", d)
    return f


NP["numpy.zeros"] = filled(0, "f")
NP["numpy.ones"] = filled(1, "f")


@np_("numpy.empty")
def _empty(m, it, args, kw):
    r = NP["numpy.zeros"](m, it, args, kw)
    r.buf.cells[:] = [it.freshatom("uninit", name="uninitialised") for _ in r.buf.cells]
    return r


@np_("numpy.full")
def _full(m, it, args, kw):
    o = sig(it, ["shape", "fill_value", "dtype"], args, kw, dtype=None)
    shape = m.shape_arg(it, o["shape"])
    v = arr(m, it, o["fill_value"])
    v = cast(m, it, v, dtype_of(it, o["dtype"]), "dtype conversion")
    return Arr(shape, list(m.spread(v, shape)), "nd", v.dt)


def like(value):
    def f(m, it, args, kw):
        o = sig(it, ["a", "dtype"] if value != "full" else ["a", "fill_value", "dtype"], args,
                {k: v for k, v in kw.items() if k not in ("subok", "order", "shape")}, dtype=None)
        a = arr(m, it, o["a"])
        dt = dtype_of(it, o["dtype"]) or a.dt
        if value == "full":
            v = cast(m, it, arr(m, it, o["fill_value"]), dt, "full_like")
            cells = list(m.spread(v, a.shape))
        elif value == "empty":
            cells = [it.freshatom("uninit", name="uninitialised") for _ in a.cells]
        else:
            cells = [const(value)] * len(a.cells)
        r = Arr(a.shape, cells, "nd" if a.shape else "np", dt)
        if isinstance(a.t, ClassV) and kw.get("subok", True) is True:
            r.t = a.t
            m.finalize(it, r, a)
        return r
    return f


NP["numpy.zeros_like"] = like(0)
NP["numpy.ones_like"] = like(1)
NP["numpy.full_like"] = like("full")
NP["numpy.empty_like"] = like("empty")


@np_("numpy.eye", "numpy.identity")
def _eye(m, it, args, kw):
    n = m.dim(it, args[0] if args else kw.get("N", kw.get("n")))
    k = args[1] if len(args) > 1 and not isinstance(args[1], (Builtin, Ext)) else kw.get("M")
    c = n if k is None else m.dim(it, k)
    if isinstance(n, str):
        raise Undecided("identity of symbolic size")
    return Arr((n, c), [ONE if i == j else ZERO for i in range(n) for j in range(c)], "nd", "f")


@np_("numpy.arange")
def _arange(m, it, args, kw):
    vals = [m.intindex(it, a) if isinstance(a, Arr) and a.dt == "i" else a for a in args]
    if len(vals) == 1:
        start, stop, step = 0, vals[0], 1
    elif len(vals) == 2:
        start, stop, step = vals[0], vals[1], 1
    else:
        start, stop, step = vals[:3]
    if all(isinstance(v, int) for v in (start, stop, step)):
        r = list(range(start, stop, step))
        return Arr((len(r),), [const(x) for x in r], "nd", "i")
    if start == 0 and step == 1 and isinstance(stop, Arr):
        d = m.dim(it, stop)
        return Arr((d,), [m.iota(d)], "nd", "i")
    raise Undecided("arange")


@np_("numpy.linspace")
def _linspace(m, it, args, kw):
    o = sig(it, ["start", "stop", "num", "endpoint", "retstep", "dtype", "axis"], args, kw, num=50, endpoint=True,
            retstep=False, dtype=None, axis=0)
    a, b = arr(m, it, o["start"]), arr(m, it, o["stop"])
    if not a.is_scalar() or not b.is_scalar():
        raise Undecided("linspace of arrays")
    num = o["num"]
    n = m.intindex(it, num) if isinstance(num, Arr) else num
    if isinstance(n, float) or isinstance(n, Arr) and n.dt == "f":
        raise it.err("TypeError", "'float' object cannot be interpreted as an integer")
    pa, pb = m.topoly(it, a.c), m.topoly(it, b.c)
    if isinstance(n, int):
        if n < 0:
            raise it.err("ValueError", "Number of samples must be non-negative")
        den = n - 1 if it.truth(o["endpoint"]) else n
        cells = [pa + (pb - pa).scale(Fraction(i, den)) if den else pa for i in range(n)]
        return Arr((n,), cells, "nd", "f")
    if isinstance(n, Arr):
        p = n.c
        s = p.single()
        ax = s.args[0] if s is not None and s.kind == "N" else "#" + V.show(p)
        den = p - ONE if it.truth(o["endpoint"]) else p
        return Arr((ax,), [pa + (pb - pa) * V.div(m.iota(ax), den)], "nd", "f")
    raise Undecided("linspace")


@np_("numpy.meshgrid")
def _meshgrid(m, it, args, kw):
    xs = [plain(arr(m, it, a)) for a in args]
    idx = kw.get("indexing", "xy")
    if len(xs) != 2:
        raise Undecided("meshgrid")
    x, y = [a if a.ndim == 1 else m.flat(it, a) for a in xs]
    if idx == "ij":
        shape = (x.shape[0], y.shape[0])
        gx = Arr((x.shape[0], 1), x.cells, "nd", x.dt)
        gy = Arr((1, y.shape[0]), y.cells, "nd", y.dt)
    else:
        shape = (y.shape[0], x.shape[0])
        gx = Arr((1, x.shape[0]), x.cells, "nd", x.dt)
        gy = Arr((y.shape[0], 1), y.cells, "nd", y.dt)
    return [Arr(shape, list(m.spread(g, shape)), "nd", g.dt) for g in (gx, gy)]


# ------------------------------------------------------------------ element-wise
def uargs(it, args, kw, n, name):
    """(operands, out) for a ufunc call."""
    kw = dict(kw)
    out = kw.pop("out", None)
    for k in ("where", "casting", "order", "subok"):
        if k in kw and k == "where":
            raise Undecided("where=")
        kw.pop(k, None)
    dt = kw.pop("dtype", None)
    if kw:
        raise it.err("TypeError", "%s() got an unexpected keyword argument" % name)
    if len(args) == n + 1 and out is None:
        out = args[n]
        args = args[:n]
    if len(args) != n:
        raise it.err("TypeError", "%s() takes %d operands" % (name, n))
    if isinstance(out, tuple) and len(out) == 1:
        out = out[0]
    return args, out, dt


def scal(m, it, r, dt):
    if dt is not None and isinstance(r, Arr):
        r = cast(m, it, r, dtype_of(it, dt), "dtype conversion")
    return r


def binary(name, op):
    def f(m, it, args, kw):
        a, out, dt = uargs(it, args, kw, 2, name)
        for x in a:
            if isinstance(x, (Iter, LazyGen)):
                raise it.err("TypeError", "unsupported operand")
        a = [arr(m, it, x) if isinstance(x, (list, tuple, range, USeq)) else x for x in a]
        return scal(m, it, m.arith(it, op, a[0], a[1], out=out), dt)
    NP["numpy." + name] = f


for _n, _o in (("add", "Add"), ("subtract", "Sub"), ("multiply", "Mult"), ("divide", "Div"), ("true_divide", "Div"),
               ("power", "Pow"), ("float_power", "Pow"), ("floor_divide", "FloorDiv"), ("mod", "Mod"),
               ("remainder", "Mod")):
    binary(_n, _o)


def unary(name, fn, dt=None, py=False):
    def f(m, it, args, kw):
        a, out, d = uargs(it, args, kw, 1, name)
        return scal(m, it, m.ufunc(it, lambda p: fn(m, it, p), a, dt, out=out), d)
    NP["numpy." + name] = f


def _sqrt(m, it, p):
    m.sqrtcheck(it, p, "np.sqrt")
    return V.sqrt(p)


def sign(it, p):
    s = it.facts.signs(p)
    nan = it.facts.maybe_nan(p)
    if s == POS and not nan:
        return ONE
    if s == NEG and not nan:
        return const(-1)
    if s == ZER and not nan:
        return ZERO
    # positive factors do not matter
    c, mm, q = V.content(p)
    k = ONE if c > 0 else -ONE
    rest = []
    if len(p.t) == 1:
        for a, e in mm:
            am = it.facts.atom_signs(V.T.atoms[a])
            if e % 2 == 0 and not am & ZER or am == POS:
                continue
            rest.append((a, e))
        base = P({tuple(rest): Fraction(1)})
    else:
        for a, e in mm:
            am = it.facts.atom_signs(V.T.atoms[a])
            if e % 2 == 0 and not am & ZER or am == POS:
                continue
            rest.append((a, e))
        base = V.mul(P({tuple(rest): Fraction(1)}), q, V.TERM_CAP)
    at = V.T.get("sign", (base,))
    if at.info is None:
        at.info = {"int": True}
    return k * of_atom(at)


unary("negative", lambda m, it, p: -p)
unary("positive", lambda m, it, p: p)
unary("absolute", lambda m, it, p: V.absv(p))
unary("abs", lambda m, it, p: V.absv(p))
unary("fabs", lambda m, it, p: V.absv(p), "f")
unary("sqrt", _sqrt, "f")
unary("square", lambda m, it, p: V.mul(p, p, V.TERM_CAP))
unary("sign", lambda m, it, p: sign(it, p))
for _n in ("sin", "cos", "tan", "exp"):
    unary(_n, (lambda n: lambda m, it, p: B.trig(n, p))(_n), "f")
unary("arctan", lambda m, it, p: B.trig("atan", p), "f")


def _arc(kind):
    def f(m, it, p):
        B.arcdom(m, it, p, "np.arc")
        return B.trig(kind, p)
    return f


unary("arccos", _arc("acos"), "f")
unary("arcsin", _arc("asin"), "f")
unary("log", lambda m, it, p: V.func("log", p), "f")
unary("degrees", lambda m, it, p: V.div(p.scale(180), _pi()), "f")
unary("rad2deg", lambda m, it, p: V.div(p.scale(180), _pi()), "f")
unary("radians", lambda m, it, p: p * _pi().scale(Fraction(1, 180)), "f")
unary("deg2rad", lambda m, it, p: p * _pi().scale(Fraction(1, 180)), "f")


def _recip(m, it, p):
    m.divcheck(it, p, "np")
    return V.inv(p)


unary("reciprocal", _recip)


def _pi():
    import models
    return models.pi_atom()


def _flr(kind, fn):
    def f(m, it, p):
        if p.const() is not None:
            return const(fn(p.const()))
        s = p.single()
        if s is not None and (s.info or {}).get("int") or V.whole(p):
            return p
        it.event("floor", value=p)
        at = V.T.get(kind, (p,))
        at.info = at.info or {"int": True}
        return of_atom(at)
    return f


unary("floor", _flr("floor", _math.floor))
unary("ceil", _flr("ceil", _math.ceil))
unary("trunc", _flr("trunc", _math.trunc))
unary("fix", _flr("trunc", _math.trunc))
unary("rint", _flr("round", round))


@np_("numpy.arctan2")
def _arctan2(m, it, args, kw):
    a, out, dt = uargs(it, args, kw, 2, "arctan2")
    return m.ufunc(it, lambda y, x: B.atan2(it, y, x), a, "f", out=out)


@np_("numpy.hypot")
def _hyp(m, it, args, kw):
    a, out, dt = uargs(it, args, kw, 2, "hypot")
    return m.ufunc(it, lambda x, y: V.sqrt(x * x + y * y), a, "f", out=out)


for _n, _k in (("maximum", "max"), ("minimum", "min"), ("fmax", "max"), ("fmin", "min")):
    def _mk(k, n):
        def f(m, it, args, kw):
            a, out, dt = uargs(it, args, kw, 2, n)

            def pick(x, y):
                if n[0] == "f" and "nan" in (I.special_of(x), I.special_of(y)):
                    return y if I.special_of(x) == "nan" else x
                return m.pmax(it, x, y, k)
            return m.ufunc(it, pick, a, None, out=out)
        NP["numpy." + n] = f
    _mk(_k, _n)


@np_("numpy.copysign")
def _cs(m, it, args, kw):
    def f(x, y):
        s = it.facts.signs(y)
        if s == POS or s == ZER:
            return V.absv(x)
        if s == NEG:
            return -V.absv(x)
        return it.freshatom("copysign", (x, y))
    return m.ufunc(it, f, args[:2], "f")


@np_("numpy.clip")
def _clip(m, it, args, kw):
    o = sig(it, ["a", "a_min", "a_max", "out"], args, {k: v for k, v in kw.items()}, out=None, a_min=None, a_max=None)
    ops = [o["a"]]
    lo, hi = o["a_min"], o["a_max"]

    def f(x, l, h):
        return clipv(it, x, l, h)
    L = lo if lo is not None else -_math.inf
    H = hi if hi is not None else _math.inf
    if lo is None:
        return m.ufunc(it, lambda x, h: m.pmax(it, x, h, "min"), [o["a"], H], None, out=o["out"])
    if hi is None:
        return m.ufunc(it, lambda x, l: m.pmax(it, x, l, "max"), [o["a"], L], None, out=o["out"])
    return m.ufunc(it, f, [o["a"], L, H], None, out=o["out"])


def clipv(it, x, l, h):
    lo, hi = it.facts.bounds(x)
    cl, ch = l.const(), h.const()
    if cl is not None and ch is not None:
        if x.const() is not None:
            return const(min(max(x.const(), cl), ch))
        if cl == -1 and ch == 1 and V.is_zero(x * x - ONE):
            s = it.facts.signs(it.facts.settled(x) or x)
            return ONE if not s & NEG else -ONE if not s & POS else x
        if cl == -ch and x.t and V.content(x)[0] < 0:
            return -clipv(it, -x, l, h)
        at = V.T.get("clip", (x, l, h))
        if at.info is None:
            at.info = {"lo": float(cl), "hi": float(ch)}
        return of_atom(at)
    return V.func("clip", x, l, h)


def cmpfn(name, op):
    def f(m, it, args, kw):
        a, out, dt = uargs(it, args, kw, 2, name)
        a = [arr(m, it, x) for x in a]
        return m.compare(it, op, a[0], a[1])
    NP["numpy." + name] = f


for _n, _o in (("less", "Lt"), ("less_equal", "LtE"), ("greater", "Gt"), ("greater_equal", "GtE"), ("equal", "Eq"),
               ("not_equal", "NotEq")):
    cmpfn(_n, _o)


def logic(name, fn, n):
    def f(m, it, args, kw):
        a, out, dt = uargs(it, args, kw, n, name)
        return m.ufunc(it, lambda *cs: fn([m.tocond(it, c) for c in cs]), a, "b", boolean=True, conds=True)
    NP["numpy." + name] = f


logic("logical_and", cand, 2)
logic("bitwise_and", cand, 2)
logic("logical_or", cor, 2)
logic("bitwise_or", cor, 2)
logic("logical_not", lambda cs: cnot(cs[0]), 1)
logic("invert", lambda cs: cnot(cs[0]), 1)


def finfn(name):
    def f(m, it, args, kw):
        a, out, dt = uargs(it, args, kw, 1, name)
        x = arr(m, it, a[0])

        def g(c):
            if isinstance(c, Cond):
                return TRUE if name == "isfinite" else FALSE
            if not it.facts.maybe_nan(c):
                return TRUE if name == "isfinite" else FALSE
            return Cond("finite", c) if name == "isfinite" else Cond(name, c)
        return m.ufunc(it, g, [x], "b", boolean=True, conds=True)
    NP["numpy." + name] = f


for _n in ("isfinite", "isnan", "isinf"):
    finfn(_n)


@np_("numpy.isclose")
def _npisclose(m, it, args, kw):
    o = sig(it, ["a", "b", "rtol", "atol", "equal_nan"], args, kw, rtol=1e-5, atol=1e-8, equal_nan=False)
    r, t = arr(m, it, o["rtol"]), arr(m, it, o["atol"])
    a, b = arr(m, it, o["a"]), arr(m, it, o["b"])

    def f(x, y):
        x, y = m.topoly(it, x), m.topoly(it, y)
        it.event("isclose", a=x, b=y, rel=r.c, abs=t.c, how="numpy")
        c = mkclose(x, y, r.c, t.c)
        k = it.known(c)
        return c if k is None else (TRUE if k else FALSE)
    return m.ufunc(it, f, [a, b], "b", boolean=True, conds=True)


@np_("numpy.allclose")
def _npallclose(m, it, args, kw):
    r = _npisclose(m, it, args, kw)
    if not isinstance(r, Arr):
        return r
    return B.BI["bool"](m, it, [m.reduce_bool(it, r, "all")], {})


@np_("numpy.array_equal", "numpy.array_equiv")
def _array_equal(m, it, args, kw):
    try:
        a, b = arr(m, it, args[0]), arr(m, it, args[1])
    except PyExc as e:
        if e.name in ("ValueError", "TypeError"):
            return False
        raise
    if a.shape != b.shape:
        if any(isinstance(s, str) for s in a.shape + b.shape) and a.ndim == b.ndim:
            return UnkV("array_equal")
        return False
    cs = [it.cmpc("==", x - y) for x, y in zip(m.pcells(it, a), m.pcells(it, b))]
    c = cand(cs)
    for ax in a.rows():
        if any(ax in p.rows() for p in c.polys()):
            c = Cond("nall", c, ax)
    it.event("array_equal", cond=c)
    if c.kind == "const":
        return c.args[0]
    return Arr((), [c], "py", "b")


@np_("numpy.where")
def _where(m, it, args, kw):
    if len(args) == 1:
        return NP["numpy.nonzero"](m, it, args, kw)
    c, x, y = [arr(m, it, a) for a in args]

    def f(c, x, y):
        c = m.tocond(it, c)
        k = it.known(c)
        if k is None:
            if x == y:
                return x
            if any(p.rows() for p in c.polys()):
                return it.freshatom("where", tuple(c.polys()) + tuple(z for z in (x, y) if isinstance(z, P)))
            k = it.decide(c)
        return x if k else y
    import models
    return m.ufunc(it, f, [plain(c), plain(x), plain(y)], models.promote(x.dt, y.dt), boolean=True, conds=True)


@np_("numpy.around", "numpy.round", "numpy.round_")
def _around(m, it, args, kw):
    o = sig(it, ["a", "decimals", "out"], args, kw, decimals=0, out=None)
    src = o["a"]
    if isinstance(src, Arr) and isinstance(src.t, ClassV):
        f, _ = src.t.lookup("round")
        if isinstance(f, FuncV):
            # np.around calls the object's own round method
            k = {"decimals": o["decimals"]}
            if o["out"] is not None:
                k["out"] = o["out"]
            return it.call(I.Bound(f, src), [], k)
    a = arr(m, it, src)
    r = B.rnd(m, it, a, o["decimals"])
    if o["out"] is not None and isinstance(o["out"], Arr) and isinstance(r, Arr):
        m.store_all(it, o["out"], r, "out=")
        return o["out"]
    if isinstance(r, Arr) and r.t == "py":
        r = Arr((), r.cells, "np", r.dt)
    return r


@np_("numpy.nan_to_num")
def _n2n(m, it, args, kw):
    a = arr(m, it, args[0])
    return fresh(plain(a))


@np_("numpy.float32", "numpy.float16", "numpy.single", "numpy.half")
def _float32(m, it, args, kw):
    r = _float64(m, it, args, kw)
    if isinstance(r, Arr):
        narrowing(it, r.cells, "float32")
    return r


@np_("numpy.float64", "numpy.float_", "numpy.double")
def _float64(m, it, args, kw):
    if not args:
        return Arr((), [ZERO], "np", "f")
    x = args[0]
    it.narrow = None
    if isinstance(x, Arr) and x.shape != ():
        a = plain(x)
        return cast(m, it, fresh(a), "f", "")
    if isinstance(x, (list, tuple, USeq)):
        a = arr(m, it, x)
        return cast(m, it, a, "f", "")
    return B.tofloat(m, it, x, "np")


@np_("numpy.int32", "numpy.int16", "numpy.int8", "numpy.intc", "numpy.short")
def _int32(m, it, args, kw):
    r = _int64(m, it, args, kw)
    if isinstance(r, Arr):
        narrowing(it, r.cells, "int32")
    return r


@np_("numpy.int64", "numpy.int_", "numpy.intp")
def _int64(m, it, args, kw):
    x = args[0] if args else 0
    if isinstance(x, Arr) and x.shape != ():
        return cast(m, it, fresh(plain(x)), "i", "np.int64()")
    r = B.toint(m, it, x, "np")
    return m.asnum(it, r) if isinstance(r, int) else r


@np_("numpy.bool_")
def _npbool(m, it, args, kw):
    r = B.BI["bool"](m, it, args, {})
    if isinstance(r, bool):
        r = num(r)
    if isinstance(r, Arr):
        return Arr((), r.cells, "np", "b")
    return r


# ------------------------------------------------------------------ reductions
def red(name, fn):
    def f(m, it, args, kw):
        o = sig(it, ["a", "axis", "dtype", "out", "keepdims", "initial", "where"], args, kw, axis=None, dtype=None,
                out=None, keepdims=False, initial=None, where=None)
        if o["where"] is not None or o["initial"] is not None:
            raise Undecided("reduction option")
        src = o["a"]
        if isinstance(src, (Iter, LazyGen)):
            src = it.iterate(src)
        a = arr(m, it, src)
        r = fn(m, it, a, o["axis"], bool(o["keepdims"]))
        r = scal(m, it, r, o["dtype"])
        if isinstance(o["out"], Arr):
            m.store_all(it, o["out"], r, "out=")
            return o["out"]
        return r
    NP["numpy." + name] = f


red("sum", lambda m, it, a, ax, kd: m.sum(it, a, ax, kd))
red("nansum", lambda m, it, a, ax, kd: m.sum(it, plain(a), ax, kd))
red("mean", lambda m, it, a, ax, kd: m.mean(it, a, ax, kd))
red("nanmean", lambda m, it, a, ax, kd: m.mean(it, plain(a), ax, kd))


def red2(name, fn):
    def f(m, it, args, kw):
        o = sig(it, ["a", "axis", "out", "keepdims", "initial", "where"], args, kw, axis=None, out=None, keepdims=False,
                initial=None, where=None)
        if o["where"] is not None or o["initial"] is not None:
            raise Undecided("reduction option")
        src = o["a"]
        a = arr(m, it, src)
        r = fn(m, it, a, o["axis"], bool(o["keepdims"]))
        if isinstance(o["out"], Arr):
            m.store_all(it, o["out"], r, "out=")
            return o["out"]
        return r
    NP["numpy." + name] = f


for _n in ("max", "amax", "nanmax"):
    red2(_n, lambda m, it, a, ax, kd: m.extremum(it, a, ax, "max", kd))
for _n in ("min", "amin", "nanmin"):
    red2(_n, lambda m, it, a, ax, kd: m.extremum(it, a, ax, "min", kd))
red2("ptp", lambda m, it, a, ax, kd: m.arith(it, "Sub", m.extremum(it, a, ax, "max"), m.extremum(it, a, ax, "min")))
red2("all", lambda m, it, a, ax, kd: m.reduce_bool(it, a, "all", ax, kd))
red2("any", lambda m, it, a, ax, kd: m.reduce_bool(it, a, "any", ax, kd))
NP["numpy.alltrue"] = NP["numpy.all"]


@np_("numpy.prod", "numpy.product")
def _prod(m, it, args, kw):
    o = sig(it, ["a", "axis", "dtype", "out", "keepdims"], args, kw, axis=None, dtype=None, out=None, keepdims=False)
    a = arr(m, it, o["a"])

    def comb(xs):
        r = ONE
        for x in xs:
            r = r * x
        return r

    def sym(p, ax):
        return it.freshatom("nprod", (p,))
    b = Arr(a.shape, m.pcells(it, a), "nd", a.dt)
    shape, out = m.reduce(it, b, o["axis"], comb, sym, bool(o["keepdims"]))
    return m.redwrap(it, Arr(shape, out, "nd", "i" if a.dt == "b" else a.dt), a)


def variance(m, it, a, ax, kd, ddof, root):
    mu = m.mean(it, a, ax, True)
    if not isinstance(mu, Arr):
        return mu
    d = m.ufunc(it, lambda x, y: (x - y) * (x - y), [plain(a), mu], "f")
    s = m.sum(it, d, ax, kd)
    n = m.count(it, a, ax) - const(ddof)
    return Arr(s.shape, [V.sqrt(V.div(c, n)) if root else V.div(c, n) for c in s.cells], s.t, "f")


for _n, _r in (("var", False), ("std", True)):
    def _mk(n, r):
        def f(m, it, args, kw):
            o = sig(it, ["a", "axis", "dtype", "out", "ddof", "keepdims"], args, kw, axis=None, dtype=None, out=None,
                    ddof=0, keepdims=False)
            return variance(m, it, arr(m, it, o["a"]), o["axis"], bool(o["keepdims"]), o["ddof"], r)
        NP["numpy." + n] = f
    _mk(_n, _r)


@np_("numpy.average")
def _average(m, it, args, kw):
    o = sig(it, ["a", "axis", "weights", "returned", "keepdims"], args, kw, axis=None, weights=None, returned=False,
            keepdims=False)
    if o["weights"] is not None:
        raise Undecided("weighted average")
    return m.mean(it, arr(m, it, o["a"]), o["axis"])


@np_("numpy.median")
def _median(m, it, args, kw):
    o = sig(it, ["a", "axis"], args, kw, axis=None)
    a = arr(m, it, o["a"])
    b = Arr(a.shape, m.pcells(it, a), "nd", "f")

    def comb(xs):
        return V.func("median", *sorted(xs, key=lambda p: V.show(p)))
    shape, out = m.reduce(it, b, o["axis"], comb, lambda p, ax: it.freshatom("median", (p,)))
    return m.redwrap(it, Arr(shape, out, "nd", "f"), a)


def argm(kind):
    def f(m, it, args, kw):
        o = sig(it, ["a", "axis", "out"], args, kw, axis=None, out=None)
        a = arr(m, it, o["a"])
        if o["axis"] is not None and a.ndim != 1:
            raise Undecided("argmin along an axis")
        if a.ndim == 1 and isinstance(a.shape[0], str):
            p = m.topoly(it, a.c)
            if kind == "max":
                p = -p
            at = V.T.get("nargm", (p, a.shape[0]))
            if at.info is None:
                at.info = {"axis": a.shape[0], "int": True, "lo": 0, "nonneg": True}
            at.rows = p.rows() - {a.shape[0]}
            return Arr((), [of_atom(at)], "np", "i")
        if a.rows():
            raise Undecided("argmin")
        cells = m.pcells(it, a)
        best = 0
        for i in range(1, len(cells)):
            if it.decide(it.cmpc("<" if kind == "min" else ">", cells[i] - cells[best])):
                best = i
        return Arr((), [const(best)], "np", "i")
    return f


NP["numpy.argmin"] = argm("min")
NP["numpy.argmax"] = argm("max")


@np_("numpy.count_nonzero")
def _cnz(m, it, args, kw):
    a = arr(m, it, args[0])
    b = Arr(a.shape, [m.tocond(it, c) for c in a.cells], "nd", "b")
    return m.sum(it, b, kw.get("axis", args[1] if len(args) > 1 else None))


@np_("numpy.cumsum")
def _cumsum(m, it, args, kw):
    a = arr(m, it, args[0])
    if a.rows():
        raise Undecided("cumsum over a symbolic axis")
    if a.ndim != 1 and (len(args) > 1 or "axis" in kw):
        raise Undecided("cumsum")
    out, s = [], ZERO
    for c in m.pcells(it, a):
        s = s + c
        out.append(s)
    r = Arr((len(out),), out, "nd", a.dt)
    return m.wrap(it, r, a) if isinstance(a.t, ClassV) else r


@np_("numpy.diff")
def _diff(m, it, args, kw):
    a = arr(m, it, args[0])
    ax = kw.get("axis", -1)
    if len(args) > 1 or a.ndim > 2:
        raise Undecided("diff")
    ax = ax % a.ndim
    if isinstance(a.shape[ax], str):
        raise Undecided("diff over a symbolic axis")
    sl = [slice(None)] * a.ndim
    s1, s0 = list(sl), list(sl)
    s1[ax], s0[ax] = slice(1, None), slice(None, -1)
    return m.arith(it, "Sub", m.arr_getitem(it, a, tuple(s1)), m.arr_getitem(it, a, tuple(s0)))


# ------------------------------------------------------------------ shape
def simple(name, fn):
    NP["numpy." + name] = fn


simple("shape", lambda m, it, a, k: tuple(m.shape_val(s) for s in arr(m, it, a[0]).shape))
simple("ndim", lambda m, it, a, k: arr(m, it, a[0]).ndim)


def size(m, it, a):
    n = ONE
    for s in a.shape:
        n = n * D.count_atom(s)
    c = n.const()
    return int(c) if c is not None else Arr((), [n], "py", "i")


@np_("numpy.size")
def _size(m, it, args, kw):
    a = arr(m, it, args[0])
    if len(args) > 1 or "axis" in kw:
        return m.shape_val(a.shape[args[1] if len(args) > 1 else kw["axis"]])
    return size(m, it, a)


@np_("numpy.reshape")
def _reshape(m, it, args, kw):
    a = arr(m, it, args[0])
    return m.reshape(it, a, args[1] if len(args) > 1 else kw.get("newshape", kw.get("shape")))


@np_("numpy.ravel")
def _ravel(m, it, args, kw):
    a = arr(m, it, args[0])
    return ravel(m, it, a)


def ravel(m, it, a):
    if a.ndim == 1:
        return a
    if not a.rows() and a.shape != ():
        r = Arr((len(a.cells),), None, a.t, a.dt, a.buf, a.idx)
        return m.finalize(it, r, a) if isinstance(r.t, ClassV) else r
    return m.flat(it, a)


@np_("numpy.transpose")
def _transpose(m, it, args, kw):
    a = arr(m, it, args[0])
    ax = args[1] if len(args) > 1 else kw.get("axes")
    return m.transpose(it, a, list(ax) if ax is not None else None)


@np_("numpy.swapaxes")
def _swap(m, it, args, kw):
    a = arr(m, it, args[0])
    ax = list(range(a.ndim))
    i, j = args[1] % a.ndim, args[2] % a.ndim
    ax[i], ax[j] = ax[j], ax[i]
    return m.transpose(it, a, ax)


@np_("numpy.squeeze")
def _squeeze(m, it, args, kw):
    a = arr(m, it, args[0])
    return squeeze(m, it, a, args[1] if len(args) > 1 else kw.get("axis"))


def squeeze(m, it, a, axis=None):
    one = set()
    if axis is None:
        for s in a.shape:
            if not isinstance(s, int) and it.decide(it.cmpc("==", D.count_atom(s) - ONE)):
                one.add(s)
        shape = tuple(s for s in a.shape if s != 1 and s not in one)
    else:
        ax = [x % a.ndim for x in (axis if isinstance(axis, (tuple, list)) else (axis,))]
        for x in ax:
            if a.shape[x] != 1:
                raise it.err("ValueError", "cannot select an axis to squeeze out which has size not equal to one")
        shape = tuple(s for i, s in enumerate(a.shape) if i not in ax)
    if shape == ():
        return Arr((), a.cells, "np", a.dt)
    r = Arr(shape, None, a.t, a.dt, a.buf, a.idx)
    return m.finalize(it, r, a) if isinstance(r.t, ClassV) else r


@np_("numpy.expand_dims")
def _expand(m, it, args, kw):
    a = arr(m, it, args[0])
    ax = args[1] if len(args) > 1 else kw["axis"]
    if not isinstance(ax, int):
        raise Undecided("expand_dims")
    k = [slice(None)] * a.ndim
    ax = ax % (a.ndim + 1)
    k.insert(ax, None)
    return m.arr_getitem(it, a, tuple(k))


@np_("numpy.atleast_1d")
def _at1(m, it, args, kw):
    a = arr(m, it, args[0])
    return a if a.ndim else Arr((1,), a.cells, "nd", a.dt)


@np_("numpy.atleast_2d")
def _at2(m, it, args, kw):
    a = arr(m, it, args[0])
    if a.ndim >= 2:
        return a
    r = Arr((1,) * (2 - a.ndim) + a.shape, list(a.cells) if not a.ndim else None, a.t if a.ndim else "nd", a.dt,
            *(() if not a.ndim else (a.buf, a.idx)))
    return m.finalize(it, r, a) if isinstance(r.t, ClassV) else r


def seq_items(m, it, x):
    if isinstance(x, Arr):
        x = it.iterate(x)
    elif isinstance(x, (Iter, LazyGen)):
        x = it.iterate(x)
    return x


def concat(m, it, arrs, axis):
    import models
    if not arrs:
        raise it.err("ValueError", "need at least one array to concatenate")
    nd = arrs[0].ndim
    if nd == 0:
        raise it.err("ValueError", "zero-dimensional arrays cannot be concatenated")
    if any(a.ndim != nd for a in arrs):
        raise it.err("ValueError", "all the input array dimensions must match")
    if axis < -nd or axis >= nd:
        raise it.err("AxisError", "axis out of bounds")
    axis %= nd
    for i in range(nd):
        if i != axis and len({a.shape[i] for a in arrs}) != 1:
            if any(isinstance(a.shape[i], str) for a in arrs):
                raise Undecided("concatenation of unrelated lengths")
            raise it.err("ValueError", "all the input array dimensions must match exactly")
    if len(arrs) > 1 and any(isinstance(a.shape[axis], str) for a in arrs):
        raise Undecided("concatenation along a symbolic axis")
    dt = models.promote(*[a.dt for a in arrs])
    if len(arrs) == 1:
        return fresh(plain(arrs[0]))
    rest = arrs[0].eff()
    outer = 1
    for s in rest[:axis]:
        outer *= s
    inner = 1
    for s in rest[axis + 1:]:
        inner *= s
    out = []
    lists = [(m.pcells(it, a) if dt != "b" else a.cells, a.shape[axis] * inner) for a in arrs]
    for o in range(outer):
        for cs, w in lists:
            out.extend(cs[o * w:(o + 1) * w])
    shape = list(arrs[0].shape)
    shape[axis] = sum(a.shape[axis] for a in arrs)
    return Arr(tuple(shape), out, "nd", dt)


@np_("numpy.concatenate")
def _concat(m, it, args, kw):
    o = sig(it, ["arrays", "axis"], args, kw, axis=0)
    x = seq_items(m, it, o["arrays"])
    if isinstance(x, USeq):
        raise Undecided("concatenation of a symbolic sequence")
    arrs = [arr(m, it, a) for a in x]
    if o["axis"] is None:
        return concat(m, it, [m.flat(it, a) for a in arrs], 0)
    return concat(m, it, arrs, o["axis"])


@np_("numpy.vstack", "numpy.row_stack")
def _vstack(m, it, args, kw):
    x = seq_items(m, it, args[0])
    if isinstance(x, USeq):
        e = arr(m, it, x.elem)
        if e.ndim == 1:
            return Arr((x.axis,) + e.shape, e.cells, "nd", e.dt)
        raise Undecided("vstack")
    arrs = [_at2(m, it, [plain(arr(m, it, a))], {}) for a in x]
    return concat(m, it, arrs, 0)


@np_("numpy.hstack")
def _hstack(m, it, args, kw):
    x = seq_items(m, it, args[0])
    if isinstance(x, USeq):
        raise Undecided("hstack")
    arrs = [_at1(m, it, [plain(arr(m, it, a))], {}) for a in x]
    return concat(m, it, arrs, 0 if arrs and arrs[0].ndim == 1 else 1)


@np_("numpy.column_stack")
def _colstack(m, it, args, kw):
    x = seq_items(m, it, args[0])
    arrs = []
    for a in x:
        a = plain(arr(m, it, a))
        if a.ndim < 2:
            a = Arr((a.shape[0] if a.ndim else 1, 1), a.cells, "nd", a.dt)
        arrs.append(a)
    return concat(m, it, arrs, 1)


@np_("numpy.stack")
def _stack(m, it, args, kw):
    o = sig(it, ["arrays", "axis"], args, kw, axis=0)
    x = seq_items(m, it, o["arrays"])
    if isinstance(x, USeq):
        e = arr(m, it, x.elem)
        if o["axis"] == 0:
            return Arr((x.axis,) + e.shape, e.cells, "nd", e.dt)
        raise Undecided("stack")
    arrs = [plain(arr(m, it, a)) for a in x]
    if len({a.shape for a in arrs}) != 1:
        raise it.err("ValueError", "all input arrays must have the same shape")
    n = arrs[0].ndim
    ax = o["axis"] % (n + 1)
    arrs = [Arr(a.shape[:ax] + (1,) + a.shape[ax:], a.cells, "nd", a.dt) for a in arrs]
    return concat(m, it, arrs, ax)


@np_("numpy.dstack")
def _dstack(m, it, args, kw):
    raise Undecided("dstack")


@np_("numpy.append")
def _append(m, it, args, kw):
    o = sig(it, ["arr", "values", "axis"], args, kw, axis=None)
    a, b = plain(arr(m, it, o["arr"])), plain(arr(m, it, o["values"]))
    if o["axis"] is None:
        return concat(m, it, [m.flat(it, a), m.flat(it, b)], 0)
    return concat(m, it, [a, b], o["axis"])


@np_("numpy.insert", "numpy.delete")
def _insdel(m, it, args, kw):
    raise Undecided("insert/delete")


@np_("numpy.delete")
def _delete(m, it, args, kw):
    o = sig(it, ["arr", "obj", "axis"], args, kw, axis=None)
    a = plain(arr(m, it, o["arr"]))
    if a.rows() or not isinstance(o["obj"], int):
        raise Undecided("delete")
    if o["axis"] is None:
        a = m.flat(it, a)
        ax = 0
    else:
        ax = o["axis"] % a.ndim
    keep = [i for i in range(a.shape[ax]) if i != o["obj"] % a.shape[ax]]
    k = [slice(None)] * a.ndim
    k[ax] = Arr((len(keep),), [const(i) for i in keep], "nd", "i")
    return m.arr_getitem(it, a, tuple(k))


@np_("numpy.block")
def _block(m, it, args, kw):
    def depth(x):
        return 1 + depth(x[0]) if isinstance(x, list) else 0
    d = depth(args[0])

    def go(x, lvl):
        if not isinstance(x, list):
            a = plain(arr(m, it, x))
            while a.ndim < max(d, 1):
                a = Arr((1,) + a.shape, a.cells, "nd", a.dt)
            return a
        parts = [go(y, lvl + 1) for y in x]
        nd = parts[0].ndim
        return concat(m, it, parts, nd - (d - lvl))
    return go(args[0], 0)


@np_("numpy.pad")
def _pad(m, it, args, kw):
    kw = dict(kw)
    cv = kw.pop("constant_values", 0)
    o = sig(it, ["array", "pad_width", "mode"], args, kw, mode="constant")
    a = plain(arr(m, it, o["array"]))
    if o["mode"] != "constant":
        raise Undecided("pad mode")
    v = arr(m, it, cv)
    if not v.is_scalar():
        raise Undecided("pad values")
    pw = o["pad_width"]

    def iv(x):
        x = m.intindex(it, x) if isinstance(x, Arr) else x
        if isinstance(x, float) or isinstance(x, Arr) and x.dt == "f":
            raise it.err("TypeError", "`pad_width` must be of integral type.")
        return x
    if isinstance(pw, Arr) and not pw.is_scalar():
        raise Undecided("pad width")
    if isinstance(pw, (int, Arr)):
        pw = (pw, pw)
    pw = [tuple(iv(y) for y in x) if isinstance(x, (tuple, list)) else iv(x) for x in pw]
    if all(not isinstance(x, tuple) for x in pw):
        if len(pw) == 1:
            pw = [pw[0], pw[0]]
        pw = [tuple(pw)] * a.ndim
    elif len(pw) == 1:
        pw = [pw[0] if len(pw[0]) == 2 else pw[0] * 2] * a.ndim
    if len(pw) != a.ndim:
        raise it.err("ValueError", "operands could not be broadcast together")
    cells = m.pcells(it, a) if a.dt != "b" else a.cells
    shape = list(a.shape)
    # one axis at a time
    for ax in range(a.ndim):
        lo, hi = pw[ax]
        if not isinstance(lo, int) or not isinstance(hi, int):
            raise Undecided("pad width")
        if lo < 0 or hi < 0:
            raise it.err("ValueError", "index can't contain negative values")
        if lo == 0 and hi == 0:
            continue
        if isinstance(shape[ax], str):
            raise Undecided("padding a symbolic axis")
        eff = [s if isinstance(s, int) else 1 for s in shape]
        outer = 1
        for s in eff[:ax]:
            outer *= s
        inner = 1
        for s in eff[ax + 1:]:
            inner *= s
        w = eff[ax] * inner
        vc = m.coerce(it, v.c, v.dt, a.dt)
        out = []
        for i in range(outer):
            out += [vc] * (lo * inner) + cells[i * w:(i + 1) * w] + [vc] * (hi * inner)
        cells = out
        shape[ax] += lo + hi
    return Arr(tuple(shape), list(cells), "nd", a.dt)


@np_("numpy.tile")
def _tile(m, it, args, kw):
    a, reps = plain(arr(m, it, args[0])), args[1] if len(args) > 1 else kw["reps"]
    reps = list(reps) if isinstance(reps, (tuple, list)) else [reps]
    reps = [m.dim(it, r) for r in reps]
    n = max(a.ndim, len(reps))
    reps = [1] * (n - len(reps)) + reps
    a = Arr((1,) * (n - a.ndim) + a.shape, a.cells, "nd", a.dt)
    for ax, r in enumerate(reps):
        if isinstance(r, str):
            if a.shape[ax] != 1:
                raise Undecided("tile")
            a = Arr(a.shape[:ax] + (r,) + a.shape[ax + 1:], a.cells, "nd", a.dt)
        elif r != 1:
            a = concat(m, it, [a] * r, ax)
    return a


@np_("numpy.repeat")
def _repeat(m, it, args, kw):
    o = sig(it, ["a", "repeats", "axis"], args, kw, axis=None)
    a = plain(arr(m, it, o["a"]))
    if o["axis"] is None:
        a = m.flat(it, a)
        ax = 0
    else:
        ax = o["axis"] % a.ndim
    r = m.dim(it, o["repeats"])
    if isinstance(a.shape[ax], str):
        raise Undecided("repeat")
    if isinstance(r, str):
        if a.shape[ax] != 1:
            raise Undecided("repeat")
        return Arr(a.shape[:ax] + (r,) + a.shape[ax + 1:], a.cells, "nd", a.dt)
    ix = [i for i in range(a.shape[ax]) for _ in range(r)]
    k = [slice(None)] * a.ndim
    k[ax] = Arr((len(ix),), [const(i) for i in ix], "nd", "i")
    return m.arr_getitem(it, a, tuple(k))


@np_("numpy.broadcast_to")
def _bto(m, it, args, kw):
    a = plain(arr(m, it, args[0]))
    shape = m.shape_arg(it, args[1] if len(args) > 1 else kw["shape"])
    if m.broadcast(it, [a.shape, shape]) != shape:
        raise it.err("ValueError", "cannot broadcast")
    base = Arr(a.shape, [const(i) for i in range(len(a.cells))], "nd", "i")
    idx = list(a.index())
    pos = [idx[int(c.const())] for c in m.spread(base, shape)]
    return Arr(shape, None, "nd", a.dt, a.buf, pos)


@np_("numpy.broadcast_arrays")
def _barr(m, it, args, kw):
    arrs = [plain(arr(m, it, a)) for a in args]
    shape = m.broadcast(it, [a.shape for a in arrs])
    return [_bto(m, it, [a, tuple(m.shape_val(s) for s in shape)], {}) for a in arrs]


@np_("numpy.roll")
def _roll(m, it, args, kw):
    o = sig(it, ["a", "shift", "axis"], args, kw, axis=None)
    a = arr(m, it, o["a"])
    sh = m.intindex(it, o["shift"]) if isinstance(o["shift"], Arr) else o["shift"]
    if not isinstance(sh, int):
        raise Undecided("roll")
    ax = o["axis"]
    if ax is None:
        if a.ndim != 1:
            raise Undecided("roll")
        ax = 0
    ax %= a.ndim
    d = a.shape[ax]
    if isinstance(d, str):
        k = Arr((d,), [m.iota(d) - const(sh)], "nd", "i")
        if ax != 0:
            raise Undecided("roll")
        r = m.fancy_sym(it, a, [k] + [slice(None)] * (a.ndim - 1))
        return r
    ix = [(i - sh) % d for i in range(d)]
    k = [slice(None)] * a.ndim
    k[ax] = Arr((d,), [const(i) for i in ix], "nd", "i")
    return m.arr_getitem(it, a, tuple(k))


@np_("numpy.flip")
def _flip(m, it, args, kw):
    o = sig(it, ["m", "axis"], args, kw, axis=None)
    a = arr(m, it, o["m"])
    axes = m.axes_split(it, a, o["axis"])
    return m.arr_getitem(it, a, tuple(slice(None, None, -1) if i in axes else slice(None) for i in range(a.ndim)))


simple("flipud", lambda m, it, a, k: _flip(m, it, [a[0], 0], {}))
simple("fliplr", lambda m, it, a, k: _flip(m, it, [a[0], 1], {}))


@np_("numpy.diag")
def _diag(m, it, args, kw):
    a = plain(arr(m, it, args[0]))
    if len(args) > 1 or kw or a.rows():
        raise Undecided("diag")
    if a.ndim == 1:
        n = a.shape[0]
        return Arr((n, n), [a.cells[i] if i == j else ZERO for i in range(n) for j in range(n)], "nd", a.dt)
    n = min(a.shape)
    return Arr((n,), [a.cells[i * a.shape[1] + i] for i in range(n)], "nd", a.dt)


simple("diagonal", _diag)


@np_("numpy.trace")
def _trace(m, it, args, kw):
    a = arr(m, it, args[0])
    if a.ndim != 2 or a.rows():
        raise Undecided("trace")
    s = ZERO
    for i in range(min(a.shape)):
        s = s + m.topoly(it, a.cells[i * a.shape[1] + i])
    return Arr((), [s], "np", a.dt)


# ------------------------------------------------------------------ order
@np_("numpy.sort")
def _sort(m, it, args, kw):
    a = fresh(plain(arr(m, it, args[0])))
    return sort_inplace(m, it, a, args[1] if len(args) > 1 else kw.get("axis", -1))


def sort_inplace(m, it, a, axis=-1):
    if a.ndim != 1:
        raise Undecided("sort")
    if isinstance(a.shape[0], str):
        p = m.topoly(it, a.c)
        k = order_atom(m, it, p, a.shape[0])
        r = m.fancy_sym(it, plain(a), [Arr((a.shape[0],), [k], "nd", "i")])
        for i, c in zip(a.index(), r.cells):
            a.buf.cells[i] = c
        return a
    if len(a.cells) > 4:
        raise Undecided("sort of a long array")
    items = [Arr((), [c], "py", a.dt) for c in m.pcells(it, a)]
    out = B.insertion_sort(m, it, items)
    for i, x in zip(list(a.index()), out):
        a.buf.cells[i] = x.c
    return a


def order_atom(m, it, p, axis):
    at = V.T.get("argsort", (p, axis))
    if at.info is None:
        at.info = {"int": True, "axis": axis, "nonneg": True}
        at.rows = frozenset({axis})
    return of_atom(at)


@np_("numpy.argsort")
def _argsort(m, it, args, kw):
    a = arr(m, it, args[0])
    if a.ndim != 1:
        raise Undecided("argsort")
    if isinstance(a.shape[0], str):
        return Arr(a.shape, [order_atom(m, it, m.topoly(it, a.c), a.shape[0])], "nd", "i")
    if len(a.cells) > 4:
        raise Undecided("argsort")
    items = [(Arr((), [c], "py", a.dt), i) for i, c in enumerate(m.pcells(it, a))]
    out = []
    for x in items:
        i = len(out)
        while i > 0 and it.truth(m.compare(it, "Lt", x[0], out[i - 1][0])):
            i -= 1
        out.insert(i, x)
    return Arr(a.shape, [const(i) for _, i in out], "nd", "i")


@np_("numpy.nonzero", "numpy.flatnonzero", "numpy.argwhere")
def _nonzero(m, it, args, kw):
    a = arr(m, it, args[0])
    if a.ndim != 1 or a.rows():
        raise Undecided("nonzero")
    keep = [i for i, c in enumerate(a.cells) if it.decide(m.tocond(it, c))]
    r = Arr((len(keep),), [const(i) for i in keep], "nd", "i")
    return (r,)


NP["numpy.flatnonzero"] = lambda m, it, a, k: _nonzero(m, it, [m.flat(it, arr(m, it, a[0]))], {})[0]


@np_("numpy.unique")
def _unique(m, it, args, kw):
    o = sig(it, ["ar", "return_index", "return_inverse", "return_counts", "axis"], args, kw, return_index=False,
            return_inverse=False, return_counts=False, axis=None)
    a = arr(m, it, o["ar"])
    extra = [k for k in ("return_index", "return_inverse", "return_counts") if o[k] is not False]
    if extra:
        if o["return_inverse"] is not False:
            raise Undecided("unique with the inverse")
        u = _unique(m, it, [a], {"axis": o["axis"]})
        if not isinstance(u.shape[0], str):
            raise Undecided("unique")
        ax, out = u.shape[0], [u]
        for k in extra:
            at = V.T.get(k[7:] + " of unique", (ax,))
            if at.info is None:
                at.info = {"int": True, "nonneg": True, "lo": 1 if k == "return_counts" else 0}
                at.rows = frozenset({ax})
            out.append(Arr((ax,), [of_atom(at)], "nd", "i"))
        return tuple(out)
    if o["axis"] is None:
        if a.ndim != 1:
            cells = m.pcells(it, a)
            raise Undecided("unique of all elements")
        r2 = Arr(a.shape + (1,), m.pcells(it, a), "nd", a.dt)
        u = uniq_rows(m, it, r2)
        return Arr((u.shape[0],), u.cells, "nd", a.dt)
    if o["axis"] != 0 or a.ndim != 2:
        raise Undecided("unique")
    u = uniq_rows(m, it, a)
    # NumPy keeps the array class (views and a final reshape)
    if isinstance(a.t, ClassV):
        r = Arr(u.shape, u.cells, a.t, u.dt)
        m.finalize(it, r, a)
        r.meta = u.meta
        return r
    return u


def uniq_rows(m, it, a):
    """Sorted distinct rows: a generic row of a data-dependent number of rows."""
    if a.meta and a.meta[0] == "uniq":
        return a
    cells = tuple(m.pcells(it, a))
    key = (a.shape, cells)
    ua = V.T.get("uniqaxis", (), key=key)
    ax = "U%d" % ua.id
    ua.info = ua.info or {"src": key}
    out = []
    d = a.shape[1]
    for j in range(d):
        at = V.T.get("uniq", (), key=key + (j,))
        if at.info is None:
            if isinstance(a.shape[0], str):
                src = [cells[j]]
            else:
                src = [cells[i * d + j] for i in range(a.shape[0])]
            at.info = {"name": "%s.%d" % (ax, j), "extra": list(cells), "col": src, "src": key, "axis": ax,
                       "D": uniq_D, "j": j}
            at.rows = frozenset({ax})
        out.append(of_atom(at))
    # at least one, at most as many rows as the source
    n = D.count_atom(ax)
    if isinstance(a.shape[0], int):
        V.T.atoms[next(iter(n.atoms()))].info["hi"] = a.shape[0]
    r = Arr((ax, d), out, "nd", a.dt)
    r.meta = ("uniq", Arr(a.shape, list(cells), "nd", a.dt))
    return r


def uniq_D(at, g):
    """Rate of change of a distinct row: that of the source row it is."""
    shape, cells = at.info["src"]
    col = at.info["col"]
    ds = [D.deriv(c, g) for c in col]
    if all(not d.t for d in ds):
        return ZERO
    me = of_atom(at)
    rs = {D.ratio(d, c) for d, c in zip(ds, col) if c.t}
    if len(rs) == 1 and None not in rs:
        return me.scale(rs.pop())
    if all(V.is_zero(d - ds[0]) for d in ds[1:]) and not (ds[0].rows() & (frozenset([shape[0]]) if isinstance(
            shape[0], str) else frozenset())) and not any(c.atoms() & ds[0].atoms() for c in col):
        return ds[0]
    # linear in the row:  d_j = sum_k M_kj x_k
    d = shape[1]
    nrow = 1 if isinstance(shape[0], str) else shape[0]
    rows = [cells[i * d:(i + 1) * d] for i in range(nrow)]
    mcol = linear_col(ds, rows)
    if mcol is not None:
        out = ZERO
        ax = at.info["axis"]
        for k, c in enumerate(mcol):
            if c:
                out = out + of_atom(V.T.get("uniq", (), key=at.info["src"] + (k,))).scale(c)
        return out
    raise D.Unk("rows")


def linear_col(ds, rows):
    """Constants M_k with ds[i] == sum_k M_k rows[i][k], or None."""
    d = len(rows[0])
    M = []
    rest = list(ds)
    for k in range(d):
        c = None
        for r, x in zip(rest, [row[k] for row in rows]):
            if not x.t:
                continue
            lead = max(x.t)
            if any(lead in row[q].t for row in rows for q in range(d) if row is not None and q != k and row[k] is x):
                return None
            v = V.qdiv(r.t.get(lead, 0), x.t[lead])
            if c is None:
                c = v
            elif c != v:
                return None
        M.append(c or Fraction(0))
    for r, row in zip(rest, rows):
        s = ZERO
        for k in range(d):
            s = s + row[k].scale(M[k])
        if not V.is_zero(r - s):
            return None
    return M


# ------------------------------------------------------------------ functional
@np_("numpy.vectorize")
def _vectorize(m, it, args, kw):
    f = args[0] if args else kw["pyfunc"]

    def call(it, a, k):
        names = list(k)
        ops = [arr(m, it, x) for x in list(a) + [k[n] for n in names]]
        shape = m.broadcast(it, [x.shape for x in ops])
        if any(s == 0 for s in shape):
            raise it.err("ValueError", "cannot call `vectorize` on size 0 inputs unless `otypes` is set")
        cols = [m.spread(x, shape) for x in ops]
        out = []
        dts = set()
        for cs in zip(*cols):
            vals = [Arr((), [c], "py", x.dt) for c, x in zip(cs, ops)]
            r = it.call(f, vals[:len(a)], dict(zip(names, vals[len(a):])))
            r = m.asnum(it, r)
            if r is None or not r.is_scalar():
                return UnkV("vectorize")
            out.append(r.c)
            dts.add(r.dt)
        import models
        dt = models.promote(*dts)
        if dt != "b":
            out = [m.topoly(it, c) for c in out]
        return m.nd(it, shape, out, dt)
    return Builtin("vectorize", call)


@np_("numpy.apply_along_axis")
def _aaa(m, it, args, kw):
    f, axis, src = args[0], args[1], args[2]
    extra = args[3:]
    a = arr(m, it, src)
    if a.ndim == 0:
        raise it.err("AxisError", "axis is out of bounds for array of dimension 0")
    if not isinstance(axis, int):
        raise Undecided("axis")
    if axis < -a.ndim or axis >= a.ndim:
        raise it.err("AxisError", "axis out of bounds")
    axis %= a.ndim
    if a.ndim == 1:
        return it.call(f, [a] + extra, kw)
    if a.ndim != 2:
        raise Undecided("apply_along_axis")
    other = a.shape[1 - axis]
    sl = []
    n = other if isinstance(other, int) else 1
    if isinstance(other, str):
        k = a if axis == 1 else m.transpose(it, a)
        rows = [m.iter_arr(it, k).elem]
    else:
        rows = [m.arr_getitem(it, a, (i, slice(None)) if axis == 1 else (slice(None), i)) for i in range(n)]
    outs = []
    for r in rows:
        v = it.call(f, [r] + extra, kw)
        if isinstance(v, UnkV):
            return UnkV("apply_along_axis")
        v = arr(m, it, v)
        outs.append(v)
    sh = outs[0].shape
    cells = [c for v in outs for c in v.cells]
    if any(v.shape != sh for v in outs):
        raise it.err("ValueError", "could not broadcast")
    import models
    dt = outs[0].dt
    r = Arr((other,) + sh, cells, "nd", dt)
    if axis == 0 and sh:
        r = m.transpose(it, r)
    return r


@np_("numpy.array_repr", "numpy.array_str", "numpy.array2string")
def _arepr(m, it, args, kw):
    it.event("repr", value=args[0])
    return "array(...)"


@np_("numpy.errstate", "numpy.printoptions")
def _errstate(m, it, args, kw):
    return UnkV("context")


@np_("numpy.seterr", "numpy.set_printoptions")
def _seterr(m, it, args, kw):
    it.event("global_write", name="numpy settings", where="np.seterr")
    return {}


@np_("numpy.isscalar")
def _isscalar(m, it, args, kw):
    x = args[0]
    if isinstance(x, UnkV):
        return UnkV("isscalar")
    return isinstance(x, (int, float, str)) or isinstance(x, Arr) and x.shape == ()


@np_("numpy.iterable")
def _iterable(m, it, args, kw):
    x = args[0]
    return isinstance(x, (list, tuple, str, dict, set, USeq, Iter, LazyGen)) or isinstance(x, Arr) and x.shape != ()


@np_("numpy.issubdtype")
def _issubdtype(m, it, args, kw):
    d = dtype_of(it, args[0])
    n = B.tname(args[1]) or ""
    n = n.replace("numpy.", "")
    tab = {"f": ("floating", "inexact", "number", "float64", "generic", "float"),
           "i": ("integer", "signedinteger", "number", "int64", "generic", "int"), "b": ("bool_", "generic", "bool"),
           "o": ("object_", "generic")}
    return n in tab[d]


@np_("numpy.result_type", "numpy.promote_types")
def _rtype(m, it, args, kw):
    import models
    dts = []
    for a in args:
        if isinstance(a, (Arr, list, tuple, int, float)):
            dts.append(arr(m, it, a).dt)
        else:
            dts.append(dtype_of(it, a))
    return OpaqueObj("dtype", models.promote(*dts))


@np_("numpy.finfo")
def _finfo(m, it, args, kw):
    o = OpaqueObj("finfo", "finfo")
    o.attrs = {"eps": 2.0 ** -52, "max": 1.7976931348623157e308, "min": -1.7976931348623157e308,
               "tiny": 2.2250738585072014e-308, "resolution": 1e-15}
    return o


@np_("numpy.ndenumerate", "numpy.nditer", "numpy.ndindex")
def _nditer(m, it, args, kw):
    raise Undecided("nditer")


@np_("numpy.copyto", "numpy.put", "numpy.place", "numpy.putmask", "numpy.fill_diagonal")
def _copyto(m, it, args, kw):
    a = args[0]
    if isinstance(a, Arr):
        src = m.asnum(it, args[1]) if len(args) > 1 and not isinstance(args[1], UnkV) else None
        if a.buf.frozen:
            it.event("write", label=a.buf.frozen, how="np.copyto")
        if src is not None and m.broadcast(it, [a.shape, src.shape]) == a.shape and not kw and len(args) == 2:
            m.store_all(it, a, src, "np.copyto")
        else:
            m.weak_store(it, a, src)
    return None


@np_("numpy.isin", "numpy.in1d", "numpy.interp", "numpy.histogram", "numpy.convolve", "numpy.polyfit", "numpy.roots",
     "numpy.poly1d", "numpy.polyval", "numpy.gradient", "numpy.fromiter", "numpy.fromfunction", "numpy.loadtxt",
     "numpy.percentile", "numpy.quantile", "numpy.tensordot", "numpy.kron", "numpy.moveaxis", "numpy.rot90",
     "numpy.tril", "numpy.triu", "numpy.cov", "numpy.corrcoef", "numpy.digitize", "numpy.searchsorted",
     "numpy.take", "numpy.choose", "numpy.select", "numpy.piecewise", "numpy.ix_", "numpy.real_if_close")
def _unm(m, it, args, kw):
    raise Undecided("function without a model")


@np_("numpy.take")
def _take(m, it, args, kw):
    o = sig(it, ["a", "indices", "axis"], args, kw, axis=None)
    a = arr(m, it, o["a"])
    ax = o["axis"]
    if ax is None:
        if a.ndim != 1:
            raise Undecided("take")
        ax = 0
    ix = o["indices"]
    ix = arr(m, it, ix) if isinstance(ix, (list, tuple)) else ix
    return m.arr_getitem(it, a, (slice(None),) * (ax % a.ndim) + (ix,))


@np_("numpy.ix_")
def _ix(m, it, args, kw):
    arrs = [arr(m, it, a) for a in args]
    n = len(arrs)
    out = []
    for i, a in enumerate(arrs):
        out.append(Arr(tuple(a.shape[0] if j == i else 1 for j in range(n)), a.cells, "nd", a.dt))
    return tuple(out)


@np_("numpy.moveaxis")
def _moveaxis(m, it, args, kw):
    a = arr(m, it, args[0])
    s, d = args[1], args[2]
    if not isinstance(s, int) or not isinstance(d, int):
        raise Undecided("moveaxis")
    order = [i for i in range(a.ndim) if i != s % a.ndim]
    order.insert(d % a.ndim, s % a.ndim)
    return m.transpose(it, a, order)
