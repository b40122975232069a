"""Models of Python builtins, math, NumPy, SciPy and Matplotlib.

Each model maps abstract arguments to an abstract result and reports the facts
the checks need (which tolerance reached a comparison, what a square root is
taken of, what is written where, what is drawn).
"""
import math as _math
import itertools
from fractions import Fraction
import poly as V
from poly import P, ZERO, ONE, const, of_atom
import domains as D
from domains import NEG, ZER, POS, ANY
from values import *
import interp as I
from interp import LazyGen, Iter, SymGen

PI = None
DTO = {"b": 0, "i": 1, "f": 2, "o": 3, "?": 2}


def pi_atom():
    a = V.T.get("pi")
    if a.info is None:
        a.info = {"name": "pi"}
    return of_atom(a)


def special(name):
    a = V.T.get("special", (name,))
    if a.info is None:
        a.info = {"name": name, "nan": True}
    return of_atom(a)


def promote(*dts):
    r = "b"
    for d in dts:
        if d == "o":
            return "o"
        if DTO[d] > DTO[r]:
            r = d
    return r


def prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def is_num(v):
    return isinstance(v, (int, float)) or isinstance(v, Arr)


class Models:
    def __init__(self):
        self.builtins = {}
        self.table = {}
        import npfuncs
        npfuncs.install(self)

    # ------------------------------------------------------------ conversion
    def asnum(self, it, v):
        """Value as Arr, or None if unknown."""
        if isinstance(v, Arr):
            return v
        if isinstance(v, bool):
            return num(v)
        if isinstance(v, int):
            return num(v)
        if isinstance(v, float):
            if v != v:
                return scalar(special("nan"))
            if v in (_math.inf, -_math.inf):
                return scalar(special("inf") if v > 0 else -special("inf"))
            return num(v)
        if isinstance(v, Cond):
            return Arr((), [v], "py", "b")
        if isinstance(v, (list, tuple, range)):
            items = [self.asnum(it, x) for x in v]
            if not items:
                return Arr((0,), [], "nd", "f")
            if any(x is None for x in items):
                return None
            sh = items[0].shape
            for x in items[1:]:
                if x.shape != sh:
                    if len(x.shape) == len(sh) and any(isinstance(q, str) for q in x.shape + sh):
                        raise Undecided("stacking arrays of unrelated symbolic lengths")
                    raise it.err("ValueError", "inhomogeneous shape")
            cells = []
            for x in items:
                cells.extend(x.cells)
            dt = promote(*[x.dt for x in items])
            if dt != "b":
                cells = [self.topoly(it, c) for c in cells]
            return Arr((len(items),) + sh, cells, "nd", dt)
        if isinstance(v, USeq):
            e = self.asnum(it, v.elem)
            if e is None:
                return None
            return Arr((v.axis,) + e.shape, e.cells, "nd", e.dt)
        if isinstance(v, UnkV):
            return None
        if isinstance(v, (Iter,)):
            return None
        if isinstance(v, str):
            raise it.err("TypeError", "string operand in a numeric operation")
        if v is None:
            raise it.err("TypeError", "unsupported operand type NoneType")
        if isinstance(v, (Obj, FuncV, ClassV, Bound, dict, LazyGen, SuperV, ModV, set, slice)):
            raise it.err("TypeError", "unsupported operand type")
        return None

    def topoly(self, it, c):
        if isinstance(c, Cond):
            k = it.known(c)
            if k is None:
                if any(p.rows() for p in c.polys()):
                    return it.freshatom("indicator", c.polys(), nonneg=True, hi=1)
                k = it.decide(c)
            return ONE if k else ZERO
        return c

    def pcells(self, it, a):
        return [self.topoly(it, c) for c in a.cells]

    def tocond(self, it, c):
        return c if isinstance(c, Cond) else it.cmpc("!=", c)

    # ------------------------------------------------------------ broadcasting
    def broadcast(self, it, shapes):
        n = max(len(s) for s in shapes)
        out = []
        for i in range(n):
            dim = 1
            for s in shapes:
                j = i - (n - len(s))
                if j < 0:
                    continue
                d = s[j]
                if d == 1:
                    continue
                if dim == 1:
                    dim = d
                elif dim != d:
                    if isinstance(dim, str) or isinstance(d, str):
                        raise Undecided("broadcast of unrelated lengths %s and %s" % (dim, d))
                    raise it.err("ValueError", "operands could not be broadcast together")
            out.append(dim)
        return tuple(out)

    def spread(self, a, shape, cells=None):
        """Cells of a, broadcast to shape (flat, effective)."""
        cells = a.cells if cells is None else cells
        eff = tuple(s if isinstance(s, int) else 1 for s in shape)
        if a.shape == shape:
            return cells
        ae = a.eff()
        pad = len(eff) - len(ae)
        strides = []
        acc = 1
        for d in reversed(ae):
            strides.append(acc if d != 1 else 0)
            acc *= d
        strides = [0] * pad + strides[::-1]
        out = []
        for ix in itertools.product(*[range(d) for d in eff]):
            out.append(cells[sum(i * s for i, s in zip(ix, strides))])
        return out

    def spatial(self, args):
        for a in args:
            if isinstance(a, Arr) and isinstance(a.t, ClassV):
                return a
        return None

    def wrap(self, it, res, like):
        """Result of a NumPy operation on a spatial array (its __array_wrap__)."""
        cls = like.t
        f, _ = cls.lookup("__array_wrap__")
        if f is None:
            return self.finalize(it, Arr(res.shape, None, cls, res.dt, res.buf, res.idx), like)
        fin = not any(isinstance(c, P) and it.facts.maybe_nan(c) for c in res.cells)
        key = (cls, res.shape, res.dt, "wrap")
        if fin and key in it.wrapcache:
            t, attrs = it.wrapcache[key]
            r = Arr(res.shape, None, t, res.dt, res.buf, res.idx)
            r.attrs = dict(attrs) if attrs is not None else None
            return r
        tape = len(it.tape)
        raw = Arr(res.shape, None, cls, res.dt, res.buf, res.idx)
        self.finalize(it, raw, like)
        r = it.call(I.Bound(f, like), [raw], {})
        if isinstance(r, Arr) and fin and len(it.tape) == tape and (
                r.attrs is None or all(isinstance(x, (int, str, type(None))) for x in r.attrs.values())):
            it.wrapcache[key] = (r.t, r.attrs)
        return r

    def finalize(self, it, a, src=None):
        """Run __array_finalize__ of a new array of a spatial class."""
        if not isinstance(a.t, ClassV):
            return a
        f, _ = a.t.lookup("__array_finalize__")
        if f is None:
            return a
        key = (a.t, a.shape, "fin")
        if key in it.wrapcache:
            a.attrs = dict(it.wrapcache[key])
            return a
        a.attrs = {}
        it.call(I.Bound(f, a), [src], {})
        if all(isinstance(x, (int, str, type(None))) for x in a.attrs.values()):
            it.wrapcache[key] = dict(a.attrs)
        return a

    def view_as(self, it, a, t):
        """New array object on the same memory."""
        r = Arr(a.shape, None, t, a.dt, a.buf, a.idx)
        return self.finalize(it, r, a) if isinstance(t, ClassV) else r

    def sub(self, it, a, shape, idx, keep=True):
        """View of part of a's memory (idx: positions in a's cell list)."""
        base = a.index()
        base = list(base)
        r = Arr(shape, None, a.t if not isinstance(a.t, str) else "nd", a.dt, a.buf, [base[i] for i in idx])
        if shape == ():
            r = Arr((), [a.cells[idx[0]]], "np", a.dt)
            return r
        return self.finalize(it, r, a) if isinstance(a.t, ClassV) else r

    def nd(self, it, shape, cells, dt, t="nd"):
        if shape == ():
            return Arr((), cells, "np", dt)
        return Arr(shape, cells, "nd", dt)

    # ------------------------------------------------------------ element-wise
    def onerow(self, shape, arrs):
        """A generic row must not meet all the rows of the same array: they have one name here."""
        for d in shape:
            if isinstance(d, str):
                for x in arrs:
                    if d not in x.shape and any(isinstance(c, P) and d in c.rows() for c in x.cells):
                        raise Undecided("a row against all the rows")

    def ufunc(self, it, fn, args, dt, python=False, boolean=False, conds=False, out=None, where=None):
        """Apply fn to broadcast cells."""
        arrs = []
        for a in args:
            x = self.asnum(it, a)
            if x is None:
                if out is not None and isinstance(out, Arr):
                    self.store_all(it, out, Arr((), [it.freshatom()], "py", "f"), "out=")
                return UnkV("unknown operand", args)
            arrs.append(x)
        shape = self.broadcast(it, [x.shape for x in arrs])
        if len(arrs) > 1:
            self.onerow(shape, arrs)
        cols = [self.spread(x, shape, None if (boolean and conds) else self.pcells(it, x)) for x in arrs]
        cells = [fn(*cs) for cs in zip(*cols)]
        if dt is None:
            dt = promote(*[x.dt for x in arrs])
        if out is not None:
            if isinstance(out, tuple):
                out = out[0]
            if isinstance(out, Arr):
                self.store_all(it, out, Arr(shape, cells, "nd", dt), "out=")
                return out
        if shape == ():
            allpy = all(x.t == "py" for x in arrs)
            if boolean and dt == "b":
                return Arr((), cells, "py" if python and allpy else "np", "b")
            return Arr((), cells, "py" if python and allpy else "np", dt)
        res = Arr(shape, cells, "nd", dt)
        like = self.spatial(args)
        if like is not None and like.shape != ():
            return self.wrap(it, res, like)
        return res

    SYM = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "Pow": "**", "FloorDiv": "//", "Mod": "%",
           "MatMult": "@", "BitAnd": "&", "BitOr": "|", "BitXor": "^", "LShift": "<<", "RShift": ">>"}
    DUNDER = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__", "Pow": "__pow__",
              "FloorDiv": "__floordiv__", "Mod": "__mod__", "MatMult": "__matmul__", "BitAnd": "__and__",
              "BitOr": "__or__", "BitXor": "__xor__"}

    def binop(self, it, op, a, b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "Div": lambda: a / b,
                        "Pow": lambda: a ** b, "FloorDiv": lambda: a // b, "Mod": lambda: a % b,
                        "BitAnd": lambda: a & b, "BitOr": lambda: a | b, "BitXor": lambda: a ^ b,
                        "LShift": lambda: a << b, "RShift": lambda: a >> b}[op]()
            except ZeroDivisionError:
                raise it.err("ZeroDivisionError", "division by zero")
            except KeyError:
                raise it.err("TypeError", "unsupported operand type(s)")
            except (TypeError, OverflowError) as e:
                raise it.err(type(e).__name__, str(e))
        # user-defined operators
        d = self.DUNDER.get(op)
        for x, y, name in ((a, b, d), (b, a, d and "__r" + d[2:])):
            if d is None:
                break
            cls = x.cls if isinstance(x, Obj) else (x.t if isinstance(x, Arr) and isinstance(x.t, ClassV) else None)
            if cls is not None:
                f, _ = cls.lookup(name)
                if isinstance(f, FuncV):
                    return it.call(I.Bound(f, x), [y], {})
        if isinstance(a, UnkV) or isinstance(b, UnkV):
            return UnkV("operation on unknown", (a, b))
        if isinstance(a, (Ext, Builtin, ClassV, ExcV)) and op == "BitOr":
            return Ext("typing.Union")
        # sequences
        if op == "Add" and isinstance(a, (list, tuple, str)) and isinstance(b, (list, tuple, str)):
            if type(a) is type(b):
                return a + b
            raise it.err("TypeError", "can only concatenate same sequence types")
        if op == "Mult" and isinstance(a, (list, tuple, str)) and isinstance(b, (int,)):
            return a * b
        if op == "Mult" and isinstance(b, (list, tuple, str)) and isinstance(a, (int,)):
            return b * a
        if op == "Mod" and isinstance(a, str):
            xs = [text(x) for x in (b if isinstance(b, tuple) else (b,))]
            if not isinstance(a, UStr) and not any(isinstance(x, UStr) for x in xs) and a.replace("%s", "").replace(
                    "%d", "").count("%") == 0 and a.count("%") == len(xs):
                return a.replace("%d", "%s") % tuple(xs)
            return UStr(a)
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return {"Sub": a - b, "BitOr": a | b, "BitAnd": a & b, "BitXor": a ^ b}.get(op, UnkV("set op"))
        if isinstance(a, dict) and isinstance(b, dict) and op == "BitOr":
            return {**a, **b}
        if op == "Add" and isinstance(a, USeq) and isinstance(b, (list, USeq)):
            raise Undecided("concatenation of symbolic sequences")
        seq = (list, tuple, range, USeq)
        if isinstance(a, seq) and not (isinstance(b, Arr) and b.t != "py"):
            if op == "Mult" and isinstance(b, Arr) and b.dt == "i":
                raise Undecided("sequence repetition")
            raise it.err("TypeError", "unsupported operand type(s) for %s: sequence" % self.SYM.get(op, op))
        if isinstance(b, seq) and not (isinstance(a, Arr) and a.t != "py"):
            if op == "Mult" and isinstance(a, Arr) and a.dt == "i":
                raise Undecided("sequence repetition")
            raise it.err("TypeError", "unsupported operand type(s) for %s: sequence" % self.SYM.get(op, op))
        for x in (a, b):
            if isinstance(x, (Obj, str, dict, FuncV, ClassV, Bound, LazyGen, OpaqueObj, Builtin)) or x is None:
                if isinstance(x, OpaqueObj):
                    return UnkV("operation on an external object")
                raise it.err("TypeError", "unsupported operand type(s) for %s" % self.SYM.get(op, op))
        return self.arith(it, op, a, b, python=True)

    def arith(self, it, op, a, b, python=False, out=None):
        if op == "Add":
            return self.ufunc(it, lambda x, y: x + y, [a, b], None, python, out=out) if not self._bools(it, a, b) else \
                self.ufunc(it, lambda x, y: x + y, [a, b], "i", python, out=out)
        if op == "Sub":
            return self.ufunc(it, lambda x, y: x - y, [a, b], None, python, out=out)
        if op == "Mult":
            return self.ufunc(it, lambda x, y: x * y, [a, b], None, python, out=out)
        if op == "Div":
            return self.divide(it, a, b, python, out)
        if op == "Pow":
            return self.power(it, a, b, python, out)
        if op in ("FloorDiv", "Mod"):
            kind = "floordiv" if op == "FloorDiv" else "mod"

            def f(x, y):
                cx, cy = x.const(), y.const()
                if cx is not None and cy:
                    return const(cx // cy if kind == "floordiv" else cx % cy)
                self.divcheck(it, y, "py")
                return V.func(kind, x, y)
            r = self.ufunc(it, f, [a, b], None, python, out=out)
            if kind == "floordiv":
                it.event("floor", value=r)
            return r
        if op == "MatMult":
            return self.matmul(it, a, b)
        if op in ("BitAnd", "BitOr", "BitXor"):
            def g(x, y):
                if isinstance(x, Cond) or isinstance(y, Cond):
                    x, y = self.tocond(it, x), self.tocond(it, y)
                    if op == "BitAnd":
                        return cand([x, y])
                    if op == "BitOr":
                        return cor([x, y])
                    return cor([cand([x, cnot(y)]), cand([y, cnot(x)])])
                return it.freshatom("bitop", (x, y))
            return self.ufunc(it, g, [a, b], "b", python, boolean=True, conds=True)
        raise Undecided("operator " + op)

    def _bools(self, it, a, b):
        for x in (a, b):
            if isinstance(x, bool):
                continue
            if isinstance(x, Arr) and x.dt == "b":
                continue
            return False
        return True

    def divcheck(self, it, y, t):
        s = it.facts.signs(y)
        it.event("div", den=y, signs=s, t=t, zero=bool(s & ZER))
        return s

    def divide(self, it, a, b, python=False, out=None):
        x, y = self.asnum(it, a), self.asnum(it, b)
        if x is None or y is None:
            return UnkV("division")
        pyd = python and x.t == "py" and y.t == "py"

        def f(p, q):
            s = self.divcheck(it, q, "py" if pyd else "np")
            if not q.t or V.is_zero(q):
                if pyd:
                    raise it.err("ZeroDivisionError", "division by zero")
                return special("nan") * p if p.t else special("nan")
            return V.div(p, q)
        return self.ufunc(it, f, [a, b], "f", python, out=out)

    def power(self, it, a, b, python=False, out=None):
        x, y = self.asnum(it, a), self.asnum(it, b)
        if x is None or y is None:
            return UnkV("power")

        def f(p, q):
            c = q.const()
            pc = p.const()
            if c is not None:
                if c.denominator == 1 and abs(c) <= 12:
                    if c < 0:
                        self.divcheck(it, p, "np")
                        if not p.t:
                            return special("nan")
                    return V.ipow(p, int(c))
                if c == Fraction(1, 2):
                    self.sqrtcheck(it, p, "pow")
                    return V.sqrt(p)
                if c == Fraction(3, 2):
                    self.sqrtcheck(it, p, "pow")
                    return V.sqrt(p) * p
                if c == Fraction(-1, 2):
                    self.sqrtcheck(it, p, "pow")
                    self.divcheck(it, p, "np")
                    return V.inv(V.sqrt(p)) if p.t else special("nan")
            return V.func("pow", p, q)
        dt = None
        if y.dt == "i" and x.dt in "ib":
            dt = "i"
        return self.ufunc(it, f, [a, b], dt, python, out=out)

    def sqrtcheck(self, it, p, how):
        s = it.facts.signs(p)
        it.event("sqrt", arg=p, signs=s, how=how, neg=bool(s & NEG))
        return s

    def unop(self, it, op, v):
        if isinstance(v, (int, float)):
            return {"USub": lambda: -v, "UAdd": lambda: +v, "Invert": lambda: ~v}[op]()
        if isinstance(v, UnkV):
            return v
        if isinstance(v, (list, tuple, str, dict, Obj, USeq)) or v is None:
            if isinstance(v, Obj):
                f, _ = v.cls.lookup({"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op])
                if f is not None:
                    return it.call(I.Bound(f, v), [], {})
            raise it.err("TypeError", "bad operand type for unary operator")
        if isinstance(v, Arr):
            if op == "USub":
                return self.ufunc(it, lambda x: -x, [v], None, True)
            if op == "UAdd":
                return self.ufunc(it, lambda x: x, [v], None, True)
            if v.dt == "b":
                return self.ufunc(it, lambda c: cnot(self.tocond(it, c)), [v], "b", False, boolean=True, conds=True)
        return UnkV("unary")

    # ------------------------------------------------------------ comparison
    OPS = {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Eq": "==", "NotEq": "!="}

    def compare(self, it, op, a, b):
        if op in ("Is", "IsNot"):
            if isinstance(a, UnkV) or isinstance(b, UnkV):
                return Arr((), [Cond("unk", "is%d" % it.steps)], "py", "b")
            r = a is b or (isinstance(a, NATIVES) and isinstance(b, NATIVES) and type(a) is type(b) and a == b) \
                or (isinstance(a, (Ext, ExcV)) and a == b)
            return r if op == "Is" else not r
        if op in ("In", "NotIn"):
            r = self.contains(it, a, b)
            if isinstance(r, bool):
                return r if op == "In" else not r
            return Arr((), [r if op == "In" else cnot(r)], "py", "b")
        if isinstance(a, NATIVES) and isinstance(b, NATIVES):
            try:
                return {"Lt": lambda: a < b, "LtE": lambda: a <= b, "Gt": lambda: a > b, "GtE": lambda: a >= b,
                        "Eq": lambda: a == b, "NotEq": lambda: a != b}[op]()
            except TypeError:
                raise it.err("TypeError", "comparison not supported")
        if isinstance(a, UnkV) or isinstance(b, UnkV):
            return UnkV("comparison")
        if isinstance(a, Obj) or isinstance(b, Obj):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Obj):
                    f, _ = x.cls.lookup({"Eq": "__eq__", "NotEq": "__ne__", "Lt": "__lt__", "LtE": "__le__",
                                         "Gt": "__gt__", "GtE": "__ge__"}[op])
                    if f is not None:
                        return it.call(I.Bound(f, x), [y], {})
            if op == "Eq":
                return a is b
            if op == "NotEq":
                return a is not b
            raise it.err("TypeError", "comparison not supported")
        arrs = [x for x in (a, b) if isinstance(x, Arr)]
        if arrs and all(isinstance(x, (Arr, int, float, list, tuple)) for x in (a, b)):
            if any(isinstance(x, (list, tuple)) for x in (a, b)) and all(x.t == "py" for x in arrs):
                if op in ("Eq", "NotEq"):
                    return op == "NotEq"
                raise it.err("TypeError", "comparison not supported")
            o = self.OPS[op]

            def f(x, y):
                if isinstance(x, Cond) or isinstance(y, Cond):
                    if isinstance(x, Cond) and isinstance(y, Cond):
                        eq = cor([cand([x, y]), cand([cnot(x), cnot(y)])])
                        if o == "==":
                            return eq
                        if o == "!=":
                            return cnot(eq)
                    x, y = self.topoly(it, x), self.topoly(it, y)
                return it.cmpc(o, x - y)
            try:
                return self.ufunc(it, f, [a, b], "b", True, boolean=True, conds=True)
            except PyExc as e:
                if e.name == "ValueError" and op in ("Eq", "NotEq"):
                    return op == "NotEq"     # shape mismatch
                raise
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if op in ("Eq", "NotEq"):
                if type(a) is not type(b) or len(a) != len(b):
                    return op == "NotEq"
                cs = [it.cond_of(self.compare(it, "Eq", x, y)) for x, y in zip(a, b)]
                c = cand(cs)
                k = it.known(c)
                if k is not None:
                    return k if op == "Eq" else not k
                return Arr((), [c if op == "Eq" else cnot(c)], "py", "b")
            for x, y in zip(a, b):
                if it.truth(self.compare(it, "Eq", x, y)):
                    continue
                return self.compare(it, op, x, y)
            return {"Lt": len(a) < len(b), "LtE": len(a) <= len(b), "Gt": len(a) > len(b), "GtE": len(a) >= len(b)}[op]
        if isinstance(a, (set, dict)) and type(a) is type(b):
            try:
                return {"Eq": a == b, "NotEq": a != b}.get(op, UnkV("cmp"))
            except TypeError:
                return UnkV("cmp")
        if op in ("Eq", "NotEq") and any(isinstance(x, OpaqueObj) and x.kind == "dtype" for x in (a, b)):
            import npnum
            try:
                eq = npnum.dtype_of(it, a) == npnum.dtype_of(it, b)
            except Undecided:
                return UnkV("dtype comparison")
            return eq if op == "Eq" else not eq
        if op in ("Eq", "NotEq"):
            eq = a is b or (type(a) is type(b) and isinstance(a, (Ext, ExcV, ClassV)) and a == b)
            return eq if op == "Eq" else not eq
        raise it.err("TypeError", "comparison not supported")

    def contains(self, it, a, b):
        if isinstance(b, str):
            if isinstance(a, str):
                return a in b
            raise it.err("TypeError", "'in <string>' requires string")
        if isinstance(b, dict):
            try:
                return a in b
            except TypeError:
                raise it.err("TypeError", "unhashable type")
        if isinstance(b, (set, frozenset)):
            try:
                return a in b
            except TypeError:
                raise it.err("TypeError", "unhashable type")
        if isinstance(b, (list, tuple, range)):
            cs = []
            for x in b:
                if x is a:
                    return True
                cs.append(it.cond_of(self.compare(it, "Eq", a, x)))
            c = cor(cs)
            k = it.known(c)
            return k if k is not None else c
        if isinstance(b, (LazyGen, Iter)):
            return self.contains(it, a, it.iterate(b))
        if isinstance(b, UnkV) or isinstance(a, UnkV):
            return Cond("unk", "in%d" % it.steps)
        if isinstance(b, Arr):
            r = self.compare(it, "Eq", a, b)
            return it.cond_of(self.reduce_bool(it, r, "any"))
        if b is None or isinstance(b, (int, float, FuncV)):
            raise it.err("TypeError", "argument is not iterable")
        raise Undecided("membership")

    # ------------------------------------------------------------ reductions
    def axes_split(self, it, a, axis):
        n = a.ndim
        if axis is None:
            return list(range(n))
        if isinstance(axis, Arr):
            axis = self.intindex(it, axis)
        if isinstance(axis, int):
            axis = (axis,)
        if not isinstance(axis, (tuple, list)):
            raise Undecided("axis")
        out = []
        for x in axis:
            if not isinstance(x, int):
                raise Undecided("axis")
            if x < -n or x >= n:
                raise it.err("AxisError", "axis out of bounds")
            out.append(x % n)
        return sorted(out)

    def reduce(self, it, a, axis, comb, sym, keepdims=False, dt=None, empty=None):
        """Fold cells along axes: comb(list) for known axes, sym(p, axisname) for symbolic ones."""
        axes = self.axes_split(it, a, axis)
        cells = a.cells
        eff = a.eff()
        keep = [i for i in range(a.ndim) if i not in axes]
        groups = {}
        order = []
        for pos, ix in enumerate(itertools.product(*[range(d) for d in eff])):
            k = tuple(ix[i] for i in keep)
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append(cells[pos])
        if not keep and not groups:
            groups[()] = []
            order = [()]
        out = []
        for k in order:
            c = comb(groups[k]) if len(groups[k]) != 1 or not axes else groups[k][0]
            for i in axes:
                if isinstance(a.shape[i], str):
                    c = sym(c, a.shape[i])
            out.append(c)
        shape = tuple((1 if i in axes else a.shape[i]) for i in range(a.ndim) if keepdims or i not in axes)
        return shape, out

    def sum(self, it, a, axis=None, keepdims=False):
        cells = self.pcells(it, a)
        b = Arr(a.shape, cells, "nd", "i" if a.dt == "b" else a.dt)

        def comb(xs):
            s = ZERO
            for x in xs:
                s = s + x
            return V.simp(s)
        shape, out = self.reduce(it, b, axis, comb, lambda p, ax: D.nsum(p, ax), keepdims)
        return self.redwrap(it, Arr(shape, out, "nd", b.dt), a)

    def redwrap(self, it, res, like):
        if res.shape == ():
            return Arr((), res.cells, "np", res.dt)
        if isinstance(like, Arr) and isinstance(like.t, ClassV):
            return self.wrap(it, res, like)
        return res

    def count(self, it, a, axis=None):
        axes = self.axes_split(it, a, axis)
        n = ONE
        for i in axes:
            n = n * D.count_atom(a.shape[i])
        return n

    def mean(self, it, a, axis=None, keepdims=False):
        s = self.sum(it, a, axis, keepdims)
        n = self.count(it, a, axis)
        if n.const() == 0:
            return Arr((), [special("nan")], "np", "f")
        r = Arr(s.shape, [V.div(c, n) for c in s.cells], s.t, "f")
        r.attrs = s.attrs
        return r

    def extremum(self, it, a, axis, kind, keepdims=False):
        def comb(xs):
            r = xs[0]
            for x in xs[1:]:
                r = self.pmax(it, r, x, kind)
            return r
        b = Arr(a.shape, self.pcells(it, a), "nd", a.dt)
        if any(s == 0 for s in a.shape):
            raise it.err("ValueError", "zero-size array to reduction operation")
        shape, out = self.reduce(it, b, axis, comb, lambda p, ax: D.reduce_axis("n" + kind, p, ax), keepdims)
        return self.redwrap(it, Arr(shape, out, "nd", a.dt), a)

    def pmax(self, it, x, y, kind):
        for a, b in ((x, y), (y, x)):
            k = I.special_of(a)
            if k == "nan":
                return a
            if k == "inf" and not it.facts.maybe_nan(b):
                up = next(iter(a.t.values())) > 0
                return a if up == (kind == "max") else b
        s = it.facts.signs(x - y)
        if not s & NEG:
            return x if kind == "max" else y
        if not s & POS:
            return y if kind == "max" else x
        for u, v in ((x, y), (y, x)):
            at = u.single()
            if at is not None and at.kind == kind:
                if any(V.is_zero(w - v) for w in at.args):
                    return u
                for i in (0, 1):  # max(max(a, b), v) where v is no less than a
                    t = it.facts.signs(v - at.args[i])
                    if not t & (NEG if kind == "max" else POS):
                        return self.pmax(it, v, at.args[1 - i], kind)
        if (max(x.t) if x.t else ()) > (max(y.t) if y.t else ()):
            x, y = y, x
        if not x.t:
            x, y = y, x
        for u, c in ((x, y.const()), (y, x.const())):
            if c is None:
                continue
            if (c < 0) == (kind == "max") and V.is_zero(u * u - const(c * c)):
                return u
            at = u.single()
            if at is not None and at.kind == ("min" if kind == "max" else "max"):
                for v, k in (at.args, at.args[::-1]):
                    k = k.const()
                    if k is not None and v.const() is None and (c <= k if kind == "max" else k <= c):
                        import npnum
                        return npnum.clipv(it, v, const(min(c, k)), const(max(c, k)))
        return V.func(kind, x, y)

    def reduce_bool(self, it, a, how, axis=None, keepdims=False):
        if isinstance(a, UnkV):
            return a
        a = self.asnum(it, a)
        if a is None:
            return UnkV("bool reduction")
        cells = [self.tocond(it, c) for c in a.cells]
        b = Arr(a.shape, cells, "nd", "b")
        f = cand if how == "all" else cor

        def sym(c, ax):
            if not any(ax in p.rows() for p in c.polys()):
                return c
            if c.kind == "const":
                return c
            return Cond("nall" if how == "all" else "nany", c, ax)
        shape, out = self.reduce(it, b, axis, f, sym, keepdims)
        return self.redwrap(it, Arr(shape, out, "nd", "b"), a) if shape != () else Arr((), out, "np", "b")

    # ------------------------------------------------------------ products
    def matmul(self, it, a, b):
        x, y = self.asnum(it, a), self.asnum(it, b)
        if x is None or y is None:
            return UnkV("matmul")
        if x.is_scalar() or y.is_scalar():
            raise it.err("ValueError", "matmul: scalar operand")
        r = self.dot_arr(it, x, y)
        like = self.spatial([a, b])
        if like is not None and r.shape != ():
            return self.wrap(it, r, like)
        return r

    def dot(self, it, a, b):
        x, y = self.asnum(it, a), self.asnum(it, b)
        if x is None or y is None:
            return UnkV("dot")
        if x.is_scalar() or y.is_scalar():
            return self.arith(it, "Mult", x, y)
        r = self.dot_arr(it, x, y)
        if r.shape != () and isinstance(x.t, ClassV):
            return self.view_as(it, r, x.t)
        return r

    def dot_arr(self, it, x, y):
        self.onerow(x.shape + y.shape, (x, y))
        xc, yc = self.pcells(it, x), self.pcells(it, y)
        k = x.shape[-1]
        ky = y.shape[-2] if y.ndim >= 2 else y.shape[0]
        if k != ky:
            if isinstance(k, str) or isinstance(ky, str):
                raise Undecided("product of unrelated lengths")
            raise it.err("ValueError", "shapes not aligned")
        kn = k if isinstance(k, int) else 1
        if x.ndim > 2 or y.ndim > 2:
            raise Undecided("product of 3-D arrays")
        xr = xc if x.ndim == 1 else None
        rx = 1 if x.ndim == 1 else x.eff()[0]
        ry = 1 if y.ndim == 1 else y.eff()[1]
        out = []
        for i in range(rx):
            for j in range(ry):
                s = ZERO
                for m in range(kn):
                    p = xc[i * kn + m] if x.ndim == 2 else xc[m]
                    q = yc[m * ry + j] if y.ndim == 2 else yc[m]
                    s = s + p * q
                if isinstance(k, str):
                    s = D.nsum(s, k)
                out.append(V.simp(s))
        shape = ((x.shape[0],) if x.ndim == 2 else ()) + ((y.shape[1],) if y.ndim == 2 else ())
        dt = promote(x.dt, y.dt)
        return self.nd(it, shape, out, dt)

    # ------------------------------------------------------------ shape
    def dim(self, it, v):
        """A length given as a value: int or symbolic axis name."""
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, Arr) and v.is_scalar():
            p = v.c
            if isinstance(p, P):
                c = p.const()
                if c is not None and c.denominator == 1:
                    return int(c)
                s = p.single()
                if s is not None and s.kind == "N":
                    return s.args[0]
        if isinstance(v, float):
            raise it.err("TypeError", "'float' object cannot be interpreted as an integer")
        if v is None or isinstance(v, (str, Obj)):
            raise it.err("TypeError", "cannot be interpreted as an integer")
        raise Undecided("array length")

    def shape_arg(self, it, v):
        if isinstance(v, (tuple, list)):
            return tuple(self.dim(it, x) for x in v)
        return (self.dim(it, v),)

    def shape_val(self, s):
        if isinstance(s, int):
            return s
        return Arr((), [D.count_atom(s)], "py", "i")

    def reshape(self, it, a, shape):
        if isinstance(shape, (tuple, list)) and len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = shape[0]
        dims = []
        for v in (shape if isinstance(shape, (tuple, list)) else (shape,)):
            dims.append(self.dim(it, v))
        src_sym = a.rows()
        tot = prod(a.eff())
        dst_sym = [d for d in dims if isinstance(d, str)]
        if -1 in dims:
            known = prod(d for d in dims if isinstance(d, int) and d != -1)
            missing = list(src_sym)
            for d in dst_sym:
                if d in missing:
                    missing.remove(d)
                else:
                    raise Undecided("reshape")
            if known == 0 or tot % known:
                raise it.err("ValueError", "cannot reshape array")
            q = tot // known
            if missing:
                if len(missing) > 1:
                    raise Undecided("reshape")
                if q != 1:
                    if len(dims) == 1:
                        return self.flat(it, a)
                    raise Undecided("reshape")
                dims[dims.index(-1)] = missing[0]
            else:
                dims[dims.index(-1)] = q
        else:
            if sorted(dst_sym) != sorted(src_sym) or prod(d for d in dims if isinstance(d, int)) != tot:
                if src_sym or dst_sym:
                    raise Undecided("reshape")
                raise it.err("ValueError", "cannot reshape array")
        if len(src_sym) > 1:
            raise Undecided("reshape of several symbolic axes")
        if src_sym:
            # element order is preserved only if the symbolic axis keeps its place
            # among the known axes of length > 1
            i0 = a.shape.index(src_sym[0])
            j0 = dims.index(src_sym[0])
            if prod(x for x in a.shape[:i0] if isinstance(x, int)) != prod(x for x in dims[:j0] if isinstance(x, int)):
                raise Undecided("reshape across a symbolic axis")
        r = Arr(tuple(dims), None, a.t, a.dt, a.buf, a.idx)
        if a.is_scalar():
            r = Arr(tuple(dims), a.cells, "nd", a.dt)
        return self.finalize(it, r, a) if isinstance(r.t, ClassV) else r

    def flat(self, it, a):
        """1-D view/copy of all the elements."""
        if len(a.rows()) == 0:
            return Arr((len(a.cells),), a.cells, "nd", a.dt)
        if len(a.rows()) == 1 and prod(a.eff()) == 1:
            return Arr((a.rows()[0],), a.cells, "nd", a.dt)
        # several cells per row: one generic element of a longer axis
        ax = "*".join(map(str, a.shape))
        cells = [self.topoly(it, c) for c in a.cells]
        e = it.freshatom("flat", cells)
        at = V.T.atoms[next(iter(e.atoms()))]
        at.rows = frozenset({ax})
        return Arr((ax,), [e], "nd", a.dt)

    def transpose(self, it, a, axes=None):
        n = a.ndim
        if n < 2:
            return a
        if axes is None:
            axes = list(range(n))[::-1]
        eff = a.eff()
        strides = [prod(eff[i + 1:]) for i in range(n)]
        ne = [eff[i] for i in axes]
        idx = []
        for ix in itertools.product(*[range(d) for d in ne]):
            idx.append(sum(ix[k] * strides[axes[k]] for k in range(n)))
        return self.sub(it, a, tuple(a.shape[i] for i in axes), idx)

    # ------------------------------------------------------------ indexing
    def intindex(self, it, k, axis=None):
        if isinstance(k, Arr):
            if k.is_scalar() and k.dt in "ib":
                c = k.c
                if isinstance(c, Cond):
                    kk = it.known(c)
                    return int(it.decide(c)) if kk is None else int(kk)
                cc = c.const()
                if cc is not None and cc.denominator == 1:
                    return int(cc)
                return k
            if k.is_scalar() and k.dt == "f":
                raise it.err("IndexError", "only integers are valid indices")
            return k
        if isinstance(k, slice):
            def conv(x):
                x = self.intindex(it, x) if x is not None else None
                if x is None or isinstance(x, int):
                    return x
                if isinstance(x, float):
                    raise it.err("TypeError", "slice indices must be integers")
                if isinstance(x, Arr) and axis is not None:
                    return x.c
                raise Undecided("slice bound")
            return slice(conv(k.start), conv(k.stop), conv(k.step))
        return k

    def row_inst(self, it, v, axis, tag):
        """Value of a particular row."""
        if isinstance(v, Arr):
            pred = lambda at: axis in at.rows
            cells = []
            for c in v.cells:
                if isinstance(c, Cond):
                    raise Undecided("row of a boolean array")
                cells.append(D.rename(c, tag, pred))
            r = Arr(v.shape, cells, v.t, v.dt)
            r.attrs = dict(v.attrs) if v.attrs else v.attrs
            for c in cells:
                for i in c.atoms():
                    at = V.T.atoms[i]
                    if tag[0] == "perm" and at.kind == "ren" and at.args[1] == tag:
                        at.rows = at.info["base"].rows
            return r
        if isinstance(v, (list, tuple)):
            return type(v)(self.row_inst(it, x, axis, tag) for x in v)
        raise Undecided("row")

    def arr_getitem(self, it, a, k):
        if not isinstance(k, tuple):
            k = (k,)
        k = tuple(self.intindex(it, x, a.shape[0] if i == 0 and a.shape and isinstance(a.shape[0], str) else None)
                  for i, x in enumerate(k))
        if any(isinstance(x, UnkV) for x in k):
            return UnkV("index")
        if any(isinstance(x, (str, float)) for x in k):
            raise it.err("IndexError", "only integers, slices, ... are valid indices")
        if any(isinstance(x, (Obj, FuncV)) for x in k):
            raise it.err("IndexError", "invalid index")
        nreal = sum(1 for x in k if x is not None and x is not Ellipsis)
        if Ellipsis in [x for x in k if not isinstance(x, Arr)]:
            i = [j for j, x in enumerate(k) if x is Ellipsis][0]
            k = k[:i] + (slice(None),) * (a.ndim - nreal) + k[i + 1:]
        else:
            k = k + (slice(None),) * (a.ndim - nreal)
        if sum(1 for x in k if x is not None) > a.ndim:
            raise it.err("IndexError", "too many indices for array")
        # boolean masks
        for x in k:
            if isinstance(x, Arr) and x.dt == "b" and not x.is_scalar():
                return self.mask_index(it, a, k)
        adv = [x for x in k if isinstance(x, (Arr, list)) and not (isinstance(x, Arr) and x.is_scalar())]
        if adv:
            return self.fancy(it, a, k)
        eff = a.eff()
        strides = [prod(eff[i + 1:]) for i in range(a.ndim)]
        sel = []      # per output axis: list of offsets
        shape = []
        ax = 0
        base = [0]
        picks = []
        renames = []
        for x in k:
            if x is None:
                shape.append(1)
                sel.append([0])
                continue
            d = a.shape[ax]
            if isinstance(x, bool):
                raise Undecided("boolean index")
            if isinstance(x, int):
                if isinstance(d, str):
                    renames.append((d, ("row", x)))
                    sel.append(None)
                else:
                    if x < -d or x >= d:
                        raise it.err("IndexError", "index %d is out of bounds for axis of size %d" % (x, d))
                    base[0] += (x % d) * strides[ax]
                    sel.append(None)
            elif isinstance(x, Arr):      # symbolic integer
                if isinstance(d, str):
                    tag = self.row_tag(it, x.c, d)
                    if tag is not None:
                        renames.append((d, tag))
                    sel.append(None)
                else:
                    picks.append((ax, x.c))
                    sel.append([j * strides[ax] for j in range(d)])
                    shape.append(("pick", d, x.c))
            elif isinstance(x, slice):
                if isinstance(d, str):
                    if x == slice(None):
                        shape.append(d)
                        sel.append([0])
                    elif x.start is None and x.stop is None and x.step == -1:
                        nd = d
                        renames.append((d, ("perm", "rev")))
                        shape.append(d)
                        sel.append([0])
                    else:
                        nd = "%s[%s]" % (d, "%s:%s:%s" % (x.start, x.stop, x.step))
                        V.T.axes[nd] = ("slice", d, x.start, x.stop, x.step)
                        renames.append((d, ("ax", nd)))
                        shape.append(nd)
                        sel.append([0])
                else:
                    r = range(*x.indices(d))
                    shape.append(len(r))
                    sel.append([j * strides[ax] for j in r])
            else:
                raise Undecided("index")
            ax += 1
        offs = [base[0]]
        for s in sel:
            if s is None:
                continue
            offs = [o + j for o in offs for j in s]
        if any(isinstance(s, tuple) for s in shape):
            # selection by a symbolic integer
            cells = [self.topoly(it, a.cells[o]) for o in offs]
            dims = [s[1] if isinstance(s, tuple) else (s if isinstance(s, int) else 1) for s in shape]
            which = [i for i, s in enumerate(shape) if isinstance(s, tuple)]
            if len(which) > 1:
                raise Undecided("index")
            w = which[0]
            out = []
            others = [range(dims[i]) if i != w else range(1) for i in range(len(dims))]
            st = [prod(dims[i + 1:]) for i in range(len(dims))]
            for ix in itertools.product(*others):
                o = sum(i * s for i, s in zip(ix, st))
                cs = tuple(cells[o + j * st[w]] for j in range(dims[w]))
                out.append(of_atom(self.pick(shape[w][2], cs)))
            nshape = tuple(s for s in shape if not isinstance(s, tuple))
            r = Arr(nshape, out, a.t if nshape != () and not isinstance(a.t, str) else ("nd" if nshape else "np"), a.dt)
            return self.finalize(it, r, a) if isinstance(r.t, ClassV) else r
        r = self.sub(it, a, tuple(shape), offs)
        if renames:
            r = Arr(r.shape, r.cells, r.t, r.dt)
            if isinstance(r.t, ClassV):
                self.finalize(it, r, a)
            for d, tag in renames:
                cells = []
                for c in r.cells:
                    if isinstance(c, Cond):
                        c = self.rename_cond(it, c, d, tag)
                    else:
                        c = D.rename(c, tag, (lambda dd: (lambda at: dd in at.rows))(d))
                        if tag[0] == "ax":
                            self.set_rows(c, tag, d)
                        elif tag[0] in ("perm", "sel"):
                            self.keep_rows(c, tag)
                    cells.append(c)
                r.buf.cells[:] = cells
            # a view for the purpose of aliasing
            r.buf.label = a.buf.label
            if a.buf.frozen:
                r.buf.frozen = a.buf.frozen
        return r

    def row_tag(self, it, x, d):
        """The row of axis d that a symbolic number selects: a fixed one, or one that depends on the generic row."""
        if d not in x.rows():
            return ("row", x)
        i = self.iota(d)
        if x == i:
            return None
        at = x.single()
        if at is not None and at.kind == "mod" and at.args[1] == D.count_atom(d):
            x = at.args[0]
            if (x - i).const() is not None or (x + i).const() is not None:
                return ("perm", x)
        for off, least in ((x - i, 0), (x + i, 0), (x + i - D.count_atom(d), -1)):
            if off.const() is not None and d not in off.rows():
                if off.const() > least:
                    raise Undecided("index past the end")
                return ("perm", x)
        return ("sel", x)

    def keep_rows(self, p, tag):
        for i in p.atoms():
            at = V.T.atoms[i]
            if at.kind == "ren" and at.args[1] == tag:
                at.rows = at.info["base"].rows
        p._rows = None

    def set_rows(self, p, tag, d):
        for i in p.atoms():
            at = V.T.atoms[i]
            if at.kind == "ren" and at.args[1] == tag:
                at.rows = (at.info["base"].rows - {d}) | {tag[1]}
        p._rows = None

    def rename_cond(self, it, c, d, tag):
        raise Undecided("row of a boolean array")

    def pick(self, idx, cells):
        a = V.T.get("pick", (idx,) + cells)
        return a

    def mask_index(self, it, a, k):
        m = [x for x in k if isinstance(x, Arr) and x.dt == "b"][0]
        ax = [i for i, x in enumerate(k) if x is m][0]
        if m.ndim != 1 or any(not (isinstance(x, slice) and x == slice(None)) for x in k if x is not m):
            raise Undecided("boolean mask")
        if isinstance(m.shape[0], int):
            keep = [j for j, c in enumerate(m.cells) if it.decide(self.tocond(it, c))]
            return self.fancy(it, a, tuple(Arr((len(keep),), [const(j) for j in keep], "nd", "i") if x is m else x for x in k))
        d = a.shape[ax]
        nd = "%s[mask%d]" % (d, V.T.get("mask", (), key=(d, m.cells[0])).id)
        V.T.axes[nd] = ("mask", d, m.cells[0])
        tag = ("ax", nd)
        r = Arr(tuple(nd if i == ax else s for i, s in enumerate(a.shape)), None, a.t, a.dt, Buf(list(a.cells)), None)
        cells = []
        for c in r.cells:
            c = D.rename(c, tag, lambda at: d in at.rows)
            self.set_rows(c, tag, d)
            cells.append(c)
        r.buf.cells[:] = cells
        # the selection may be empty
        return self.finalize(it, r, a) if isinstance(r.t, ClassV) else r

    def fancy(self, it, a, k):
        ks = []
        for x in k:
            if isinstance(x, list):
                x = self.asnum(it, x)
                if x is None:
                    return UnkV("index")
            ks.append(x)
        if None in [x for x in ks if not isinstance(x, Arr)]:
            raise Undecided("newaxis with fancy indexing")
        arrs = [x for x in ks if isinstance(x, Arr)]
        for x in arrs:
            if any(not isinstance(s, int) for s in x.shape) or any(
                    not isinstance(c, P) or c.const() is None for c in x.cells):
                return self.fancy_sym(it, a, ks)
        bshape = self.broadcast(it, [x.shape for x in arrs] + [()])
        # adjacent advanced indices (ints mixed in count as advanced)
        ints = [isinstance(x, int) for x in ks]
        pos = [i for i, x in enumerate(ks) if isinstance(x, Arr) or isinstance(x, int)]
        contiguous = pos == list(range(pos[0], pos[-1] + 1))
        eff = a.eff()
        strides = [prod(eff[i + 1:]) for i in range(a.ndim)]
        advoff = [0] * prod(bshape)
        for i in pos:
            d = a.shape[i]
            if isinstance(d, str):
                return self.fancy_sym(it, a, ks)
            x = ks[i]
            vals = [const(x)] * prod(bshape) if isinstance(x, int) else self.spread(x, bshape)
            for j, v in enumerate(vals):
                n = int(v.const())
                if n < -d or n >= d:
                    raise it.err("IndexError", "index out of bounds")
                advoff[j] += (n % d) * strides[i]
        pre, post = [], []
        for i, x in enumerate(ks):
            if i in pos:
                continue
            d = a.shape[i]
            if isinstance(d, str):
                if x != slice(None):
                    raise Undecided("index")
                e = (d, [0])
            else:
                r = range(*x.indices(d))
                e = (len(r), [j * strides[i] for j in r])
            (pre if contiguous and i < pos[0] else post).append(e)
        offs = [0]
        for d, s in pre:
            offs = [o + j for o in offs for j in s]
        offs = [o + j for o in offs for j in advoff]
        for d, s in post:
            offs = [o + j for o in offs for j in s]
        shape = tuple(d for d, _ in pre) + bshape + tuple(d for d, _ in post)
        cells = [a.cells[o] for o in offs]
        if shape == ():
            return Arr((), cells, "np", a.dt)
        r = Arr(shape, cells, a.t if not isinstance(a.t, str) else "nd", a.dt)
        return self.finalize(it, r, a) if isinstance(r.t, ClassV) else r

    def fancy_sym(self, it, a, ks):
        """Rows of a selected by computed indices: a permuted/selected copy."""
        if not isinstance(ks[0], Arr) or any(not (isinstance(x, slice) and x == slice(None)) for x in ks[1:]):
            raise Undecided("fancy index")
        ix = ks[0]
        d = a.shape[0]
        if not isinstance(d, str) or ix.ndim != 1:
            cs = [self.topoly(it, c) for c in a.cells]
            shape = ix.shape + a.shape[1:]
            cells = [it.freshatom("select", cs) for _ in range(prod(s if isinstance(s, int) else 1 for s in shape))]
            r = Arr(shape, cells, a.t if not isinstance(a.t, str) else "nd", a.dt)
            return self.finalize(it, r, a) if isinstance(r.t, ClassV) else r
        if ix.shape[0] == d:
            info = ix.c.single()
            perm = info is not None and info.kind in ("argsort",)
            off = ix.c - self.iota(d)
            if off.const() is not None:
                perm = True        # cyclic shift (negative indices wrap)
            tag = ("perm" if perm else "sel", ix.c)
            cells = [D.rename(c, tag, lambda at: d in at.rows and at.kind != "iota") for c in a.cells]
            for c in cells:
                for i in c.atoms():
                    at = V.T.atoms[i]
                    if at.kind == "ren" and at.args[1] == tag:
                        at.rows = at.info["base"].rows
            r = Arr(a.shape, cells, a.t, a.dt)
            return self.finalize(it, r, a) if isinstance(r.t, ClassV) else r
        raise Undecided("fancy index")

    def iota(self, axis):
        a = V.T.get("iota", (axis,))
        if a.info is None:
            a.info = {"name": "i", "int": True, "nonneg": True, "lo": 0}
            a.rows = frozenset({axis})
        return of_atom(a)

    def arr_setitem(self, it, a, k, v):
        if a.is_scalar():
            raise it.err("TypeError", "object does not support item assignment")
        if a.buf.frozen:
            it.event("write", label=a.buf.frozen, how="item assignment")
            if a.buf.frozen.startswith(I.STATE):
                it.dirty = True
        kk = k if isinstance(k, tuple) else (k,)
        kk = tuple(self.intindex(it, x) for x in kk)
        src = self.asnum(it, v)
        # mask or symbolic index: weak update
        weak = any(isinstance(x, Arr) for x in kk) or any(isinstance(s, str) for s in a.shape)
        if any(isinstance(x, Arr) and x.dt == "b" for x in kk) or any(
                isinstance(x, Arr) and (not isinstance(x.cells[0], P) or x.cells[0].const() is None) for x in kk):
            self.weak_store(it, a, src)
            return
        marker = Arr(a.shape, [const(i) for i in range(len(a.cells))], "nd", "i")
        sel = self.arr_getitem(it, marker, kk if len(kk) > 1 else kk[0])
        if any(isinstance(s, str) and not (isinstance(x, slice) and x == slice(None))
               for s, x in zip(a.shape, kk + (slice(None),) * a.ndim)):
            self.weak_store(it, a, src)
            return
        pos = [int(c.const()) for c in sel.cells]
        idx = list(a.index())
        if src is None:
            for i in pos:
                a.buf.cells[idx[i]] = it.freshatom()
            return
        shp = sel.shape
        if prod(x if isinstance(x, int) else 1 for x in self.broadcast(it, [shp, src.shape])) != len(pos):
            raise it.err("ValueError", "could not broadcast input array")
        vals = self.spread(src, shp)
        for i, c in zip(pos, vals):
            a.buf.cells[idx[i]] = self.coerce(it, c, src.dt, a.dt)

    def weak_store(self, it, a, src):
        deps = [c for c in a.cells if isinstance(c, P)]
        if src is not None:
            deps += [c for c in src.cells if isinstance(c, P)]
            if a.dt == "i" and src.dt == "f":
                it.event("truncate", how="assignment into an integer array")
        for i in a.index():
            a.buf.cells[i] = it.freshatom("opaque", deps)

    def coerce(self, it, c, src, dst):
        if dst == "b":
            return self.tocond(it, c)
        c = self.topoly(it, c)
        if dst == "i" and src == "f":
            if c.const() is not None and c.const().denominator == 1:
                return c
            it.event("truncate", how="float stored in an integer array")
            return self.trunc(it, c)
        return c

    def trunc(self, it, c):
        s = c.single()
        if s is not None and s.kind in ("sign", "N", "rank", "trunc", "iota", "nargm"):
            return c
        k = c.const()
        if k is not None:
            return const(int(k))
        if V.whole(c):
            return c
        a = V.T.get("trunc", (c,))
        if a.info is None:
            a.info = {"int": True}
        return of_atom(a)

    def store_all(self, it, a, r, how):
        """Write all of r into a's memory."""
        if a.buf.frozen:
            it.event("write", label=a.buf.frozen, how=how)
            if a.buf.frozen.startswith(I.STATE):
                it.dirty = True
        if a.dt == "i" and r.dt == "f" and "in-place" in how:
            raise it.err("TypeError", "cannot cast ufunc output from float64 to int64")
        vals = self.spread(r, a.shape) if r.shape != a.shape else r.cells
        if len(vals) != len(a.cells):
            raise it.err("ValueError", "non-broadcastable output operand")
        for i, c in zip(a.index(), vals):
            a.buf.cells[i] = self.coerce(it, c, r.dt, a.dt)

    def iter_arr(self, it, a):
        d = a.shape[0]
        if isinstance(d, str):
            r = self.sub(it, a, a.shape[1:], list(range(len(a.cells))))
            return USeq(r, d)
        return [self.arr_getitem(it, a, i) for i in range(d)]

    # ------------------------------------------------------------ delegated
    def ext(self, it, path):
        import npfuncs
        return npfuncs.ext(self, it, path)

    def call_ext(self, it, path, args, kw):
        import npfuncs
        return npfuncs.call_ext(self, it, path, args, kw)

    def arr_attr(self, it, a, name):
        import npfuncs
        return npfuncs.arr_attr(self, it, a, name)

    def ndarray_unbound(self, it, name):
        def f(it, args, kw):
            import npfuncs
            if name == "__new__":
                raise Undecided("ndarray.__new__")
            if not args:
                raise it.err("TypeError", "missing self")
            a = self.asnum(it, args[0])
            return it.call(npfuncs.arr_attr(self, it, a, name), args[1:], kw)
        return Builtin("ndarray." + name, f)

    def native_attr(self, it, o, name):
        import npfuncs
        return npfuncs.native_attr(self, it, o, name)

    def builtin_attr(self, it, o, name):
        import npfuncs
        return npfuncs.builtin_attr(self, it, o, name)

    def opaque_attr(self, it, o, name):
        import npfuncs
        return npfuncs.opaque_attr(self, it, o, name)

    def opaque_call(self, it, o, args, kw):
        import npfuncs
        return npfuncs.opaque_call(self, it, o, args, kw)

    def opaque_item(self, it, o, k):
        return OpaqueObj("item", o.label + "[]")


NATIVES = (int, float, str, bytes, type(None), bool)
