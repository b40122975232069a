"""Abstract values of the analysed program."""
import poly as V
from poly import P, ZERO, ONE, const, of_atom


class Undecided(Exception):
    """The analysis has no model for a construct; the path gives no verdict."""


class PyExc(Exception):
    """An exception raised by the analysed program."""

    def __init__(self, name, msg="", site=None, cls=None, value=None):
        Exception.__init__(self, name, msg)
        self.name = name
        self.msg = msg
        self.site = site
        self.cls = cls
        self.value = value
        self.cause = None
        self.explicit = False   # raised by a raise statement


EXC_BASES = {
    "BaseException": None, "Exception": "BaseException", "ArithmeticError": "Exception",
    "ZeroDivisionError": "ArithmeticError", "OverflowError": "ArithmeticError",
    "FloatingPointError": "ArithmeticError", "AssertionError": "Exception",
    "AttributeError": "Exception", "ImportError": "Exception",
    "ModuleNotFoundError": "ImportError", "LookupError": "Exception",
    "IndexError": "LookupError", "KeyError": "LookupError", "NameError": "Exception",
    "UnboundLocalError": "NameError", "RuntimeError": "Exception",
    "NotImplementedError": "RuntimeError", "RecursionError": "RuntimeError",
    "StopIteration": "Exception", "TypeError": "Exception", "ValueError": "Exception",
    "UnicodeError": "ValueError", "Warning": "Exception", "UserWarning": "Warning",
    "RuntimeWarning": "Warning", "DeprecationWarning": "Warning", "OSError": "Exception",
    "MemoryError": "Exception", "KeyboardInterrupt": "BaseException",
    "SystemExit": "BaseException", "LinAlgError": "ValueError", "AxisError": "ValueError",
    "Error": "Exception",
}


def exc_isa(name, base):
    while name is not None:
        if name == base:
            return True
        name = EXC_BASES.get(name, "Exception" if name != "Exception" and name != "BaseException" else
                             ("BaseException" if name == "Exception" else None))
    return False


class Cond:
    """A truth value: kind/args hash-consed by key."""
    __slots__ = ("kind", "args", "key")

    def __init__(self, kind, *args):
        self.kind = kind
        self.args = args
        self.key = (kind,) + args

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Cond) and self.key == o.key

    def polys(self):
        out = []
        for a in self.args:
            if isinstance(a, P):
                out.append(a)
            elif isinstance(a, Cond):
                out.extend(a.polys())
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, Cond):
                        out.extend(b.polys())
                    elif isinstance(b, P):
                        out.append(b)
        return out

    def __repr__(self):
        if self.kind == "cmp":
            return "%s %s 0" % (self.args[1], self.args[0])
        return "%s(%s)" % (self.kind, ", ".join(map(str, self.args)))


TRUE = Cond("const", True)
FALSE = Cond("const", False)


def mkclose(x, y, rel, ab):
    """isclose is unchanged when both sides change sign."""
    lead = y if y.t else x
    if lead.t and lead.t[max(lead.t)] < 0:
        x, y = -x, -y
    return Cond("isclose", x, y, rel, ab)


def cnot(c):
    if c.kind == "const":
        return FALSE if c.args[0] else TRUE
    if c.kind == "not":
        return c.args[0]
    if c.kind == "cmp":
        op, p = c.args
        # with NaN operands "not (a < b)" is not "a >= b": keep the negation
        return Cond("not", c)
    return Cond("not", c)


def cand(cs):
    out = []
    for c in cs:
        if c.kind == "const":
            if not c.args[0]:
                return FALSE
            continue
        if c not in out:
            out.append(c)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return Cond("and", tuple(out))


def cor(cs):
    out = []
    for c in cs:
        if c.kind == "const":
            if c.args[0]:
                return TRUE
            continue
        if c not in out:
            out.append(c)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return Cond("or", tuple(out))


class Buf:
    """A block of memory."""
    __slots__ = ("cells", "label", "frozen", "site")

    def __init__(self, cells, label=None):
        self.cells = cells
        self.label = label
        self.frozen = None
        self.site = None


class Arr:
    """Number, boolean or array.

    shape  tuple of int (known) or str (symbolic length)
    t      'py' Python scalar, 'np' NumPy scalar, 'nd' plain ndarray, or a ClassV
    dt     'f' 'i' 'b' 'o' '?'
    """
    __slots__ = ("shape", "buf", "idx", "t", "dt", "attrs", "frozen", "label", "meta")

    def __init__(self, shape, cells, t="nd", dt="f", buf=None, idx=None):
        self.shape = shape
        self.t = t
        self.dt = dt
        if buf is None:
            buf = Buf(list(cells))
            idx = None
        self.buf = buf
        self.idx = idx
        self.attrs = None
        self.frozen = None
        self.label = None
        self.meta = None

    @property
    def cells(self):
        if self.idx is None:
            return self.buf.cells
        return [self.buf.cells[i] for i in self.idx]

    def index(self):
        return self.idx if self.idx is not None else range(len(self.buf.cells))

    @property
    def ndim(self):
        return len(self.shape)

    def eff(self):
        return tuple(s if isinstance(s, int) else 1 for s in self.shape)

    def rows(self):
        return [s for s in self.shape if not isinstance(s, int)]

    def is_scalar(self):
        return self.shape == ()

    @property
    def c(self):
        return self.buf.cells[self.idx[0] if self.idx is not None else 0]

    def __repr__(self):
        t = self.t if isinstance(self.t, str) else self.t.name
        cs = self.cells
        s = ", ".join(map(str, cs[:6])) + ("..." if len(cs) > 6 else "")
        return "<%s %s%s [%s]>" % (t, self.dt, list(self.shape), s)


def scalar(p, t="py", dt="f"):
    return Arr((), [p], t, dt)


def num(v):
    """Constant as a scalar."""
    if isinstance(v, bool):
        return Arr((), [TRUE if v else FALSE], "py", "b")
    return Arr((), [const(v)], "py", "i" if isinstance(v, int) else "f")


class ClassV:
    def __init__(self, name, bases, ns, module, node):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.module = module
        self.node = node
        self.mro = self._mro()
        self.is_array = any(isinstance(b, Ext) and b.path == "numpy.ndarray" for b in self.mro)
        self.is_exc = any(isinstance(b, ExcV) for b in self.mro)
        self.dataclass = None
        self.frozen = None

    def _mro(self):
        seqs = [list(b.mro) if isinstance(b, ClassV) else [b] for b in self.bases] + [list(self.bases)]
        out = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                return out + [x for s in seqs for x in s]
            out.append(h)
            for s in seqs:
                if s[0] is h:
                    del s[0]

    def lookup(self, name, after=None):
        mro = self.mro
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for k in mro:
            if isinstance(k, ClassV) and name in k.ns:
                return k.ns[name], k
        return None, None

    def isa(self, other):
        return other in self.mro

    def __repr__(self):
        return "<class %s>" % self.name


class ExcV:
    def __init__(self, name):
        self.name = name
        self.mro = [self]

    def __eq__(self, o):
        return isinstance(o, ExcV) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return self.name


class FuncV:
    def __init__(self, node, env, module, name, owner=None):
        self.node = node
        self.env = env
        self.module = module
        self.name = name
        self.owner = owner
        self.defaults = []
        self.kwdefaults = {}
        self.attrs = {}
        self.is_gen = False

    def __repr__(self):
        return "<function %s.%s>" % (self.module.name if self.module else "?", self.name)


class Bound:
    def __init__(self, func, self_):
        self.func = func
        self.self = self_


class Wrapped:
    """classmethod / staticmethod / property."""

    def __init__(self, kind, func, extra=None):
        self.kind = kind
        self.func = func
        self.extra = extra


class Builtin:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return "<builtin %s>" % self.name


class Ext:
    """External module / object, by dotted path."""

    def __init__(self, path):
        self.path = path
        self.mro = [self]

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(self.path)

    def __repr__(self):
        return "<ext %s>" % self.path


class ModV:
    def __init__(self, name, path, tree):
        self.name = name
        self.path = path
        self.tree = tree
        self.env = None
        self.loaded = False

    def __repr__(self):
        return "<module %s>" % self.name


class Obj:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.frozen = None
        self.label = None

    def __repr__(self):
        return "<%s %s>" % (self.cls.name, self.attrs)


class ExcObj:
    def __init__(self, name, msg, cls=None):
        self.name = name
        self.msg = msg
        self.cls = cls


class SuperV:
    def __init__(self, owner, obj):
        self.owner = owner
        self.obj = obj


class USeq:
    """Sequence of symbolic length given by a generic element."""

    def __init__(self, elem, axis, kind="list"):
        self.elem = elem
        self.axis = axis
        self.kind = kind


class UnkV:
    def __init__(self, why="", srcs=()):
        self.why = why
        self.srcs = srcs

    def __repr__(self):
        return "<unknown %s>" % self.why


class OpaqueObj:
    """An external object given to the program (an axes, a figure)."""

    def __init__(self, kind, label):
        self.kind = kind
        self.label = label
        self.attrs = {}

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.label)


class UStr(str):
    """Text of which only a part is known: it cannot be compared or looked up."""

    def _no(self, *a):
        raise Undecided("text that is only partly known")

    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __hash__ = __contains__ = _no

    def __add__(self, o):
        return UStr(str.__add__(self, o))

    def __radd__(self, o):
        return UStr(o + str(self))


def text(v, spec="", how="str"):
    """The text of a value."""
    n = v
    if isinstance(v, Arr) and v.is_scalar() and v.dt == "i" and isinstance(v.c, P) and v.c.const() is not None:
        n = int(v.c.const())
    if isinstance(n, (str, int, type(None))) and not isinstance(n, UStr):
        try:
            return format(n if how == "str" else repr(n), spec)
        except ValueError:
            pass
    if isinstance(n, str) and how == "str" and not spec:
        return n
    return UStr("{}")
