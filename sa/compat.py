"""What every supported Python (requires-python and up) and NumPy has: names, arguments and syntax by version."""
import ast
import re

# first version (minor of Python 3) of names the standard library gained
STDLIB = {
    "math": {"cbrt": 11, "exp2": 11, "sumprod": 12, "fma": 13, "lcm": 9, "nextafter": 9, "ulp": 9},
    "itertools": {"pairwise": 10, "batched": 12},
    "functools": {"cache": 9},
    "operator": {"call": 11},
    "statistics": {"correlation": 10, "covariance": 10, "linear_regression": 10, "kde": 13, "fmean": 8},
    "typing": {"Annotated": 9, "get_annotations": 14, "Concatenate": 10, "ParamSpec": 10, "ParamSpecArgs": 10, "ParamSpecKwargs": 10,
               "TypeAlias": 10, "TypeGuard": 10, "is_typeddict": 10, "Self": 11, "Never": 11, "LiteralString": 11, "NotRequired": 11,
               "Required": 11, "TypeVarTuple": 11, "Unpack": 11, "assert_never": 11, "assert_type": 11, "reveal_type": 11,
               "dataclass_transform": 11, "get_overloads": 11, "clear_overloads": 11, "override": 12, "TypeAliasType": 12,
               "get_protocol_members": 13, "is_protocol": 13, "NoDefault": 13, "TypeIs": 13, "ReadOnly": 13},
    "types": {"UnionType": 10, "NoneType": 10, "EllipsisType": 10, "NotImplementedType": 10, "GenericAlias": 9, "get_original_bases": 12},
    "inspect": {"get_annotations": 10, "signature_from_str": 99},
    "random": {"randbytes": 9, "binomialvariate": 12},
    "contextlib": {"aclosing": 10, "chdir": 11},
    "enum": {"StrEnum": 11, "verify": 11, "member": 11, "nonmember": 11, "global_enum": 11, "EnumType": 11},
    "dataclasses": {"KW_ONLY": 10},
    "collections": {},
    "bisect": {}, "copy": {"replace": 13}, "warnings": {"deprecated": 13},
}
MODULES = {"zoneinfo": 9, "graphlib": 9, "tomllib": 11}
REMOVED_MODULES = {"distutils": 12, "imp": 12, "asynchat": 12, "asyncore": 12, "cgi": 13, "crypt": 13, "pipes": 13}
REMOVED = {"collections": {n: 10 for n in ("Iterable", "Sequence", "Mapping", "Callable", "Iterator", "Sized", "Container", "Hashable",
                                           "MutableMapping", "MutableSequence", "Set", "Generator", "Collection", "Reversible")},
           "typing": {"io": 13, "re": 13}, "math": {}, "inspect": {"getargspec": 11, "formatargspec": 11}, "fractions": {"gcd": 9}}
# str/bytes/int methods and keywords by the version that brought them
METHODS = {"removeprefix": 9, "removesuffix": 9, "bit_count": 10}
KEYWORDS = {("zip", "strict"): 10, ("map", "strict"): 14, ("bisect", "key"): 10, ("bisect_left", "key"): 10, ("bisect_right", "key"): 10,
            ("insort", "key"): 10, ("dataclass", "slots"): 10, ("dataclass", "kw_only"): 10, ("dataclass", "weakref_slot"): 11,
            ("field", "kw_only"): 10, ("random.sample", "counts"): 9, ("open", "encoding_errors"): 99}
GENERIC = {"list", "dict", "tuple", "set", "frozenset", "type", "deque", "defaultdict", "OrderedDict", "Counter", "ChainMap"}
ABC = {"Callable", "Iterable", "Iterator", "Sequence", "Mapping", "MutableMapping", "MutableSequence", "Collection", "Generator", "Set", "Container"}
# NumPy names that NumPy 2 (or the deprecations before it) took away, and the replacement
NUMPY_GONE = set("""float_ complex_ longfloat singlecomplex cfloat longcomplex clongfloat string_ unicode_ NaN Inf Infinity infty PINF NINF PZERO NZERO
    NAN alltrue sometrue product cumproduct round_ asfarray mat cast source lookfor who fastCopyAndTranspose set_numeric_ops safe_eval
    find_common_type issubclass_ issubsctype maximum_sctype obj2sctype sctype2char sctypes set_string_function tracemalloc_domain recfromcsv
    recfromtxt nbytes deprecate deprecate_with_doc disp byte_bounds compare_chararrays add_docstring add_newdoc add_newdoc_ufunc DataSource
    geterrobj seterrobj int float object str complex unicode in1d_ row_stack trapz_ msort oldnumeric rank asscalar loads typeDict typeNA
    cross_ compat chararray_ float96_ """.split()) - {"in1d_", "trapz_", "cross_", "chararray_", "float96_"}
NUMPY_NEW = {"1.20": {"broadcast_shapes"}, "1.25": {"exceptions"}, "2.0": set("""acos acosh asin asinh atan atanh atan2 concat permute_dims pow matrix_transpose isdtype unique_all unique_counts
    unique_inverse unique_values bitwise_invert bitwise_left_shift bitwise_right_shift bool long ulong astype vecdot trapezoid""".split()),
    "2.1": {"cumulative_sum", "cumulative_prod", "unstack"}, "2.2": {"matvec", "vecmat"}}
LINALG_NEW = {"2.0": set("cross diagonal matmul matrix_norm matrix_transpose outer svdvals tensordot trace vecdot vector_norm".split())}
NUMPY_KEYWORDS = {("matrix_rank", "rtol"): "2.0", ("pinv", "rtol"): "2.0", ("reshape", "shape"): "2.1", ("reshape", "copy"): "2.1",
                  ("asarray", "copy"): "2.0", ("asarray", "device"): "2.0", ("array", "device"): "2.0", ("unique", "sorted"): "2.3",
                  ("std", "correction"): "2.0", ("var", "correction"): "2.0", ("std", "mean"): "2.0", ("var", "mean"): "2.0",
                  ("stack", "dtype"): "1.24", ("stack", "casting"): "1.24", ("vstack", "dtype"): "1.24", ("vstack", "casting"): "1.24",
                  ("hstack", "dtype"): "1.24", ("hstack", "casting"): "1.24", ("concatenate", "dtype"): "1.20",
                  ("concatenate", "casting"): "1.20", ("mean", "where"): "1.20", ("std", "where"): "1.20", ("var", "where"): "1.20",
                  ("all", "where"): "1.20", ("any", "where"): "1.20", ("unique", "equal_nan"): "1.24",
                  ("array_equal", "equal_nan"): "1.19", ("percentile", "method"): "1.22", ("quantile", "method"): "1.22",
                  ("median", "method"): "1.22", ("zeros", "like"): "1.20", ("ones", "like"): "1.20", ("empty", "like"): "1.20",
                  ("full", "like"): "1.20", ("array", "like"): "1.20", ("asarray", "like"): "1.20", ("eye", "like"): "1.20",
                  ("identity", "like"): "1.20", ("arange", "like"): "1.20", ("apply_along_axis", "keepdims"): "9",
                  ("vector_norm", "keepdims"): "2.0", ("meshgrid", "device"): "9", ("linspace", "device"): "2.0",
                  ("clip", "min"): "2.1", ("clip", "max"): "2.1", ("asfarray", "dtype"): "0"}


def floor(text):
    m = re.search(r"requires-python\s*=\s*[\"']\s*>=?\s*3\.(\d+)", text)
    return int(m.group(1)) if m else None


class Scan(ast.NodeVisitor):
    """Uses of anything a declared version lacks: (line, function, what)."""

    def __init__(self, tree, low):
        self.low = low
        self.found = []
        self.seen = 0
        self.stack = []
        self.kinds = []
        self.alias = {}
        self.lazy = any(isinstance(n, ast.ImportFrom) and n.module == "__future__" and any(a.name == "annotations" for a in n.names)
                        for n in tree.body)
        self.local = {n.name for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
        self.visit(tree)

    def say(self, n, what):
        self.found.append((n.lineno, self.stack[-1] if self.stack else "<module>", what))

    def new(self, n, v, what):
        self.seen += 1
        if v > self.low:
            self.say(n, "%s, which is new in Python 3.%d" % (what, v))

    # regions that only run, or only need to run, where the feature is there
    def visit_If(self, n):
        s = ast.dump(n.test)
        if "version_info" in s or "hasattr" in s or "__version__" in s:
            return
        if "TYPE_CHECKING" in s:
            for x in n.orelse:
                self.visit(x)
            return
        self.generic_visit(n)

    visit_IfExp = visit_If

    def visit_Try(self, n):
        names = {x.id for h in n.handlers for x in ast.walk(h.type or ast.Name("Exception", ast.Load())) if isinstance(x, ast.Name)}
        if names & {"ImportError", "ModuleNotFoundError", "AttributeError", "Exception", "TypeError"}:
            return
        self.generic_visit(n)

    def visit_Import(self, n):
        for a in n.names:
            self.module(n, a.name)
            self.alias[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]

    def visit_ImportFrom(self, n):
        if n.level or not n.module:
            return
        self.module(n, n.module)
        for a in n.names:
            self.name(n, n.module, a.name)
            self.alias[a.asname or a.name] = n.module + "." + a.name

    def module(self, n, m):
        top = m.split(".")[0]
        if top in MODULES:
            self.new(n, MODULES[top], "module " + top)
        if top in REMOVED_MODULES:
            self.say(n, "module %s, which Python 3.%d removed" % (top, REMOVED_MODULES[top]))
        if m.startswith("numpy.core") or m.startswith("numpy._core"):
            self.say(n, "module %s, which is private or absent in some supported NumPy" % m)

    def name(self, n, m, x):
        self.seen += 1
        if x in STDLIB.get(m, {}):
            self.new(n, STDLIB[m][x], "%s.%s" % (m, x))
        if x in REMOVED.get(m, {}):
            self.say(n, "%s.%s, which Python 3.%d removed" % (m, x, REMOVED[m][x]))
        if m == "numpy":
            if x in NUMPY_GONE:
                self.say(n, "numpy.%s, which supported NumPy versions no longer have" % x)
            for v, xs in NUMPY_NEW.items():
                if x in xs:
                    self.say(n, "numpy.%s, which is new in NumPy %s" % (x, v))
            if x in ("core", "_core"):
                self.say(n, "numpy.%s, which is private or absent in some supported NumPy" % x)
        if m == "numpy.linalg":
            for v, xs in LINALG_NEW.items():
                if x in xs:
                    self.say(n, "numpy.linalg.%s, which is new in NumPy %s" % (x, v))

    def full(self, n):
        if isinstance(n, ast.Name):
            return self.alias.get(n.id) if n.id not in self.local else None
        if isinstance(n, ast.Attribute):
            b = self.full(n.value)
            return b + "." + n.attr if b else None
        return None

    def visit_Attribute(self, n):
        b = self.full(n.value)
        if b:
            self.name(n, b, n.attr)
        elif n.attr in METHODS:
            self.new(n, METHODS[n.attr], "the method " + n.attr)
        self.generic_visit(n)

    def visit_Call(self, n):
        f = n.func
        leaf = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
        full = self.full(f) or ""
        for k in n.keywords:
            self.seen += 1
            v = KEYWORDS.get((leaf, k.arg)) if not full.startswith("numpy") and leaf not in self.local else None
            if v is not None and v < 90:
                self.new(n, v, "%s(%s=)" % (leaf, k.arg))
            v = NUMPY_KEYWORDS.get((leaf, k.arg)) if full.startswith("numpy.") else None
            if v:
                self.say(n, "numpy %s(%s=), which is new in NumPy %s" % (leaf, k.arg, v))
        if full in ("numpy.array",):
            for k in n.keywords:
                if k.arg == "copy" and isinstance(k.value, ast.Constant) and k.value.value is None:
                    self.say(n, "numpy.array(copy=None), which means copy=False before NumPy 2")
                if k.arg == "copy" and isinstance(k.value, ast.Constant) and k.value.value is False:
                    self.say(n, "numpy.array(copy=False), which raises an error from NumPy 2 on where a copy is needed")
        if full in ("isinstance", "issubclass") or leaf in ("isinstance", "issubclass"):
            if len(n.args) == 2 and isinstance(n.args[1], ast.BinOp) and isinstance(n.args[1].op, ast.BitOr):
                self.new(n, 10, "isinstance with X | Y")
        self.generic_visit(n)

    # annotations are evaluated where the module does not postpone them
    def annotation(self, a, n):
        if a is None or self.lazy or self.low >= 10:
            return
        for x in ast.walk(a):
            if isinstance(x, ast.BinOp) and isinstance(x.op, ast.BitOr):
                self.new(x, 10, "the annotation %s evaluated at definition" % ast.unparse(x))
        self.generic_annotation(a)

    def generic_annotation(self, a):
        for x in ast.walk(a):
            if isinstance(x, ast.Subscript):
                self.subscript(x)

    def subscript(self, n):
        b = n.value
        if isinstance(b, ast.Name) and b.id in GENERIC and b.id not in self.local and b.id not in self.alias:
            self.new(n, 9, "%s[...]" % b.id)
        full = self.full(b) or ""
        if full.startswith("collections.abc.") or full in ("collections.deque", "collections.defaultdict", "collections.OrderedDict",
                                                           "collections.Counter"):
            self.new(n, 9, "%s[...]" % full)

    def function(self, n):
        args = n.args
        for a in args.posonlyargs + args.args + args.kwonlyargs + [args.vararg, args.kwarg]:
            if a is not None:
                self.annotation(a.annotation, n)
        self.annotation(n.returns, n)
        for d in n.decorator_list:
            x = d.func if isinstance(d, ast.Call) else d
            while isinstance(x, ast.Attribute):
                x = x.value
            if not isinstance(x, ast.Name):
                self.new(d, 9, "a decorator that is not a dotted name")
            self.visit(d)
        for d in args.defaults + [x for x in args.kw_defaults if x is not None]:
            self.visit(d)
        self.enter(n, "function")

    def enter(self, n, kind):
        self.stack.append(n.name)
        self.kinds.append(kind)
        for x in n.body:
            self.visit(x)
        self.stack.pop()
        self.kinds.pop()

    visit_FunctionDef = visit_AsyncFunctionDef = function

    def visit_ClassDef(self, n):
        for x in n.bases:
            self.visit(x)
        for x in n.keywords:
            self.visit(x)
        for x in n.decorator_list:
            self.visit(x)
        self.enter(n, "class")

    def visit_AnnAssign(self, n):
        if not (self.kinds and self.kinds[-1] == "function"):
            self.annotation(n.annotation, n)
        self.visit(n.target)
        if n.value is not None:
            self.visit(n.value)

    def visit_Subscript(self, n):
        if isinstance(n.ctx, ast.Load):
            self.subscript(n)
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if isinstance(n.op, ast.BitOr) and any(isinstance(x, (ast.Dict, ast.DictComp)) or isinstance(x, ast.Call) and isinstance(
                x.func, ast.Name) and x.func.id in ("dict", "vars") for x in (n.left, n.right)):
            self.new(n, 9, "the union of dictionaries")
        self.generic_visit(n)

    def visit_Match(self, n):
        self.new(n, 10, "a match statement")
        self.generic_visit(n)

    def visit_TryStar(self, n):
        self.new(n, 11, "except*")
        self.generic_visit(n)

    def visit_TypeAlias(self, n):
        self.new(n, 12, "a type statement")


def scan(tree, src, low):
    s = Scan(tree, low)
    try:
        ast.parse(src, feature_version=(3, low))
    except SyntaxError as e:
        s.found.append((e.lineno or 1, "<syntax>", "syntax that Python 3.%d lacks (%s)" % (low, e.msg)))
    return s
