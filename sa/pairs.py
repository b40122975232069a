"""Pairs of calls that must agree, explored together (one path = one case of both)."""
from build import *
import judge
from judge import cells, attr, Shape


class Out:
    """Outcome of one of the two calls."""

    def __init__(self, kind, value):
        self.kind = kind
        self.value = value


def run1(it, f):
    try:
        return Out("return", f())
    except PyExc as e:
        return Out("raise", e)


def meth(it, o, name, *args, **kw):
    try:
        f = it.getattr(o, name)
    except PyExc as e:
        if e.name == "AttributeError":
            raise Missing(name)
        raise
    it.lastfunc = f
    return it.call(f, list(args), kw)


def func(it, w, dotted, *args, **kw):
    try:
        f = w.find(dotted)
    except (KeyError, PyExc):
        raise Missing(dotted)
    it.lastfunc = f
    return it.call(f, list(args), kw)


PAIRS = {}


class Pair:
    def __init__(self, name, group, dims, operands, left, right, rel="same", why=""):
        self.name, self.group, self.dims, self.operands = name, group, dims, operands
        self.left, self.right, self.rel, self.why = left, right, rel, why


def pair(name, group, dims, operands, left, right, rel="same", why=""):
    PAIRS[name] = Pair(name, group, dims, operands, left, right, rel, why)


def scen(pr, d, **k):
    def s(it, w, p):
        vals = []
        for i, q in enumerate(pr.operands):
            if callable(q):
                vals.append(q(it, w, d))
            else:
                vals.append(operand(it, w, q, "xyzuvw"[i], d, **k))
        mark(it, p, *[("operand %d" % (i + 1), v) for i, v in enumerate(vals)])
        it.lastfunc = None
        a = run1(it, lambda: pr.left(it, w, *vals))
        p.extra["mid"] = len(it.events)
        b = run1(it, lambda: pr.right(it, w, *vals))
        p.extra["func"] = it.lastfunc
        return (a, b)
    return s


D23 = (2, 3)


def rowpt(name):
    """The generic row of the points operand, as a single point."""
    def f(it, w, d):
        cs = []
        for i in range(d):
            a = V.T.get("in", ("%s[i].%d" % (name, i),))
            c = inp("%s[i].%d" % (name, i), kind="pt", idx=i, of=name)
            a.rows = frozenset({"N"})
            c._rows = None
            cs.append(c)
        return Arr((d,), cs, "nd", "f")
    return f


# ------------------------------------------------------------------ batch = scalar
for _c, _many, _one, _ds in [
        ("Line", "project_points", "project_point", D23), ("Line", "distance_points", "distance_point", D23),
        ("Plane", "project_points", "project_point", D23), ("Plane", "distance_points", "distance_point", D23),
        ("Plane", "distance_points_signed", "distance_point_signed", D23)]:
    pair("%s.%s = %s row by row" % (_c, _many, _one), "batch", _ds, [_c, "pts", rowpt("y")],
         lambda it, w, o, ps, q, m=_many: meth(it, o, m, ps),
         lambda it, w, o, ps, q, m=_one: meth(it, o, m, q), "row")
pair("Line.transform_points = scalar projection row by row", "batch", D23, ["Line", "pts", rowpt("y")],
     lambda it, w, o, ps, q: meth(it, o, "transform_points", ps),
     lambda it, w, o, ps, q: meth(it, it.getattr(o, "direction"), "scalar_projection",
                                  func(it, w, "objects.Vector.from_points", it.getattr(o, "point"), q)), "row")
pair("Plane.distance_point = |distance_point_signed|", "batch", D23, ["Plane", "pt"],
     lambda it, w, o, q: meth(it, o, "distance_point", q),
     lambda it, w, o, q: absval(it, meth(it, o, "distance_point_signed", q)))
pair("Plane.distance_points = |distance_points_signed|", "batch", D23, ["Plane", "pts"],
     lambda it, w, o, q: meth(it, o, "distance_points", q),
     lambda it, w, o, q: absval(it, meth(it, o, "distance_points_signed", q)))


def triangle(order):
    """The triangle of the points t0, t1, t2 in an order."""
    def f(it, w, d):
        return it.call(w.cls("Triangle"), [vec("t%d" % i, d, "pt") for i in order], {})
    return f


def tpoint(i):
    return lambda it, w, d: vec("t%d" % i, d, "pt")


pair("Triangle.area = measurement.area_triangle", "batch", D23, [triangle((0, 1, 2)), tpoint(0), tpoint(1), tpoint(2)],
     lambda it, w, t, a, b, c: meth(it, t, "area"),
     lambda it, w, t, a, b, c: func(it, w, "measurement.area_triangle", a, b, c))
pair("Line.distance_point = distance to the projection", "batch", D23, ["Line", "pt"],
     lambda it, w, o, q: meth(it, o, "distance_point", q),
     lambda it, w, o, q: meth(it, meth(it, o, "project_point", q), "distance_point", q))
pair("Plane.distance_point = distance to the projection", "batch", D23, ["Plane", "pt"],
     lambda it, w, o, q: meth(it, o, "distance_point", q),
     lambda it, w, o, q: meth(it, meth(it, o, "project_point", q), "distance_point", q), "sameabs")
for _c, _d in (("Circle", 2), ("Sphere", 3)):
    pair("%s.distance_point = distance to the projection" % _c, "batch", (_d,), [_c, "pt"],
         lambda it, w, o, q: meth(it, o, "distance_point", q),
         lambda it, w, o, q: meth(it, meth(it, o, "project_point", q), "distance_point", q), "sameabs/2")
pair("sum_squares of Line = sum of distance_points squared", "batch", D23, ["Line", "pts"],
     lambda it, w, o, q: meth(it, o, "sum_squares", q),
     lambda it, w, o, q: sumsq(it, meth(it, o, "distance_points", q)))
pair("sum_squares of Plane = sum of distance_points squared", "batch", (3,), ["Plane", "pts"],
     lambda it, w, o, q: meth(it, o, "sum_squares", q),
     lambda it, w, o, q: sumsq(it, meth(it, o, "distance_points", q)))


def absval(it, v):
    if not isinstance(v, Arr):
        raise Shape("not numeric")
    return Arr(v.shape, [V.absv(c) for c in v.cells], v.t, v.dt)


def sumsq(it, v):
    return Arr((), [D.nsum(v.cells[0] * v.cells[0], "N")], "np", "f")


# ------------------------------------------------------------------ symmetry of the two operands
for _n, _a, _ds, _rel in [
        ("Point.distance_point", "Point", D23, "same"), ("Vector.cosine_similarity", "VecD", D23, "same"),
        ("Vector.angle_between", "VecD", D23, "same"), ("Vector.cross", "VecL", D23, "neg"),
        ("Vector.is_perpendicular", "VecL", D23, "same"), ("Vector.is_parallel", "VecD", D23, "same"),
        ("Vector.angle_signed", "VecD", (2,), "atan2neg"), ("Vector.side_vector", "VecD", (2,), "neg"),
        ("Line.distance_line", "Line", D23, "sameabs"), ("Line.intersect_line", "Line", (2,), "same"),
        ("Line.is_coplanar", "Line", D23, "same"),
        ("Circle.intersect_circle", "Circle", (2,), "set"), ("Plane.intersect_plane", "Plane", (3,), "line"),
        ("LineSegment.intersect_line_segment", "Seg", (2,), "same")]:
    pair("%s is symmetric" % _n, "symmetry", _ds, [_a, _a],
         lambda it, w, a, b, m=_n.split(".")[1]: meth(it, a, m, b),
         lambda it, w, a, b, m=_n.split(".")[1]: meth(it, b, m, a), _rel)
for _n, _k, _ds in [("measurement.area_triangle", 3, D23), ("measurement.volume_tetrahedron", 4, (3,))]:
    import itertools
    for _p in [(1, 0) + tuple(range(2, _k)), tuple(range(1, _k)) + (0,)]:
        pair("%s of permuted vertices %s" % (_n, "".join("abcd"[i] for i in _p)), "symmetry", _ds, ["pt"] * _k,
             lambda it, w, *a, n=_n: func(it, w, n, *a),
             lambda it, w, *a, n=_n, p=_p: func(it, w, n, *[a[i] for i in p]), "same")
for _m in ("area", "perimeter", "centroid", "orthocenter"):
    for _p in ((1, 0, 2), (1, 2, 0)):
        pair("Triangle.%s of permuted vertices %s" % (_m, "".join("abc"[i] for i in _p)), "symmetry", (2,), [triangle((0, 1, 2)), triangle(_p)],
             lambda it, w, a, b, m=_m: meth(it, a, m),
             lambda it, w, a, b, m=_m: meth(it, b, m), "same")


# ------------------------------------------------------------------ reversal of a direction
def negated(it, w, kind, label, d):
    """The operand with its direction reversed."""
    neg = lambda a: Arr(a.shape, [-c for c in a.cells], "nd", "f")
    c = w.cls
    if kind in ("Line", "Plane"):
        return it.call(c(kind), [vec(label + ".p", d, "pt"), neg(vec(label, d, "dir"))], {})
    if kind == "VecD":
        return it.call(c("Vector"), [neg(vec(label, d, "dir"))], {})


for _n, _k, _as, _ds, _rel in [
        ("project_point", "Line", ["pt"], D23, "same"), ("project_points", "Line", ["pts"], D23, "same"),
        ("project_vector", "Line", ["vec"], D23, "same"), ("side_point", "Line", ["pt"], (2,), "neg"),
        ("distance_point", "Line", ["pt"], D23, "same"), ("distance_points", "Line", ["pts"], D23, "same"),
        ("distance_line", "Line", ["Line"], D23, "sameabs"), ("intersect_line", "Line", ["Line"], D23, "same"),
        ("transform_points", "Line", ["pts"], D23, "neg"), ("sum_squares", "Line", ["pts"], D23, "same"),
        ("contains_point", "Line", ["pt"], D23, "same"),
        ("project_point", "Plane", ["pt"], D23, "same"), ("project_points", "Plane", ["pts"], D23, "same"),
        ("project_vector", "Plane", ["vec"], D23, "same"), ("project_line", "Plane", ["Line"], (3,), "line"),
        ("distance_point_signed", "Plane", ["pt"], D23, "neg"), ("distance_points_signed", "Plane", ["pts"], D23, "neg"),
        ("distance_point", "Plane", ["pt"], D23, "same"), ("distance_points", "Plane", ["pts"], D23, "same"),
        ("side_point", "Plane", ["pt"], D23, "neg"), ("intersect_line", "Plane", ["Line"], (3,), "same"),
        ("intersect_plane", "Plane", ["Plane"], (3,), "line"), ("contains_point", "Plane", ["pt"], D23, "same"),
        ("sum_squares", "Plane", ["pts"], (3,), "same"),
        ("unit", "VecD", [], D23, "neg"), ("cosine_similarity", "VecD", ["dir"], D23, "neg"),
        ("is_parallel", "VecD", ["dir"], D23, "same"), ("project_vector", "VecD", ["vec"], D23, "same"),
        ("scalar_projection", "VecD", ["vec"], D23, "neg"), ("side_vector", "VecD", ["dir"], (2,), "neg")]:
    pair("%s.%s with the direction reversed" % ({"VecD": "Vector"}.get(_k, _k), _n), "reversal", _ds,
         [_k, lambda it, w, d, k=_k: negated(it, w, k, "x", d)] + [
             (lambda it, w, d, q=q, i=i: operand(it, w, q, "z%d" % i, d)) for i, q in enumerate(_as)],
         lambda it, w, a, b, *x, m=_n: meth(it, a, m, *x),
         lambda it, w, a, b, *x, m=_n: meth(it, b, m, *x), _rel)
for _n, _k, _ds in [("intersect_line", "Circle", (2,)), ("intersect_line", "Sphere", (3,)), ("intersect_line", "Cylinder", (3,)),
                    ("intersect_line", "Plane", (3,)), ("intersect_line", "Line", (2,)), ("distance_line", "Line", (2, 3))]:
    pair("%s.%s with the argument reversed" % (_k, _n), "reversal", _ds,
         [_k, lambda it, w, d: operand(it, w, "Line", "y", d), lambda it, w, d: negated(it, w, "Line", "y", d)],
         lambda it, w, a, x, y, m=_n: meth(it, a, m, x),
         lambda it, w, a, x, y, m=_n: meth(it, a, m, y),
         "set" if _k in ("Circle", "Sphere", "Cylinder") else "sameabs" if _n == "distance_line" else "same")


# ------------------------------------------------------------------ comparison
def compare(it, a, b, rel, tidy, d):
    """True / False / None, and the polynomials that differ."""
    if rel == "row":
        x, y = cells(a), cells(b)
        if len(x) != len(y):
            return False, "%d components against %d" % (len(x), len(y))
        return eqz(x, y, tidy)
    if rel == "set":
        if not isinstance(a, (tuple, list)) or not isinstance(b, (tuple, list)) or len(a) != len(b):
            return False, "different numbers of results"
        best = False
        for o in ((0, 1), (1, 0)):
            r = [eqz(cells(a[i]), cells(b[j]), tidy)[0] for i, j in enumerate(o)]
            if all(x is True for x in r):
                return True, ""
            if all(x is not False for x in r):
                best = None
        return best, "neither order agrees"
    if rel == "line":
        (p, u), (q, v) = [[cells(x) for x in attr(it, o, "point", "direction")] for o in (a, b)]
        n = len(u)
        ws = [u[i] * v[j] - u[j] * v[i] for i in range(n) for j in range(i + 1, n)]
        dp = [x - y for x, y in zip(p, q)]
        ws += [dp[i] * u[j] - dp[j] * u[i] for i in range(n) for j in range(i + 1, n)]
        return eqz(ws, [ZERO] * len(ws), tidy)
    if rel == "neg":
        x, y = nums(a), nums(b)
        return eqz(x, [-c for c in y], tidy) if len(x) == len(y) else (False, "shape")
    if rel == "sameabs":
        x, y = nums(a), nums(b)
        return eqz([c * c for c in x], [c * c for c in y], tidy) if len(x) == len(y) else (False, "shape")
    if rel == "atan2neg":
        x, y = nums(a)[0].single(), nums(b)[0].single()
        if x is None or y is None or x.kind != "atan2" or y.kind != "atan2":
            return None, "form"
        return eqz(list(x.args), [-y.args[0], y.args[1]], tidy)
    return same(it, a, b, tidy)


def nums(v):
    if isinstance(v, bool) or v is None:
        raise Shape("%r" % v)
    return cells(v)


RECORD = None


def differences(it, a, b, rel, d):
    """What has to vanish for the two results to agree: a list of alternatives."""
    global RECORD
    try:
        if rel == "set":
            return [[u - v for i, j in enumerate(o) for u, v in zip(cells(a[i]), cells(b[j]))] for o in ((0, 1), (1, 0))]
        if rel == "atan2neg":
            return [[u + v for u, v in zip(nums(a), nums(b))]]
        RECORD = []
        compare(it, a, b, rel, lambda x: x, d)
        return [RECORD] if RECORD else None
    except (Shape, TypeError, KeyError, IndexError):
        return None
    finally:
        RECORD = None


def eqz(x, y, tidy):
    r = True
    if RECORD is not None:
        RECORD.extend(a - b for a, b in zip(x, y))
        return True, ""
    for a, b in zip(x, y):
        z = V.is_zero(a - b)
        if z is not True:
            z = V.is_zero(tidy(a - b))
        if z is not True:
            z = V.is_zero(tidy(a) - tidy(b))
        if z is False:
            return False, "%s against %s" % (str(a)[:60], str(b)[:60])
        if z is None:
            r = None
    return r, ""


def same(it, a, b, tidy=lambda x: x, types=False):
    """Structural equality of two results."""
    if isinstance(a, Arr) and isinstance(b, (int, float)) and not isinstance(b, bool):
        b = Arr((), [const(b)], "py", "f")
    if isinstance(b, Arr) and isinstance(a, (int, float)) and not isinstance(a, bool):
        a = Arr((), [const(a)], "py", "f")
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.shape != b.shape:
            return False, "shape %s against %s" % (a.shape, b.shape)
        if types and (kindname(a) != kindname(b)):
            return False, "type %s against %s" % (kindname(a), kindname(b))
        if a.dt == "b" or b.dt == "b":
            for x, y in zip(a.cells, b.cells):
                if x != y:
                    if isinstance(x, Cond) and isinstance(y, Cond) and x.kind == y.kind == "const":
                        return False, "%s against %s" % (x, y)
                    if RECORD is not None and isinstance(x, Cond) and isinstance(y, Cond):
                        RECORD.append((x, y))
                        continue
                    return None, "conditions"
            return True, ""
        x, y = list(a.cells), list(b.cells)
        if any(not isinstance(c, P) for c in x + y):
            return None, "not numeric"
        return eqz(x, y, tidy)
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a.cls is not b.cls:
            return False, "%s against %s" % (a.cls.name, b.cls.name)
        r = True
        for k in sorted(set(a.attrs) | set(b.attrs)):
            if k not in a.attrs or k not in b.attrs:
                return False, "attribute " + k
            z, m = same(it, a.attrs[k], b.attrs[k], tidy, types)
            if z is False:
                return False, ".%s: %s" % (k, m)
            if z is None:
                r = None
        return r, ""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return False, "lengths"
        r = True
        for x, y in zip(a, b):
            z, m = same(it, x, y, tidy, types)
            if z is False:
                return False, m
            if z is None:
                r = None
        return r, ""
    if isinstance(a, (str, bool, int, float, type(None))) and isinstance(b, (str, bool, int, float, type(None))):
        a, b = [str(x) if isinstance(x, str) else x for x in (a, b)]
        return (a == b and isinstance(a, bool) == isinstance(b, bool)), "%r against %r" % (a, b)
    if isinstance(a, (UnkV, OpaqueObj)) or isinstance(b, (UnkV, OpaqueObj)):
        return None, "unknown value"
    if isinstance(a, Cond) or isinstance(b, Cond):
        if RECORD is not None and isinstance(a, Cond) and isinstance(b, Cond) and a != b:
            RECORD.append((a, b))
        return (True if a == b else None), "conditions"
    if isinstance(a, Arr) and a.dt == "b" or isinstance(b, Arr) and b.dt == "b":
        return None, "conditions"
    if isinstance(a, dict) and isinstance(b, dict):
        return same(it, sorted(a.items()), sorted(b.items()), tidy, types)
    if type(a) is not type(b):
        return False, "%s against %s" % (type(a).__name__, type(b).__name__)
    return None, "unknown"


def kindname(a):
    return a.t.name if isinstance(a.t, ClassV) else a.t


# ------------------------------------------------------------------ options
def opt(name, dims, operands, left, right, rel="same"):
    pair(name, "option", dims, operands, left, right, rel)


def stat(it, w, dotted, *args, **kw):
    c, n = dotted.rsplit(".", 1)
    return it.call(it.getattr(w.find("objects." + c), n), list(args), kw)


opt("Points.mean_center(return_centroid=True) = (mean_center(), centroid())", D23, ["Points"],
    lambda it, w, o: meth(it, o, "mean_center", return_centroid=True),
    lambda it, w, o: (meth(it, o, "mean_center"), meth(it, o, "centroid")))
opt("Points.mean_center(return_centroid=False) = mean_center()", D23, ["Points"],
    lambda it, w, o: meth(it, o, "mean_center", return_centroid=False), lambda it, w, o: meth(it, o, "mean_center"))
for _c, _ds in (("Line", D23), ("Plane", (3,))):
    opt("%s.best_fit(return_error=True) starts with best_fit()" % _c, _ds, ["pts"],
        lambda it, w, ps, c=_c: first_of_two(stat(it, w, c + ".best_fit", ps, return_error=True)),
        lambda it, w, ps, c=_c: stat(it, w, c + ".best_fit", ps))
    opt("%s.best_fit(return_error=False) = best_fit()" % _c, _ds, ["pts"],
        lambda it, w, ps, c=_c: stat(it, w, c + ".best_fit", ps, return_error=False),
        lambda it, w, ps, c=_c: stat(it, w, c + ".best_fit", ps))
    opt("%s.best_fit(tol=None) = best_fit()" % _c, _ds, ["pts"],
        lambda it, w, ps, c=_c: stat(it, w, c + ".best_fit", ps, tol=None),
        lambda it, w, ps, c=_c: stat(it, w, c + ".best_fit", ps))
opt("Line.intersect_line(check_coplanar=True) = intersect_line()", D23, ["Line", "Line"],
    lambda it, w, a, b: meth(it, a, "intersect_line", b, check_coplanar=True), lambda it, w, a, b: meth(it, a, "intersect_line", b))
opt("Cylinder.intersect_line(infinite=True) = intersect_line()", (3,), ["Cylinder", "Line"],
    lambda it, w, a, b: meth(it, a, "intersect_line", b, infinite=True), lambda it, w, a, b: meth(it, a, "intersect_line", b))
opt("Cylinder.intersect_line(n_digits=None) = intersect_line()", (3,), ["Cylinder", "Line"],
    lambda it, w, a, b: meth(it, a, "intersect_line", b, n_digits=None), lambda it, w, a, b: meth(it, a, "intersect_line", b))


def first_of_two(r):
    if not isinstance(r, tuple) or len(r) != 2:
        raise Shape("not a pair")
    return r[0]


def ones(it, o):
    s = const(0)
    for c in o.cells:
        s = s + V.absv(c)
    return Arr((), [s], "np", "f")


opt("Vector.norm(ord=1) = sum of absolute coordinates", D23, ["VecL"],
    lambda it, w, o: meth(it, o, "norm", ord=1), lambda it, w, o: ones(it, o))
opt("Vector.norm(ord=2) = norm()", D23, ["VecL"], lambda it, w, o: meth(it, o, "norm", ord=2), lambda it, w, o: meth(it, o, "norm"))
for _k in ("Point", "VecL"):
    for _q in (0, 2):
        opt("%s.round(%d) rounds every coordinate" % (_k.replace("VecL", "Vector"), _q), D23, [_k],
            lambda it, w, o, q=_q: meth(it, o, "round", q),
            lambda it, w, o, q=_q: rounded(it, o, q))
opt("Points.round(2) rounds every coordinate", D23, ["Points"], lambda it, w, o: meth(it, o, "round", 2),
    lambda it, w, o: rounded(it, o, 2))


def rounded(it, o, q):
    import pybuiltins
    return Arr(o.shape, [pybuiltins.rnd(it.models, it, Arr((), [c], "np", "f"), q).c for c in o.cells], o.t, "f")


def flat(it, m):
    X, Y, Z = m
    cs = [c for r in zip(X.cells, Y.cells, Z.cells) for c in r]
    return Arr((len(X.cells), 3), cs, "nd", "f")


for _c, _kw in (("Sphere", {"n_angles": 4}), ("Cylinder", {"n_along_axis": 3, "n_angles": 4}), ("Cylinder", {"n_along_axis": 3}),
                ("Cylinder", {"n_angles": 3}), ("Plane", {"lims_x": (-2, 5), "lims_y": (1, 3)}), ("Plane", {"lims_y": (1, 3)})):
    opt("%s.to_points(%s) = rows of to_mesh" % (_c, ", ".join("%s=%s" % x for x in _kw.items())), (3,), [_c],
        lambda it, w, o, k=_kw: meth(it, o, "to_points", **k), lambda it, w, o, k=_kw: flat(it, meth(it, o, "to_mesh", **k)))
