"""Families of inputs whose outcome is known: degenerate, mismatched, and constructed members.

Each family is a parametrised set of inputs (its parameters stay symbolic) together
with what the documentation says must happen on all of it.
"""
from pairs import *

FAMS = {}


class Fam:
    def __init__(self, name, group, dims, build, want, why=""):
        self.name, self.group, self.dims, self.build, self.want, self.why = name, group, dims, build, want, why


def fam(name, group, dims, want, why=""):
    def deco(f):
        FAMS[name] = Fam(name, group, dims, f, want, why)
        return f
    return deco


def scen_fam(fm, d):
    def s(it, w, p):
        it.lastfunc = None
        if fm.group.startswith("ctor"):
            p.extra["marked"] = True
        th = fm.build(it, w, d)
        p.mark = len(it.events)
        p.extra["marked"] = True
        try:
            v = th()
            if isinstance(fm.want, bool):
                if isinstance(v, Arr) and v.shape == () and v.dt == "b":
                    v = v.cells[0]
                if isinstance(v, Cond):
                    v = it.decide(v)
            return v
        finally:
            p.extra["func"] = it.lastfunc
    return s


# ------------------------------------------------------------------ vocabulary
def A(cs, dt="f"):
    return Arr((len(cs),), list(cs), "nd", dt)


def PT(name, d):
    return vec(name, d, "pt").cells


def DIR(it, name, d):
    """A direction assumed not to be (close to) zero."""
    cs = vec(name, d, "dir").cells
    return cs


def nz(it, cs):
    s = ZERO
    for c in cs:
        s = s + c * c
    it.assume(it.cmpc(">", s), True)
    return cs


def pos(it, name):
    r = inp(name, kind="len")
    it.assume(it.cmpc(">", r), True)
    return r


def num(name):
    return inp(name, kind="num")


def nonzero(it, name):
    r = inp(name, kind="num")
    it.assume(it.cmpc("!=", r), True)
    return r


def plus(a, k, b):
    return [x + k * y for x, y in zip(a, b)]


def S(c):
    return Arr((), [c], "py", "f")


def mk(it, w, cls, *args, **kw):
    c = w.cls(cls)
    it.lastfunc = ctor_func(it, c)
    return it.call(c, list(args), kw)


def ctor_func(it, c):
    for n in ("__init__", "__new__"):
        try:
            f = it.getattr(c, n)
        except PyExc:
            continue
        if isinstance(f, (FuncV, Bound)):
            return f
    return None


VE = "ValueError"
TE = ("ValueError", "TypeError")

# ------------------------------------------------------------------ constructors
for _n, _k in (("Line", "dir"), ("Plane", "dir")):
    for _d in (2, 3):
        pass


def ctor_fam(name, dims, want, f, why=""):
    FAMS[name] = Fam(name, "ctor", dims, f, want, why)


for _c in ("Line", "Plane", "Cylinder"):
    _ds = (3,) if _c == "Cylinder" else (1, 2, 3, 4)
    _r = ((lambda it: [S(pos(it, "r"))]) if _c == "Cylinder" else (lambda it: []))
    ctor_fam("%s with a zero direction" % _c, _ds, VE,
             lambda it, w, d, c=_c, r=_r: lambda: mk(it, w, c, A(PT("p", d)), A([ZERO] * d), *r(it)))
    ctor_fam("%s with a zero direction of integers" % _c, _ds, VE,
             lambda it, w, d, c=_c, r=_r: lambda: mk(it, w, c, A(PT("p", d)), [0] * d, *r(it)))
    if _c != "Cylinder":
        for _k in ("abs_tol", "rel_tol"):
            ctor_fam("%s with a zero direction, given %s" % (_c, _k), D23, VE,
                     lambda it, w, d, c=_c, k=_k: lambda: mk(it, w, c, A(PT("p", d)), A([ZERO] * d), **{k: S(pos(it, k))}))
        for _a, _b in ((2, 3), (3, 2), (1, 2)):
            ctor_fam("%s with a %dD point and a %dD direction" % (_c, _a, _b), (_a,), VE,
                     lambda it, w, d, c=_c, a=_a, b=_b: lambda: mk(it, w, c, A(PT("p", a)), A(nz(it, DIR(it, "v", b)))))
    else:
        for _a, _b in ((2, 3), (3, 2), (2, 2), (4, 4)):
            ctor_fam("%s with a %dD point and a %dD vector" % (_c, _a, _b), (_a,), VE,
                     lambda it, w, d, c=_c, a=_a, b=_b: lambda: mk(it, w, c, A(PT("p", a)), A(nz(it, DIR(it, "v", b))),
                                                                   S(pos(it, "r"))))


def rnonpos(it, kind):
    if kind == "zero":
        return S(ZERO)
    if kind == "negative":
        return S(-pos(it, "r"))
    if kind == "NaN":
        return float("nan")


for _c, _d in (("Circle", 2), ("Sphere", 3), ("Cylinder", 3)):
    for _k in ("zero", "negative", "NaN"):
        ctor_fam("%s with a %s radius" % (_c, _k), (_d,), VE,
                 lambda it, w, d, c=_c, k=_k: lambda: mk(
                     it, w, c, A(PT("p", d)), *([A(nz(it, DIR(it, "v", d)))] if c == "Cylinder" else []), rnonpos(it, k)))
for _c, _bad in (("Circle", (1, 3)), ("Sphere", (2, 4))):
    for _d in _bad:
        ctor_fam("%s with a %dD center" % (_c, _d), (_d,), VE,
                 lambda it, w, d, c=_c: lambda: mk(it, w, c, A(PT("p", d)), S(pos(it, "r"))))


@fam("Triangle with collinear points", "ctor", D23, VE)
def _(it, w, d):
    a, u = PT("p", d), DIR(it, "v", d)
    return lambda: mk(it, w, "Triangle", A(a), A(plus(a, num("s"), u)), A(plus(a, num("t"), u)))


@fam("Triangle with two equal points", "ctor", D23, VE)
def _(it, w, d):
    return lambda: mk(it, w, "Triangle", A(PT("p", d)), A(PT("q", d)), A(PT("p", d)))


for _t in ((2, 3, 3), (3, 2, 3), (3, 3, 2), (2, 2, 3)):
    ctor_fam("Triangle with points of dimensions %d, %d, %d" % _t, (_t[0],), VE,
             lambda it, w, d, t=_t: lambda: mk(it, w, "Triangle", *[A(PT("pqr"[i], k)) for i, k in enumerate(t)]))


@fam("LineSegment with equal endpoints", "ctor", (1, 2, 3, 4), VE)
def _(it, w, d):
    return lambda: mk(it, w, "LineSegment", A(PT("p", d)), A(PT("p", d)))


for _t in ((2, 3), (3, 2)):
    ctor_fam("LineSegment with points of dimensions %d, %d" % _t, (_t[0],), VE,
             lambda it, w, d, t=_t: lambda: mk(it, w, "LineSegment", *[A(PT("pq"[i], k)) for i, k in enumerate(t)]))

for _c in ("Point", "Vector"):
    ctor_fam("%s of no coordinates" % _c, (0,), VE, lambda it, w, d, c=_c: lambda: mk(it, w, c, []))
    ctor_fam("%s of a 2D array" % _c, (2,), VE,
             lambda it, w, d, c=_c: lambda: mk(it, w, c, pts("p", 3, 2)))
    ctor_fam("%s of a scalar" % _c, (0,), VE,
             lambda it, w, d, c=_c: lambda: mk(it, w, c, S(num("s"))))
ctor_fam("Points of a 1D array", (2,), VE, lambda it, w, d: lambda: mk(it, w, "Points", A(PT("p", 2))))
ctor_fam("Points of a 3D array", (2,), VE, lambda it, w, d: lambda: mk(
    it, w, "Points", Arr((2, 1, 2), PT("p", 2) + PT("q", 2), "nd", "f")))
ctor_fam("Points of no points", (0,), VE, lambda it, w, d: lambda: mk(it, w, "Points", []))
for _bad in ("nan", "inf", "-inf"):
    for _c in ("Point", "Vector", "Points"):
        for _i in (0, 1, 2):
            def _f(it, w, d, c=_c, bad=_bad, i=_i):
                def th():
                    xs = [S(x) for x in PT("p", 3)]
                    xs[i] = float(bad)
                    return mk(it, w, c, [xs, [S(x) for x in PT("q", 3)]] if c == "Points" else xs)
                return th
            ctor_fam("%s with %s as coordinate %d" % (_c, _bad, _i), (3,), VE, _f)
    for _c, _d in (("Line", 2), ("Plane", 3), ("Circle", 2), ("Sphere", 3), ("Cylinder", 3), ("Triangle", 2), ("LineSegment", 2)):
        for _which in (0, 1):
            if _which and _c in ("Circle", "Sphere"):
                continue

            def _f(it, w, d, c=_c, bad=_bad, which=_which):
                def th():
                    kinds = spec.CTORS[c]
                    args = []
                    for j, k in enumerate(kinds):
                        if k == "len":
                            args.append(S(pos(it, "r")))
                        else:
                            xs = [S(x) for x in PT("pqs"[j], d)]
                            if j == which:
                                xs[-1] = float(bad)
                            args.append(xs)
                    return mk(it, w, c, *args)
                return th
            ctor_fam("%s with %s in argument %d" % (_c, _bad, _which + 1), (_d,), VE, _f)


# ------------------------------------------------------------------ degenerate operations
def line(it, w, name, d, u=None, p=None):
    return it.call(w.cls("Line"), [A(p or PT(name + ".p", d)), A(u or DIR(it, name, d))], {})


def plane(it, w, name, d, n=None, p=None):
    return it.call(w.cls("Plane"), [A(p or PT(name + ".p", d)), A(n or DIR(it, name, d))], {})


def scaled(k, u):
    return [k * x for x in u]


@fam("Line.intersect_line of parallel lines", "degenerate", D23, VE)
def _(it, w, d):
    u = DIR(it, "u", d)
    a, b = line(it, w, "a", d, u), line(it, w, "b", d, scaled(nonzero(it, "k"), u))
    return lambda: meth(it, a, "intersect_line", b)


@fam("Line.intersect_line without a coplanarity check of parallel lines", "degenerate", D23, VE)
def _(it, w, d):
    u = DIR(it, "u", d)
    a, b = line(it, w, "a", d, u), line(it, w, "b", d, scaled(nonzero(it, "k"), u))
    return lambda: meth(it, a, "intersect_line", b, check_coplanar=False)


@fam("Line.intersect_line of lines of different dimensions", "degenerate", (2,), VE)
def _(it, w, d):
    a, b = line(it, w, "a", 2), line(it, w, "b", 3)
    return lambda: meth(it, a, "intersect_line", b)


@fam("Line.intersect_line of 4D lines", "degenerate", (4,), VE)
def _(it, w, d):
    a, b = line(it, w, "a", 4), line(it, w, "b", 4)
    return lambda: meth(it, a, "intersect_line", b)


@fam("Plane.intersect_line of a parallel line", "degenerate", (3,), VE)
def _(it, w, d):
    n, v = DIR(it, "n", 3), DIR(it, "v", 3)
    u = posts.cross(n, v)
    a, b = plane(it, w, "a", d, n), line(it, w, "b", d, u)
    return lambda: meth(it, a, "intersect_line", b)


@fam("Plane.intersect_plane of parallel planes", "degenerate", (3,), VE)
def _(it, w, d):
    u = DIR(it, "u", d)
    a, b = plane(it, w, "a", d, u), plane(it, w, "b", d, scaled(nonzero(it, "k"), u))
    return lambda: meth(it, a, "intersect_plane", b)


@fam("Plane.project_line of a perpendicular line", "degenerate", (3,), VE)
def _(it, w, d):
    u = DIR(it, "u", d)
    a, b = plane(it, w, "a", d, u), line(it, w, "b", d, scaled(nonzero(it, "k"), u))
    return lambda: meth(it, a, "project_line", b)


@fam("Plane.from_vectors of parallel vectors", "degenerate", (3,), VE)
def _(it, w, d):
    u = DIR(it, "u", d)
    return lambda: func(it, w, "objects.Plane.from_vectors", A(PT("p", 3)), A(u), A(scaled(nonzero(it, "k"), u)))


@fam("Plane.from_points of collinear points", "degenerate", (3,), VE)
def _(it, w, d):
    a, u = PT("p", d), DIR(it, "v", d)
    return lambda: func(it, w, "objects.Plane.from_points", A(a), A(plus(a, num("s"), u)), A(plus(a, num("t"), u)))


@fam("Line.from_points of equal points", "degenerate", D23, VE)
def _(it, w, d):
    return lambda: func(it, w, "objects.Line.from_points", A(PT("p", d)), A(PT("p", d)))


@fam("Cylinder.from_points of equal points", "degenerate", (3,), VE)
def _(it, w, d):
    return lambda: func(it, w, "objects.Cylinder.from_points", A(PT("p", d)), A(PT("p", d)), S(pos(it, "r")))


@fam("Circle.from_points of collinear points", "degenerate", (2,), VE)
def _(it, w, d):
    a, u = PT("p", d), DIR(it, "v", d)
    return lambda: func(it, w, "objects.Circle.from_points", A(a), A(plus(a, num("s"), u)), A(plus(a, num("t"), u)))


@fam("Circle.from_points of 3D points", "degenerate", (3,), VE)
def _(it, w, d):
    return lambda: func(it, w, "objects.Circle.from_points", A(PT("p", 3)), A(PT("q", 3)), A(PT("s", 3)))


def circle(it, w, c, r):
    return it.call(w.cls("Circle"), [A(c), S(r)], {})


def sphere(it, w, c, r):
    return it.call(w.cls("Sphere"), [A(c), S(r)], {})


@fam("Circle.intersect_circle of concentric circles", "degenerate", (2,), VE)
def _(it, w, d):
    a, b = circle(it, w, PT("c", 2), pos(it, "r")), circle(it, w, PT("c", 2), pos(it, "s"))
    return lambda: meth(it, a, "intersect_circle", b)


def unitdir(it):
    """A rational unit direction: ((1-t^2)/(1+t^2), 2t/(1+t^2))."""
    t = num("t")
    q = V.div(ONE, ONE + t * t)
    return [(ONE - t * t) * q, (t + t) * q]


@fam("Circle.intersect_circle of separate circles", "degenerate", (2,), VE)
def _(it, w, d):
    c, u, r, s, g = PT("c", 2), unitdir(it), pos(it, "r"), pos(it, "s"), pos(it, "g")
    a, b = circle(it, w, c, r), circle(it, w, plus(c, r + s + g, u), s)
    return lambda: meth(it, a, "intersect_circle", b)


@fam("Circle.intersect_circle of nested circles", "degenerate", (2,), VE)
def _(it, w, d):
    c, u, g, s, h = PT("c", 2), unitdir(it), pos(it, "g"), pos(it, "s"), pos(it, "h")
    a, b = circle(it, w, c, g + s + h), circle(it, w, plus(c, g, u), s)
    return lambda: meth(it, a, "intersect_circle", b)


@fam("Circle.intersect_circle of a circle nested in the other", "degenerate", (2,), VE)
def _(it, w, d):
    c, u, g, s, h = PT("c", 2), unitdir(it), pos(it, "g"), pos(it, "s"), pos(it, "h")
    b, a = circle(it, w, c, g + s + h), circle(it, w, plus(c, g, u), s)
    return lambda: meth(it, a, "intersect_circle", b)


@fam("Circle.intersect_line of a line that misses", "degenerate", (2,), VE)
def _(it, w, d):
    c, r, g, k = PT("c", 2), pos(it, "r"), pos(it, "g"), nonzero(it, "k")
    u = unitdir(it)
    n = [-u[1], u[0]]
    a = circle(it, w, c, r)
    b = line(it, w, "b", 2, scaled(k, u), plus(plus(c, r + g, n), num("m"), u))
    return lambda: meth(it, a, "intersect_line", b)


@fam("Sphere.intersect_line of a line that misses", "degenerate", (3,), VE)
def _(it, w, d):
    c, r, g, k = PT("c", 3), pos(it, "r"), pos(it, "g"), nonzero(it, "k")
    u = unitdir(it)
    n = [-u[1], u[0], ZERO]
    u = [u[0], u[1], ZERO]
    a = sphere(it, w, c, r)
    b = line(it, w, "b", 3, scaled(k, u), plus(plus(c, r + g, n), num("m"), u))
    return lambda: meth(it, a, "intersect_line", b)


for _c, _d in (("Circle", 2), ("Sphere", 3)):
    FAMS["%s.project_point of the center" % _c] = Fam(
        "%s.project_point of the center" % _c, "degenerate", (_d,),
        lambda it, w, d, c=_c: (lambda o: lambda: meth(it, o, "project_point", A(PT("c", d))))(
            it.call(w.cls(c), [A(PT("c", d)), S(pos(it, "r"))], {})), VE)


def vector(it, w, cs):
    return it.call(w.cls("Vector"), [A(cs)], {})


for _n, _first, _second in (("unit", True, None), ("cosine_similarity", True, False), ("angle_between", True, False),
                            ("project_vector", True, False), ("is_parallel", True, False), ("different_direction", True, None),
                            ("cosine_similarity", False, True), ("angle_between", False, True), ("is_parallel", False, True)):
    _name = "Vector.%s %s" % (_n, "of the zero vector" if _first else "with the zero vector")

    def _f(it, w, d, n=_n, first=_first, second=_second):
        o = vector(it, w, [ZERO] * d if first else nz(it, PT("v", d)))
        args = [] if second is None else [A([ZERO] * d if second else nz(it, PT("u", d)))]
        return lambda: meth(it, o, n, *args)
    FAMS[_name] = Fam(_name, "degenerate" if _n != "is_parallel" else "zero", D23, _f, VE if _n != "is_parallel" else True)


@fam("Vector.angle_signed of 3D vectors", "degenerate", (3,), VE)
def _(it, w, d):
    o = vector(it, w, nz(it, PT("v", 3)))
    return lambda: meth(it, o, "angle_signed", A(nz(it, PT("u", 3))))


@fam("Vector.angle_signed with a 3D vector", "degenerate", (2,), VE)
def _(it, w, d):
    o = vector(it, w, nz(it, PT("v", 2)))
    return lambda: meth(it, o, "angle_signed", A(nz(it, PT("u", 3))))


@fam("Vector.side_vector of 3D vectors", "degenerate", (3,), VE)
def _(it, w, d):
    o = vector(it, w, nz(it, PT("v", 3)))
    return lambda: meth(it, o, "side_vector", A(nz(it, PT("u", 3))))


@fam("Vector.side_vector with a 3D vector", "degenerate", (2,), VE)
def _(it, w, d):
    o = vector(it, w, nz(it, PT("v", 2)))
    return lambda: meth(it, o, "side_vector", A(nz(it, PT("u", 3))))


for _t in ((2, 3, 3), (3, 2, 3), (3, 3, 2), (2, 2, 2)):
    def _f(it, w, d, t=_t):
        o = vector(it, w, nz(it, PT("v", t[0])))
        return lambda: meth(it, o, "angle_signed_3d", A(nz(it, PT("u", t[1]))), A(nz(it, PT("s", t[2]))))
    _name = "Vector.angle_signed_3d of vectors of dimensions %d, %d, %d" % _t
    FAMS[_name] = Fam(_name, "degenerate", (3,), _f, VE)


for _c, _bad, _few in (("Circle", (3,), 3), ("Sphere", (2,), 4), ("Cylinder", (2,), 6), ("Plane", (2,), 3)):
    for _d in _bad:
        _name = "%s.best_fit of %dD points" % (_c, _d)
        FAMS[_name] = Fam(_name, "degenerate", (_d,), lambda it, w, d, c=_c: lambda: func(
            it, w, "objects.%s.best_fit" % c, pts("p", 6, d)), VE)
    _d = 2 if _c == "Circle" else 3
    for _k in range(1, _few):
        _name = "%s.best_fit of %d points" % (_c, _k)
        FAMS[_name] = Fam(_name, "degenerate", (_d,), lambda it, w, d, c=_c, k=_k: lambda: func(
            it, w, "objects.%s.best_fit" % c, pts("p", k, d)), VE)


def collinear(it, n, d):
    a, u = PT("p", d), DIR(it, "v", d)
    return Arr((n, d), [x for i in range(n) for x in plus(a, num("s%d" % i), u)], "nd", "f")


def coplanar(it, n, d=3):
    a, u, v = PT("p", d), DIR(it, "v", d), DIR(it, "u", d)
    return Arr((n, d), [x for i in range(n) for x in plus(plus(a, num("s%d" % i), u), num("t%d" % i), v)], "nd", "f")


def same_points(it, n, d):
    return Arr((n, d), PT("p", d) * n, "nd", "f")


for _c, _d, _n in (("Circle", 2, 4), ("Plane", 3, 4), ("Sphere", 3, 5), ("Cylinder", 3, 6)):
    _name = "%s.best_fit of collinear points" % _c
    FAMS[_name] = Fam(_name, "degenerate", (_d,), lambda it, w, d, c=_c, n=_n: lambda: func(
        it, w, "objects.%s.best_fit" % c, collinear(it, n, d)), VE)
for _c, _n in (("Sphere", 4), ("Sphere", 5), ("Cylinder", 6)):
    _name = "%s.best_fit of %d coplanar points" % (_c, _n)
    FAMS[_name] = Fam(_name, "degenerate", (3,), lambda it, w, d, c=_c, n=_n: lambda: func(
        it, w, "objects.%s.best_fit" % c, coplanar(it, n)), VE)
for _n in (1, 2, 3):
    _name = "Line.best_fit of %d equal points" % _n
    FAMS[_name] = Fam(_name, "degenerate", D23, lambda it, w, d, n=_n: lambda: func(
        it, w, "objects.Line.best_fit", same_points(it, n, d)), VE)


@fam("measurement.area_signed of 3D points", "degenerate", (3,), VE)
def _(it, w, d):
    return lambda: func(it, w, "measurement.area_signed", pts("p", 4, 3))


for _n in (1, 2):
    FAMS["measurement.area_signed of %d points" % _n] = Fam(
        "measurement.area_signed of %d points" % _n, "degenerate", (2,),
        lambda it, w, d, n=_n: lambda: func(it, w, "measurement.area_signed", pts("p", n, 2)), VE)


@fam("Points.normalize_distance of points at the origin", "degenerate", D23, VE)
def _(it, w, d):
    o = it.call(w.cls("Points"), [Arr((3, d), [ZERO] * (3 * d), "nd", "f")], {})
    return lambda: meth(it, o, "normalize_distance")


for _c in ("Point", "Vector", "Points"):
    for _a, _b in ((3, 2), (2, 1), (3, 0), (2, -1)):
        def _f(it, w, d, c=_c, b=_b):
            o = it.call(w.cls(c), [pts("p", 3, d) if c == "Points" else A(PT("p", d))], {})
            return lambda: meth(it, o, "set_dimension", b)
        _name = "%s.set_dimension from %d to %d" % (_c, _a, _b)
        FAMS[_name] = Fam(_name, "degenerate", (_a,), _f, VE)

for _m, _bad in (("point", "D"), ("angle", "D"), ("altitude", "a"), ("line", "A"), ("length", "d"), ("point", "a"), ("angle", ""),
                 ("length", "A")):
    def _f(it, w, d, m=_m, bad=_bad):
        o = operand(it, w, "Triangle", "T", d)
        return lambda: meth(it, o, m, bad)
    FAMS["Triangle.%s(%r)" % (_m, _bad)] = Fam("Triangle.%s(%r)" % (_m, _bad), "degenerate", (2,), _f, VE)


@fam("LineSegment.intersect_line_segment of parallel segments", "degenerate", D23, VE)
def _(it, w, d):
    p, q, u, k = PT("p", d), PT("q", d), DIR(it, "u", d), nonzero(it, "k")
    a = it.call(w.cls("LineSegment"), [A(p), A(plus(p, ONE, u))], {})
    b = it.call(w.cls("LineSegment"), [A(q), A(plus(q, k, u))], {})
    return lambda: meth(it, a, "intersect_line_segment", b)


@fam("Cylinder.intersect_line of a line parallel to the axis", "degenerate", (3,), VE)
def _(it, w, d):
    u = nz(it, DIR(it, "u", 3))
    a = it.call(w.cls("Cylinder"), [A(PT("p", 3)), A(u), S(pos(it, "r"))], {})
    b = line(it, w, "b", 3, scaled(nonzero(it, "k"), u))
    return lambda: meth(it, a, "intersect_line", b)


@fam("Cylinder.intersect_line of a line that misses", "degenerate", (3,), VE)
def _(it, w, d):
    c, r, g, k, h = PT("c", 3), pos(it, "r"), pos(it, "g"), nonzero(it, "k"), pos(it, "h")
    u = [ONE, ZERO, ZERO]
    n = [ZERO, ONE, ZERO]
    a = it.call(w.cls("Cylinder"), [A(c), A([ZERO, ZERO, h]), S(r)], {})
    b = line(it, w, "b", 3, [k, ZERO, num("l")], plus(plus(c, r + g, n), num("m"), u))
    return lambda: meth(it, a, "intersect_line", b)


@fam("Cylinder.intersect_line of a 2D line", "degenerate", (2,), VE)
def _(it, w, d):
    a = operand(it, w, "Cylinder", "c", 3)
    b = line(it, w, "b", 2)
    return lambda: meth(it, a, "intersect_line", b)


for _c, _m, _d in (("Line", "is_coplanar", 2), ("Line", "is_close", 2), ("Plane", "is_close", 3)):
    def _f(it, w, d, c=_c, m=_m):
        o = operand(it, w, c, "o", d)
        return lambda: meth(it, o, m, operand(it, w, "Circle", "c", 2))
    FAMS["%s.%s of a circle" % (_c, _m)] = Fam("%s.%s of a circle" % (_c, _m), "degenerate", (_d,), _f, "TypeError")


# ------------------------------------------------------------------ members: constructed to satisfy a predicate
def P1(c):
    return Arr((), [c], "py", "f")


def truefam(name, dims, f, want=True, group="member"):
    FAMS[name] = Fam(name, group, dims, f, want)


truefam("Line.contains_point of a point of the line", (1, 2, 3, 4), lambda it, w, d: (
    lambda o: lambda: meth(it, o, "contains_point", A(plus(PT("o.p", d), num("t"), DIR(it, "o", d)))))(line(it, w, "o", d)))
truefam("Plane.contains_point of a point of the plane", (3,), lambda it, w, d: (
    lambda o: lambda: meth(it, o, "contains_point", A(plus(PT("o.p", d), num("t"), posts.cross(DIR(it, "o", 3), DIR(it, "v", 3))))))(
        plane(it, w, "o", d)))
truefam("Circle.contains_point of a point of the circle", (2,), lambda it, w, d: (
    lambda c, r: (lambda o: lambda: meth(it, o, "contains_point", A(plus(c, r, unitdir(it)))))(circle(it, w, c, r)))(
        PT("c", 2), pos(it, "r")))


def unit3(it):
    """A rational point of the unit sphere (stereographic)."""
    s, t = num("s"), num("t")
    q = V.div(ONE, ONE + s * s + t * t)
    return [(s + s) * q, (t + t) * q, (s * s + t * t - ONE) * q]


truefam("Sphere.contains_point of a point of the sphere", (3,), lambda it, w, d: (
    lambda c, r: (lambda o: lambda: meth(it, o, "contains_point", A(plus(c, r, unit3(it)))))(sphere(it, w, c, r)))(
        PT("c", 3), pos(it, "r")))


def frac(it, name):
    """A number strictly between 0 and 1: a / (a + b) with a, b > 0."""
    a, b = pos(it, name + "1"), pos(it, name + "2")
    return V.div(a, a + b)


def seg(it, w, p, u):
    return it.call(w.cls("LineSegment"), [A(p), A(plus(p, ONE, u))], {})


for _n, _t, _want in (("inside", frac, True), ("beyond the end", lambda it, n: ONE + pos(it, n), False),
                      ("before the start", lambda it, n: -pos(it, n), False), ("at the start", lambda it, n: ZERO, True),
                      ("at the end", lambda it, n: ONE, True)):
    def _f(it, w, d, t=_t):
        p, u = PT("p", d), nz(it, DIR(it, "u", d))
        o = seg(it, w, p, u)
        return lambda: meth(it, o, "contains_point", A(plus(p, t(it, "t"), u)))
    truefam("LineSegment.contains_point of a point %s" % _n, (1, 2, 3, 4), _f, _want)

def across(it, u):
    """A vector perpendicular to another one and as long."""
    if len(u) == 3:
        return posts.cross(u, DIR(it, "n", 3))
    out = []
    for i in range(0, len(u), 2):
        out += [-u[i + 1], u[i]]
    return out


def _beside(it, w, d):
    p, u = PT("p", d), nz(it, DIR(it, "u", d))
    o = seg(it, w, p, u)
    n = nz(it, across(it, u)) if d == 3 else across(it, u)
    return lambda: meth(it, o, "contains_point", A(plus(plus(p, frac(it, "t"), u), pos(it, "s"), n)))


truefam("LineSegment.contains_point of a point beside it", (2, 3, 4), _beside, False)

for _n, _t in (("beyond the end", lambda it, n: ONE + pos(it, n)), ("before the start", lambda it, n: -pos(it, n))):
    for _swap in (False, True):
        def _f(it, w, d, t=_t, swap=_swap):
            p, u, v = PT("p", d), nz(it, DIR(it, "u", d)), nz(it, DIR(it, "v", d))
            x = plus(p, t(it, "t"), u)
            a = seg(it, w, p, u)
            k = frac(it, "k")
            b = seg(it, w, plus(x, -k, v), v)
            if swap:
                a, b = b, a
            return lambda: meth(it, a, "intersect_line_segment", b)
        truefam("LineSegment.intersect_line_segment meeting %s of the %s" % (_n, "other" if _swap else "segment"), D23, _f, VE,
                "segments")


def _crossing(it, w, d):
    p, u, v = PT("p", d), nz(it, DIR(it, "u", d)), nz(it, DIR(it, "v", d))
    x = plus(p, frac(it, "t"), u)
    b = seg(it, w, plus(x, -frac(it, "k"), v), v)
    a = seg(it, w, p, u)
    return lambda: at_point(meth(it, a, "intersect_line_segment", b), x)


def at_point(v, x):
    """True when the value is the point x, False when it is another one."""
    if not isinstance(v, Arr) or len(v.cells) != len(x):
        return False
    z = [V.is_zero(a - b) for a, b in zip(v.cells, x)]
    return True if all(q is True for q in z) else False if any(q is False for q in z) else v


truefam("LineSegment.intersect_line_segment of crossing segments", D23, _crossing, True, "segments")


def raising(*names):
    return names


truefam("Vector.is_parallel of parallel vectors", (1, 2, 3, 4), lambda it, w, d: (
    lambda u: (lambda o: lambda: meth(it, o, "is_parallel", A(scaled(nonzero(it, "k"), u))))(vector(it, w, u)))(
        nz(it, DIR(it, "u", d))))
truefam("Vector.is_perpendicular of perpendicular vectors", (2,), lambda it, w, d: (
    lambda u: (lambda o: lambda: meth(it, o, "is_perpendicular", A([-num("k") * u[1], num("k") * u[0]])))(vector(it, w, u)))(
        nz(it, DIR(it, "u", d))))
truefam("Vector.is_perpendicular of a cross product", (3,), lambda it, w, d: (
    lambda u: (lambda o: lambda: meth(it, o, "is_perpendicular", A(posts.cross(u, DIR(it, "v", 3)))))(vector(it, w, u)))(
        nz(it, DIR(it, "u", d))))
truefam("Vector.is_zero of the zero vector", (1, 2, 3, 4), lambda it, w, d: (
    lambda o: lambda: meth(it, o, "is_zero"))(vector(it, w, [ZERO] * d)))
for _c in ("Point", "Vector", "Points"):
    for _m in ("is_close", "is_equal"):
        def _f(it, w, d, c=_c, m=_m):
            o = it.call(w.cls(c), [pts("p", 3, d) if c == "Points" else A(PT("p", d))], {})
            q = it.call(w.cls(c), [pts("p", 3, d) if c == "Points" else A(PT("p", d))], {})
            return lambda: meth(it, o, m, q)
        truefam("%s.%s of an equal %s" % (_c, _m, _c), (1, 2, 3, 4), _f)
truefam("Line.is_close of the same line", (1, 2, 3, 4), lambda it, w, d: (lambda u, k, t: (
    lambda o, q: lambda: meth(it, o, "is_close", q))(
        line(it, w, "o", d, u), line(it, w, "q", d, scaled(k, u), plus(PT("o.p", d), t, u))))(
            nz(it, DIR(it, "o", d)), nonzero(it, "k"), num("t")))
truefam("Plane.is_close of the same plane", (3,), lambda it, w, d: (lambda n, k, t: (
    lambda o, q: lambda: meth(it, o, "is_close", q))(
        plane(it, w, "o", d, n), plane(it, w, "q", d, scaled(k, n), plus(PT("o.p", d), t, posts.cross(n, DIR(it, "v", 3))))))(
            nz(it, DIR(it, "o", d)), nonzero(it, "k"), num("t")))
truefam("Line.is_coplanar of intersecting lines", (3,), lambda it, w, d: (lambda u, k: (
    lambda o, q: lambda: meth(it, o, "is_coplanar", q))(
        line(it, w, "o", d, u), line(it, w, "q", d, None, plus(PT("o.p", d), k, u))))(nz(it, DIR(it, "o", d)), num("k")))
truefam("Line.is_coplanar of parallel lines", (3,), lambda it, w, d: (lambda u, k: (
    lambda o, q: lambda: meth(it, o, "is_coplanar", q))(
        line(it, w, "o", d, u), line(it, w, "q", d, scaled(k, u))))(nz(it, DIR(it, "o", d)), nonzero(it, "k")))
truefam("Line.is_coplanar of 2D lines", (2,), lambda it, w, d: (
    lambda o, q: lambda: meth(it, o, "is_coplanar", q))(line(it, w, "o", d), line(it, w, "q", d)))


def points(it, w, a):
    return it.call(w.cls("Points"), [a], {})


for _m, _f in (("are_concurrent", same_points), ("are_collinear", collinear), ("are_coplanar", coplanar)):
    for _n in (2, 3, 4, 5):
        truefam("Points.%s of %d such points" % (_m, _n), (3,) if _m == "are_coplanar" else D23,
                lambda it, w, d, m=_m, f=_f, n=_n: (lambda o: lambda: meth(it, o, m))(points(it, w, f(it, n, d))))
for _m, _f in (("are_collinear", same_points), ("are_coplanar", same_points), ("are_coplanar", collinear)):
    truefam("Points.%s of %s points" % (_m, "equal" if _f is same_points else "collinear"), D23,
            lambda it, w, d, m=_m, f=_f: (lambda o: lambda: meth(it, o, m))(points(it, w, f(it, 4, d))))
truefam("Points.are_collinear of two points", D23, lambda it, w, d: (
    lambda o: lambda: meth(it, o, "are_collinear"))(points(it, w, pts("p", 2, d))))
truefam("Points.are_coplanar of three points", D23, lambda it, w, d: (
    lambda o: lambda: meth(it, o, "are_coplanar"))(points(it, w, pts("p", 3, d))))
truefam("Points.are_coplanar of 2D points", (2,), lambda it, w, d: (
    lambda o: lambda: meth(it, o, "are_coplanar"))(points(it, w, pts("p", 5, d))))


def cyl(it, w):
    p, h, r = PT("p", 3), pos(it, "h"), pos(it, "r")
    return p, h, r, it.call(w.cls("Cylinder"), [A(p), A([ZERO, ZERO, h]), S(r)], {})


def incyl(it, w, k, rho):
    """The point of an upright cylinder at height k h and at rho r from the axis."""
    p, h, r, o = cyl(it, w)
    u = unitdir(it)
    return lambda: meth(it, o, "is_point_within", A(plus(p, ONE, [rho * r * u[0], rho * r * u[1], k * h])))


for _n, _k, _rho, _want in (
        ("inside", frac, frac, True), ("on the axis", frac, lambda it, n: ZERO, True),
        ("above", lambda it, n: ONE + pos(it, n), frac, False), ("below", lambda it, n: -pos(it, n), frac, False),
        ("beside", frac, lambda it, n: ONE + pos(it, n), False)):
    truefam("Cylinder.is_point_within of a point %s" % _n, (3,),
            lambda it, w, d, k=_k, rho=_rho: incyl(it, w, k(it, "k"), rho(it, "q")), _want)


# ------------------------------------------------------------------ which side
for _n, _s, _want in (("left", 1, None), ("right", -1, None), ("on the line", 0, 0)):
    pass

import posts
