"""What the result of each operation must satisfy, in exact arithmetic.

Each entry maps an operation to a function of the result and the input coordinates
returning equations: (name, [polynomials that must all vanish]) or
(name, [alternatives]) where each alternative is such a list.
Only definitions from geometry are used; nothing refers to how a value is computed.
"""
import decimal
import poly as V
from poly import P, ZERO, ONE, const, of_atom
import domains as D
from values import *
import judge
from judge import cells, attr, Shape


class In:
    """Coordinates of the operands by name."""

    def __init__(self, d):
        self.d = d

    def __call__(self, name, d=None):
        return [of_atom(V.T.get("in", ("%s.%d" % (name, i),))) for i in range(d or self.d)]

    def s(self, name):
        return of_atom(V.T.get("in", (name,)))


def dot(a, b):
    s = ZERO
    for x, y in zip(a, b):
        s = s + x * y
    return s


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def add(a, b):
    return [x + y for x, y in zip(a, b)]


def mul(k, a):
    return [k * x for x in a]


def sq(a):
    return dot(a, a)


def par(a, b):
    """2x2 minors: a parallel to b."""
    n = len(a)
    return [a[i] * b[j] - a[j] * b[i] for i in range(n) for j in range(i + 1, n)]


def cross(a, b):
    a = list(a) + [ZERO] * (3 - len(a))
    b = list(b) + [ZERO] * (3 - len(b))
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def det3(a, b, c):
    return dot(cross(a, b), c)


def root(p):
    return V.sqrt(p)


def norm(a):
    return V.sqrt(sq(a))


def pi():
    import models
    return models.pi_atom()


def eq(a, b):
    return sub(a, b)


def c1(R):
    return cells(R, 1)[0]


class Fact(list):
    """Equations that must hold; alt: several admissible lists."""


def alts(*xs):
    return ("alt", xs)


POSTS = {}


def post(*names):
    def deco(f):
        for n in names:
            POSTS.setdefault(n, []).append(f)
        return f
    return deco


def line(it, R):
    p, u = attr(it, R, "point", "direction")
    return cells(p), cells(u)


def plane(it, R):
    p, u = attr(it, R, "point", "normal")
    return cells(p), cells(u)


def rows(R, d):
    c = cells(R)
    if len(c) % d:
        raise Shape("rows")
    return [c[i:i + d] for i in range(0, len(c), d)]


# ------------------------------------------------------------------ projections
@post("Line.project_point", "Line.project_points")
def _(it, R, I, o):
    a, u = I("self.p"), I("self")
    p = I("a0[i]" if o.name.endswith("s") else "a0")
    q = cells(R, I.d)
    return [("the projection lies on the line", par(sub(q, a), u)),
            ("the offset is perpendicular to the line", [dot(sub(p, q), u)])]


@post("Line.project_vector", "Vector.project_vector")
def _(it, R, I, o):
    u, v = I("self"), I("a0")
    q = cells(R, I.d)
    return [("the projection is parallel to the direction", par(q, u)),
            ("the remainder is perpendicular to the direction", [dot(sub(v, q), u)])]


@post("Plane.project_point", "Plane.project_points")
def _(it, R, I, o):
    a, n = I("self.p"), I("self")
    p = I("a0[i]" if o.name.endswith("s") else "a0")
    q = cells(R, I.d)
    return [("the projection lies on the plane", [dot(sub(q, a), n)]),
            ("the offset is parallel to the normal", par(sub(p, q), n))]


@post("Plane.project_vector")
def _(it, R, I, o):
    n, v = I("self"), I("a0")
    q = cells(R, I.d)
    return [("the projection is perpendicular to the normal", [dot(q, n)]),
            ("the remainder is parallel to the normal", par(sub(v, q), n))]


@post("Plane.project_line")
def _(it, R, I, o):
    a, n, b, v = I("self.p"), I("self"), I("a0.p"), I("a0")
    p, u = line(it, R)
    return [("the projected line is parallel to the plane", [dot(u, n)]),
            ("the projected line lies in the plane", [dot(sub(p, a), n)]),
            ("line, projection and normal are coplanar", [det3(v, u, n), det3(sub(b, p), u, n)])]


@post("Circle.project_point", "Sphere.project_point")
def _(it, R, I, o):
    c, r, p = I("self.c"), I.s("self.r"), I("a0")
    q = cells(R, I.d)
    m = norm(sub(p, c))
    return [("the projection is at the radius from the centre", [sq(sub(q, c)) - r * r]),
            ("the projection is on the ray from the centre to the point", eq(mul(m, sub(q, c)), mul(r, sub(p, c))))]


# ------------------------------------------------------------------ distances and angles
@post("Point.distance_point")
def _(it, R, I, o):
    return [("the Euclidean distance", [c1(R) - norm(sub(I("self"), I("a0")))])]


@post("Vector.norm")
def _(it, R, I, o):
    return [("the Euclidean length", [c1(R) - norm(I("self"))])]


@post("Vector.unit")
def _(it, R, I, o):
    u = I("self")
    return [("the vector divided by its length", eq(mul(norm(u), cells(R, I.d)), u))]


def lindist2(p, a, u):
    w = sub(p, a)
    return sq(w) * sq(u) - dot(w, u) * dot(w, u)


@post("Line.distance_point", "Line.distance_points")
def _(it, R, I, o):
    a, u = I("self.p"), I("self")
    p = I("a0[i]" if o.name.endswith("s") else "a0")
    x = c1(R)
    return [("the squared distance from the line", [x * x * sq(u) - lindist2(p, a, u)]), ("nonneg", x)]


@post("Line.distance_line")
def _(it, R, I, o):
    a, u, b, v = I("self.p"), I("self"), I("a0.p"), I("a0")
    x = c1(R)
    w = sub(b, a)
    cr = cross(u, v)
    t = dot(cr, w + [ZERO] * (3 - len(w)))
    return [("the distance between the lines",
             alts([x * x * sq(u) - lindist2(b, a, u)], [x * x * sq(v) - lindist2(b, a, v)], [x * x * sq(cr) - t * t])),
            ("nonneg", x)]


@post("Plane.distance_point_signed", "Plane.distance_points_signed", "Plane.distance_point", "Plane.distance_points")
def _(it, R, I, o):
    a, n = I("self.p"), I("self")
    p = I("a0[i]" if "points" in o.name else "a0")
    x = c1(R)
    s = dot(sub(p, a), n)
    if "signed" in o.name:
        return [("the signed distance from the plane", [x * norm(n) - s])]
    return [("the squared distance from the plane", [x * x * sq(n) - s * s]), ("nonneg", x)]


@post("Circle.distance_point", "Sphere.distance_point")
def _(it, R, I, o):
    m = norm(sub(I("a0"), I("self.c"))) - I.s("self.r")
    x = c1(R)
    return [("the squared distance from the surface", [x * x - m * m]), ("nonneg", x)]


def unclip(x, kinds=("clip",)):
    return V.substitute(x, lambda a: V.substitute(a.args[0], lambda b: None) if a.kind in kinds else None)


def unmax(x):
    """max(x, 0) in the interior of its range, and bounds that never bind."""
    def f(a):
        if a.kind in ("max", "min", "clip"):
            xs = [y for y in a.args if y.const() is None]
            if len(xs) == 1 and (all(y.const() in (None, 0) for y in a.args) or idle(a, xs[0])):
                return unmax(xs[0])
        return None
    return V.substitute(x, f)


def idle(a, x):
    """The constant bounds of a clamp never bind (as those of a cosine)."""
    if "idle" not in (a.info or {}):
        ok = True
        for pt in range(16):
            try:
                u, t = V.real_at(x, pt)
                v, s = V.real_at(of_atom(a), pt)
            except Exception:
                continue
            ok = ok and abs(u - v) <= t + s + abs(u) * decimal.Decimal("1e-20")
        if a.info is None:
            a.info = {}
        a.info["idle"] = ok
    return a.info["idle"]


def inner(x, kind):
    """The argument of an inverse trigonometric result."""
    a = x.single()
    if a is None or a.kind != kind:
        return None
    return a.args


@post("Vector.cosine_similarity")
def _(it, R, I, o):
    u, v = I("self"), I("a0")
    return [("the cosine of the angle", [c1(R) * norm(u) * norm(v) - dot(u, v)])]


def cosine_is(x, num, den):
    """acos(x) with x*den == num."""
    a = inner(x, "acos")
    if a is not None:
        return [unmax(a[0]) * den - num]
    return None


def turn(th, x, y, h):
    """The angle has cosine x/h and sine y/h."""
    over = V.absv(th) - of_atom(V.T.get("pi"))
    return [("cosine of the angle", ("sampled", [of_atom(V.T.get("cos", (th,))) * h - x])),
            ("sine of the angle", ("sampled", [of_atom(V.T.get("sin", (th,))) * h - y])),
            ("the angle is at most pi", ("sampled", [over + V.absv(over)]))]


@post("Vector.angle_between")
def _(it, R, I, o):
    u, v = I("self"), I("a0")
    e = cosine_is(c1(R), dot(u, v), norm(u) * norm(v))
    if e:
        return [("the angle whose cosine is the cosine similarity", e)]
    h = norm(u) * norm(v)
    return turn(c1(R), dot(u, v), V.sqrt(dot(u, u) * dot(v, v) - dot(u, v) * dot(u, v)), h)


@post("Vector.angle_signed")
def _(it, R, I, o):
    u, v = I("self"), I("a0")
    a = inner(c1(R), "atan2")
    y, x = u[0] * v[1] - u[1] * v[0], dot(u, v)
    if a is None:
        return turn(c1(R), x, y, norm(u) * norm(v))
    return [("the angle of the rotation from the vector to the other", [a[0] * x - a[1] * y]),
            ("same sense", ("ratio+", a[0], y)), ("same sense", ("ratio+", a[1], x))]


@post("Vector.angle_signed_3d")
def _(it, R, I, o):
    u, v, k = I("self"), I("a0"), I("a1")
    a = inner(c1(R), "atan2")
    if a is None:
        return turn(c1(R), dot(u, v), V.div(dot(cross(u, v), k), norm(k)), norm(u) * norm(v))
    return [("the sine and cosine part of the signed angle",
             [a[0] * norm(k) * dot(u, v) - a[1] * dot(cross(u, v), k)])]


@post("Vector.side_vector")
def _(it, R, I, o):
    u, v = I("self"), I("a0")
    return [("side", ("sign", c1(R), u[1] * v[0] - u[0] * v[1]))]


@post("Line.side_point")
def _(it, R, I, o):
    u, w = I("self"), sub(I("a0"), I("self.p"))
    return [("side", ("sign", c1(R), u[1] * w[0] - u[0] * w[1]))]


@post("Plane.side_point")
def _(it, R, I, o):
    return [("side", ("sign", c1(R), dot(sub(I("a0"), I("self.p")), I("self"))))]


@post("Vector.scalar_projection")
def _(it, R, I, o):
    u = I("self")
    return [("the component along the vector", [c1(R) * norm(u) - dot(u, I("a0"))])]


@post("Vector.cross")
def _(it, R, I, o):
    return [("the cross product", eq(cells(R, 3), cross(I("self"), I("a0"))))]


@post("Line.transform_points")
def _(it, R, I, o):
    u = I("self")
    return [("the coordinate along the line", [c1(R) * norm(u) - dot(sub(I("a0[i]"), I("self.p")), u)])]


@post("Line.sum_squares")
def _(it, R, I, o):
    u = I("self")
    t = lindist2(I("a0[i]"), I("self.p"), u)
    return [("the sum of the squared distances", [c1(R) * sq(u) - D.nsum(t, "N")])]


@post("Plane.sum_squares")
def _(it, R, I, o):
    n = I("self")
    t = dot(sub(I("a0[i]"), I("self.p")), n)
    return [("the sum of the squared distances", [c1(R) * sq(n) - D.nsum(t * t, "N")])]


# ------------------------------------------------------------------ intersections
def online(q, a, u):
    return par(sub(q, a), u)


@post("Line.intersect_line")
def _(it, R, I, o):
    q = cells(R, I.d)
    return [("the point lies on the first line", online(q, I("self.p"), I("self"))),
            ("the point lies on the second line", online(q, I("a0.p"), I("a0")))]


@post("LineSegment.intersect_line_segment")
def _(it, R, I, o):
    q = cells(R, I.d)
    A, B, E, F = I("self.a"), I("self.b"), I("a0.a"), I("a0.b")
    return [("the point lies on the first segment's line", online(q, A, sub(B, A))),
            ("the point lies on the second segment's line", online(q, E, sub(F, E)))]


@post("Plane.intersect_line")
def _(it, R, I, o):
    q = cells(R, I.d)
    return [("the point lies on the plane", [dot(sub(q, I("self.p")), I("self"))]),
            ("the point lies on the line", online(q, I("a0.p"), I("a0")))]


@post("Plane.from_vectors#flat")
def _(it, R, I, o):
    p, n = plane(it, R)
    a, u, v = I("a0"), I("a1"), I("a2")
    return [("the plane is level with the point", eq(p, list(a) + [ZERO])), ("the normal points along the third axis", [n[0], n[1]]),
            ("the normal does not vanish", ("notzero", [n[2]], [ONE]))]


@post("Plane.from_points#flat")
def _(it, R, I, o):
    p, n = plane(it, R)
    return [("the plane is level with the points", [dot(sub(list(I(k)) + [ZERO], p), n) for k in ("a0", "a1", "a2")]),
            ("the normal does not vanish", ("notzero", list(n), [ONE]))]


@post("Plane.intersect_plane")
def _(it, R, I, o):
    p, u = line(it, R)
    n, m = I("self"), I("a0")
    return [("the line lies in the first plane", [dot(u, n), dot(sub(p, I("self.p")), n)]),
            ("the line lies in the second plane", [dot(u, m), dot(sub(p, I("a0.p")), m)])]


def two(R):
    if not isinstance(R, (tuple, list)) or len(R) != 2:
        raise Shape("not two points")
    return R


@post("Circle.intersect_line", "Sphere.intersect_line")
def _(it, R, I, o):
    out = []
    for k, x in enumerate(two(R)):
        q = cells(x, I.d)
        out.append(("point %d lies on the %s" % (k, o.name.split(".")[1].lower()),
                    [sq(sub(q, I("self.c"))) - I.s("self.r") * I.s("self.r")]))
        out.append(("point %d lies on the line" % k, online(q, I("a0.p"), I("a0"))))
    u, w = I("a0"), sub(I("a0.p"), I("self.c"))
    out += distinct(R, I.d, (I.s("self.r") * I.s("self.r") - sq(w)) * sq(u) + dot(u, w) * dot(u, w))
    return out


@post("Circle.intersect_circle")
def _(it, R, I, o):
    out = []
    for k, x in enumerate(two(R)):
        q = cells(x, I.d)
        for n in ("self", "a0"):
            out.append(("point %d lies on %s circle" % (k, "the first" if n == "self" else "the second"),
                        [sq(sub(q, I(n + ".c"))) - I.s(n + ".r") * I.s(n + ".r")]))
    h, (r, t) = sq(sub(I("a0.c"), I("self.c"))), (I.s("self.r"), I.s("a0.r"))
    out += distinct(R, I.d, (r + t) * (r + t) - h, h - (r - t) * (r - t))
    return out


def distinct(R, d, *guards):
    """The two points differ where all guards are positive."""
    a, b = cells(R[0], d), cells(R[1], d)
    return [("the two points differ", ("notzero", sub(a, b), guards))]


@post("Cylinder.intersect_line")
def _(it, R, I, o):
    out = []
    v, r, b = I("self"), I.s("self.r"), I("self.p")
    for k, x in enumerate(two(R)):
        q = cells(x, 3)
        out.append(("point %d lies on the lateral surface" % k, [sq(cross(sub(q, b), v)) - r * r * sq(v)]))
        out.append(("point %d lies on the line" % k, online(q, I("a0.p"), I("a0"))))
    out += distinct(R, 3)
    return out


@post("Cylinder.intersect_line#finite")
def _(it, R, I, o):
    out, inside = [], []
    v, r, b = I("self"), I.s("self.r"), I("self.p")
    for k, x in enumerate(two(R)):
        q = cells(x, 3)
        out.append(("point %d lies on the surface" % k,
                    alts([sq(cross(sub(q, b), v)) - r * r * sq(v)], [dot(sub(q, b), v)], [dot(sub(q, add(b, v)), v)])))
        inside += [r * r * sq(v) - sq(cross(sub(q, b), v)), dot(sub(q, b), v), sq(v) - dot(sub(q, b), v)]
        out.append(("point %d lies on the line" % k, online(q, I("a0.p"), I("a0"))))
    out.append(("both points are between the caps and not outside the lateral surface", ("within", inside)))
    return out


# ------------------------------------------------------------------ construction
@post("Vector.from_points")
def _(it, R, I, o):
    return [("the vector from the first to the second point", eq(cells(R, I.d), sub(I("a1"), I("a0"))))]


@post("Line.from_points")
def _(it, R, I, o):
    p, u = line(it, R)
    return [("the line passes through the first point", online(I("a0"), p, u)),
            ("the line passes through the second point", online(I("a1"), p, u))]


@post("Line.from_slope")
def _(it, R, I, o):
    p, u = line(it, R)
    m, b = I.s("a0"), I.s("a1")
    return [("the line satisfies y = slope x + intercept", [p[1] - m * p[0] - b, u[1] - m * u[0]])]


@post("Line.to_point")
def _(it, R, I, o):
    return [("the point plus t times the direction",
             eq(cells(R, I.d), add(I("self.p"), mul(I.s("a0"), I("self")))))]


@post("Plane.from_vectors")
def _(it, R, I, o):
    p, n = plane(it, R)
    return [("the plane contains the point", [dot(sub(I("a0"), p), n)]),
            ("the plane is parallel to both vectors", [dot(n, I("a1")), dot(n, I("a2"))])]


@post("Plane.from_points")
def _(it, R, I, o):
    p, n = plane(it, R)
    return [("the plane contains point %s" % x, [dot(sub(I("a%d" % k), p), n)]) for k, x in enumerate("abc")]


@post("Plane.cartesian")
def _(it, R, I, o):
    if not isinstance(R, (tuple, list)) or len(R) != 4:
        raise Shape("not four coefficients")
    a, b, c, dd = [c1(x) for x in R]
    n = [a, b, c]
    z = [ZERO] * (3 - I.d)
    return [("the coefficients describe the plane", par(n, I("self") + z) + [dot(n, I("self.p") + z) + dd]),
            ("the coefficients are not all zero", ("notzero", n, ()))]


@post("Plane.best_fit", "Line.best_fit")
def _(it, R, I, o):
    p, n = (plane if "Plane" in o.name else line)(it, R)
    cen = [D.nsum(x, "N") for x in I("a0[i]")]
    N = D.count_atom("N")
    return [("the fit passes through the centroid", eq(mul(N, p), cen))]


@post("Circle.from_points")
def _(it, R, I, o):
    p, r = attr(it, R, "point", "radius")
    p, r = cells(p), c1(r)
    return [("the circle passes through point %s" % x, [sq(sub(I("a%d" % k), p)) - r * r]) for k, x in enumerate("abc")]


@post("Cylinder.from_points")
def _(it, R, I, o):
    p, v, r = attr(it, R, "point", "vector", "radius")
    p, v, r = cells(p), cells(v), c1(r)
    return [("the axis runs from the first to the second point", eq(p, I("a0")) + eq(add(p, v), I("a1"))),
            ("the radius is the given one", [r - I.s("a2")])]


@post("Plane.to_points", "Plane.to_mesh", "Plane.to_mesh#lims")
def _(it, R, I, o):
    g = grid(R)
    out = [("every grid point lies on the plane", [dot(sub(q, I("self.p")), I("self"))]) for q in g]
    lim = [const(-1), const(1)]
    x, y = (I("a0", 2), I("a1", 2)) if o.args else (lim, lim)
    if len(x) == len(y) == 2 and len(g) == 4:
        p = I("self.p")
        ways = []
        for i, j in ((0, 1), (0, 2), (1, 2)):
            for order in ((0, 0), (1, 0), (0, 1), (1, 1)), ((0, 0), (0, 1), (1, 0), (1, 1)):
                ways.append([v for q, (a, b) in zip(g, order) for v in (q[i] - p[i] - x[a], q[j] - p[j] - y[b])])
        out.append(("the corners are the limits added to the point of the plane", alts(*ways)))
    return out


@post("Sphere.to_points", "Sphere.to_mesh", "Sphere.to_mesh#2", "Sphere.to_mesh#3")
def _(it, R, I, o):
    r = I.s("self.r")
    g = grid(R)
    out = [("every grid point lies on the sphere", [sq(sub(q, I("self.c"))) - r * r]) for q in g]
    if len(g) <= 12:
        out.append(("the mesh has two opposite points", alts(*([sq(sub(p, q)) - r * r * const(4)] for i, p in enumerate(g) for q in g[:i]))))
    return out


@post("Cylinder.to_points", "Cylinder.to_mesh", "Cylinder.to_mesh#2", "Cylinder.to_mesh#3")
def _(it, R, I, o):
    v, r, b = I("self"), I.s("self.r"), I("self.p")
    out = []
    g = grid(R)
    if len(g) <= 12:
        out.append(("the mesh reaches the base", alts(*([dot(sub(q, b), v)] for q in g))))
        out.append(("the mesh reaches the top", alts(*([dot(sub(q, b), v) - sq(v)] for q in g))))
    for q in g[:400]:
        w = sub(q, b)
        out.append(("every grid point lies on the surface",
                    alts([sq(cross(w, v)) - r * r * sq(v)], [dot(w, v)], [dot(sub(w, v), v)])))
    return out


def grid(R):
    if isinstance(R, (tuple, list)) and len(R) == 3:
        xs = [cells(x) for x in R]
        return [list(t) for t in zip(*xs)]
    return rows(R, 3)


# ------------------------------------------------------------------ triangles
def tri(I):
    return I("self.A"), I("self.B"), I("self.C")


OPP = {"a": ("B", "C"), "b": ("A", "C"), "c": ("A", "B")}


@post("Triangle.normal")
def _(it, R, I, o):
    A, B, C = tri(I)
    n = cells(R, 3)
    z = [ZERO] * (3 - I.d)
    return [("the normal is perpendicular to the sides", [dot(n, sub(B, A) + z), dot(n, sub(C, A) + z)])]


@post("Triangle.area", "measurement.area_triangle")
def _(it, R, I, o):
    A, B, C = tri(I) if "Triangle" in o.name else (I("a0"), I("a1"), I("a2"))
    cr = cross(sub(B, A), sub(C, A))
    x = c1(R)
    return [("half the parallelogram", [x * x * const(4) - sq(cr)]), ("nonneg", x)]


@post("measurement.volume_tetrahedron")
def _(it, R, I, o):
    A, B, C, E = I("a0"), I("a1"), I("a2"), I("a3")
    z = [ZERO] * (3 - I.d)
    t = det3(sub(B, A) + z, sub(C, A) + z, sub(E, A) + z)
    x = c1(R)
    return [("a sixth of the parallelepiped", [x * x * const(36) - t * t]), ("nonneg", x)]


@post("measurement.area_signed#3")
def _(it, R, I, o):
    A, B, C = I("a00"), I("a01"), I("a02")
    return [("half the cross product of two sides", [c1(R) * const(2) - cross(sub(B, A), sub(C, A))[2]])]


@post("measurement.area_signed#4")
def _(it, R, I, o):
    A, B, C, E = I("a00"), I("a01"), I("a02"), I("a03")
    return [("the shoelace sum", [c1(R) * const(2) - cross(sub(C, A), sub(E, B))[2]])]


@post("measurement.area_signed#5", "measurement.area_signed#7", "measurement.area_signed#8", "measurement.area_signed#11")
def _(it, R, I, o):
    n = int(o.name.split("#")[1])
    q = [I("a0%d" % i) for i in range(n)]
    t = ZERO
    for i in range(n):
        (a, b), (c, e) = q[i - 1], q[i]
        t = t + a * e - b * c
    return [("the shoelace sum", [c1(R) * const(2) - t])]


@post("Triangle.perimeter")
def _(it, R, I, o):
    A, B, C = tri(I)
    return [("the sum of the side lengths", [c1(R) - norm(sub(B, A)) - norm(sub(C, B)) - norm(sub(A, C))])]


@post("Triangle.centroid")
def _(it, R, I, o):
    A, B, C = tri(I)
    return [("the mean of the vertices", eq(mul(const(3), cells(R, I.d)), add(add(A, B), C)))]


@post("Triangle.angle")
def _(it, R, I, o):
    v = o.args[0][1:]
    P0 = I("self." + v)
    X, Y = [I("self." + q) for q in "ABC" if q != v]
    a, b = sub(X, P0), sub(Y, P0)
    e = cosine_is(c1(R), dot(a, b), norm(a) * norm(b))
    return [("the interior angle at vertex " + v, e)] if e else []


@post("Triangle.altitude")
def _(it, R, I, o):
    v = o.args[0][1:]
    P0 = I("self." + v)
    X, Y = [I("self." + q) for q in "ABC" if q != v]
    p, u = line(it, R)
    foot = add(p, u)
    return [("the altitude passes through vertex " + v, online(P0, p, u)),
            ("the altitude is perpendicular to the opposite side", [dot(u, sub(Y, X))]),
            ("the altitude spans from the vertex to the opposite side",
             alts(eq(p, P0) + par(sub(foot, X), sub(Y, X)), eq(foot, P0) + par(sub(p, X), sub(Y, X))))]


@post("Triangle.orthocenter")
def _(it, R, I, o):
    A, B, C = tri(I)
    H = cells(R, I.d)
    out = [("on the altitude of " + n, [dot(sub(H, X), sub(Z, Y))])
           for n, X, Y, Z in (("A", A, B, C), ("B", B, A, C), ("C", C, A, B))]
    if I.d == 3:
        out.append(("in the plane of the triangle", [det3(sub(H, A), sub(B, A), sub(C, A))]))
    return out


@post("Triangle.line")
def _(it, R, I, o):
    p, u = line(it, R)
    x, y = OPP[o.args[0][1:]]
    return [("the line passes through vertex " + q, online(I("self." + q), p, u)) for q in (x, y)]


@post("Triangle.length")
def _(it, R, I, o):
    x, y = OPP[o.args[0][1:]]
    return [("the length of side " + o.args[0][1:], [c1(R) - norm(sub(I("self." + x), I("self." + y)))])]


@post("Triangle.point")
def _(it, R, I, o):
    v = o.args[0][1:]
    return [("vertex " + v, eq(cells(R, I.d), I("self." + v)))]


@post("Triangle.multiple")
def _(it, R, I, o):
    if not isinstance(R, (tuple, list)) or len(R) != 3:
        raise Shape("not three results")
    out = []
    for x, n in zip(R, "abc"):
        p, q = OPP[n]
        out.append(("the length of side " + n, [c1(x) - norm(sub(I("self." + p), I("self." + q)))]))
    return out


# ------------------------------------------------------------------ measures
@post("Circle.circumference")
def _(it, R, I, o):
    return [("2 pi r", [c1(R) - pi() * I.s("self.r") * const(2)])]


@post("Circle.area")
def _(it, R, I, o):
    r = I.s("self.r")
    return [("pi r^2", [c1(R) - pi() * r * r])]


@post("Sphere.surface_area")
def _(it, R, I, o):
    r = I.s("self.r")
    return [("4 pi r^2", [c1(R) - pi() * r * r * const(4)])]


@post("Sphere.volume")
def _(it, R, I, o):
    r = I.s("self.r")
    return [("4/3 pi r^3", [c1(R) * const(3) - pi() * r * r * r * const(4)])]


@post("Cylinder.length")
def _(it, R, I, o):
    return [("the length of the axis", [c1(R) - norm(I("self"))])]


@post("Cylinder.lateral_surface_area")
def _(it, R, I, o):
    r = I.s("self.r")
    return [("2 pi r h", [c1(R) - pi() * r * norm(I("self")) * const(2)])]


@post("Cylinder.surface_area")
def _(it, R, I, o):
    r = I.s("self.r")
    return [("2 pi r h + 2 pi r^2", [c1(R) - pi() * r * const(2) * (norm(I("self")) + r)])]


@post("Cylinder.volume")
def _(it, R, I, o):
    r = I.s("self.r")
    return [("pi r^2 h", [c1(R) - pi() * r * r * norm(I("self"))])]


# ------------------------------------------------------------------ collections
@post("Points.centroid")
def _(it, R, I, o):
    N = D.count_atom("N")
    return [("the mean of the points", eq(mul(N, cells(R, I.d)), [D.nsum(x, "N") for x in I("self[i]")]))]


@post("Points.mean_center")
def _(it, R, I, o):
    N = D.count_atom("N")
    return [("the points relative to their mean",
             eq(mul(N, cells(R, I.d)), [N * x - D.nsum(x, "N") for x in I("self[i]")]))]


@post("Points.normalize_distance")
def _(it, R, I, o):
    p = I("self[i]")
    m = D.reduce_axis("nmax", norm(p), "N")
    return [("the points divided by the largest distance from the origin", eq(mul(m, cells(R, I.d)), p))]


@post("transformation.transform_coordinates")
def _(it, R, I, o):
    w = sub(I("a0[i]"), I("a1"))
    q = cells(R, 2)
    return [("the coordinates along the axes", [q[k] - dot(w, I("a2%d" % k)) for k in range(2)])]
