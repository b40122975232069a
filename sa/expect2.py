"""More families with a known outcome: predicates answered False, triangles, sides, sub-cases."""
from expect import *
from expect import _crossing


def perp(u):
    """A direction perpendicular to u, of the same length in 2D."""
    if len(u) == 4:
        return [-u[1], u[0], -u[3], u[2]]
    return [-u[1], u[0]] if len(u) == 2 else posts.cross(u, vec("w", 3, "dir").cells)


def sq(u):
    s = ZERO
    for c in u:
        s = s + c * c
    return s


def off(it, u):
    """A vector perpendicular to u that is not zero."""
    return nz(it, perp(u))


def both(it, w, d):
    return nz(it, DIR(it, "o", d))


# ------------------------------------------------------------------ vectors
def _f(it, w, d):
    u = both(it, w, d)
    o = vector(it, w, u)
    return lambda: meth(it, o, "is_parallel", A(plus(scaled(num("k"), u), nonzero(it, "s"), off(it, u))))


truefam("Vector.is_parallel of vectors that are not parallel", (2, 3, 4), _f, False)


def _f(it, w, d):
    u = both(it, w, d)
    o = vector(it, w, u)
    return lambda: meth(it, o, "is_perpendicular", A(plus(scaled(nonzero(it, "k"), u), num("s"), perp(u))))


truefam("Vector.is_perpendicular of vectors that are not perpendicular", (2, 3, 4), _f, False)
truefam("Vector.is_perpendicular of perpendicular vectors (3D)", (3,), lambda it, w, d: (
    lambda u: (lambda o: lambda: meth(it, o, "is_perpendicular", A(perp(u))))(vector(it, w, u)))(both(it, w, d)))
truefam("Vector.is_zero of a vector that is not zero", (2, 3, 4), lambda it, w, d: (
    lambda o: lambda: meth(it, o, "is_zero"))(vector(it, w, both(it, w, d))), False)

# ------------------------------------------------------------------ equality
for _c in ("Point", "Vector", "Points"):
    for _m in ("is_close", "is_equal"):
        for _i in range(3):
            def _f(it, w, d, c=_c, m=_m, i=_i):
                n = 3 if c == "Points" else 1
                cs = [x for k in range(n) for x in PT("pqr"[k], d)]
                o = it.call(w.cls(c), [Arr((n, d), list(cs), "nd", "f") if c == "Points" else A(cs)], {})
                at = (i % d) + (d * i if c == "Points" else 0)
                cs = list(cs)
                cs[at] = cs[at] + nonzero(it, "s")
                q = it.call(w.cls(c), [Arr((n, d), cs, "nd", "f") if c == "Points" else A(cs)], {})
                return lambda: meth(it, o, m, q)
            truefam("%s.%s with another coordinate %d" % (_c, _m, _i), (3, 4) if _i == 2 else (2, 3, 4), _f, False)

for _c, _d in (("Line", 2), ("Line", 3), ("Line", 4), ("Plane", 2), ("Plane", 3), ("Plane", 4)):
    def _f(it, w, d, c=_c):
        u = both(it, w, d)
        o = it.call(w.cls(c), [A(PT("p", d)), A(u)], {})
        v = off(it, u) if c == "Line" else u
        q = it.call(w.cls(c), [A(plus(plus(PT("p", d), nonzero(it, "s"), v), num("t") if c == "Line" else ZERO, u)),
                               A(scaled(nonzero(it, "k"), u))], {})
        return lambda: meth(it, o, "is_close", q)
    truefam("%s.is_close of a parallel %s beside it (%dD)" % (_c, _c.lower(), _d), (_d,), _f, False)

    def _f(it, w, d, c=_c):
        u = both(it, w, d)
        o = it.call(w.cls(c), [A(PT("p", d)), A(u)], {})
        q = it.call(w.cls(c), [A(PT("p", d)), A(plus(u, nonzero(it, "s"), off(it, u)))], {})
        return lambda: meth(it, o, "is_close", q)
    truefam("%s.is_close of a tilted %s (%dD)" % (_c, _c.lower(), _d), (_d,), _f, False)

    def _f(it, w, d, c=_c):
        u = both(it, w, d)
        o = it.call(w.cls(c), [A(PT("p", d)), A(u)], {})
        v = off(it, u) if c == "Line" else u
        return lambda: meth(it, o, "contains_point", A(plus(plus(PT("p", d), nonzero(it, "s"), v), num("t"), perp(u) if c == "Plane" else u)))
    truefam("%s.contains_point of a point beside it (%dD)" % (_c, _d), (_d,), _f, False)

for _c, _other in (("Line", "Plane"), ("Plane", "Line")):
    FAMS["%s.is_close of a %s" % (_c, _other)] = Fam("%s.is_close of a %s" % (_c, _other), "foreign", (3,), lambda it, w, d, c=_c, o=_other: (
        lambda a, b: lambda: meth(it, a, "is_close", b))(
            it.call(w.cls(c), [A(PT("p", d)), A(both(it, w, d))], {}), it.call(w.cls(o), [A(PT("p", d)), A(both(it, w, d))], {})), TE[1])
FAMS["Line.is_coplanar of a plane"] = Fam("Line.is_coplanar of a plane", "foreign", (3,), lambda it, w, d: (
    lambda a, b: lambda: meth(it, a, "is_coplanar", b))(line(it, w, "o", 3), plane(it, w, "q", 3)), TE[1])

for _c, _dir, _d in (("Circle", unitdir, 2), ("Sphere", unit3, 3)):
    for _n, _k in (("inside", frac), ("outside", lambda it, n: ONE + pos(it, n)), ("at the center", lambda it, n: ZERO)):
        def _f(it, w, d, c=_c, u=_dir, k=_k):
            p, r = PT("c", d), pos(it, "r")
            o = it.call(w.cls(c), [A(p), S(r)], {})
            return lambda: meth(it, o, "contains_point", A(plus(p, r * k(it, "k"), u(it))))
        truefam("%s.contains_point of a point %s" % (_c, _n), (_d,), _f, False)


# ------------------------------------------------------------------ lines and points in space
def _f(it, w, d):
    u, v = both(it, w, d), nz(it, DIR(it, "v", d))
    c = nz(it, posts.cross(u, v))
    p = plus(plus(PT("p", d), nonzero(it, "s"), c), num("t"), v)
    o, q = line(it, w, "o", d, u, PT("p", d)), line(it, w, "q", d, v, p)
    return lambda: meth(it, o, "is_coplanar", q)


truefam("Line.is_coplanar of skew lines", (3,), _f, False)


def _f(it, w, d):
    u = both(it, w, d)
    a = PT("p", d)
    o = points(it, w, Arr((3, d), list(a) + plus(a, ONE, u) + plus(plus(a, num("k"), u), nonzero(it, "s"), off(it, u)), "nd", "f"))
    return lambda: meth(it, o, "are_collinear")


truefam("Points.are_collinear of a triangle", D23, _f, False)


def _f(it, w, d):
    u, v = both(it, w, d), DIR(it, "v", d)
    c = nz(it, posts.cross(u, v))
    a = PT("p", d)
    o = points(it, w, Arr((4, d), list(a) + plus(a, ONE, u) + plus(a, ONE, v) + plus(a, nonzero(it, "s"), c), "nd", "f"))
    return lambda: meth(it, o, "are_coplanar")


truefam("Points.are_coplanar of a tetrahedron", (3,), _f, False)
truefam("Points.are_concurrent of two points", D23, lambda it, w, d: (
    lambda o: lambda: meth(it, o, "are_concurrent"))(
        points(it, w, Arr((2, d), PT("p", d) + plus(PT("p", d), ONE, both(it, w, d)), "nd", "f"))), False)


# ------------------------------------------------------------------ cylinders with any axis
def tilted(it, w, k, rho):
    p, r = PT("p", 3), pos(it, "r")
    u = nz(it, DIR(it, "u", 3))
    n = nz(it, perp(u))
    o = it.call(w.cls("Cylinder"), [A(p), A(u), S(r)], {})
    q = V.div(rho * r, V.sqrt(sq(n)))
    return lambda: meth(it, o, "is_point_within", A(plus(plus(p, k, u), q, n)))


for _n, _k, _rho, _want in (
        ("inside", frac, frac, True), ("on the axis", frac, lambda it, n: ZERO, True),
        ("above", lambda it, n: ONE + pos(it, n), frac, False), ("below", lambda it, n: -pos(it, n), frac, False),
        ("beside", frac, lambda it, n: ONE + pos(it, n), False),
        ("on the wall", frac, lambda it, n: ONE, True), ("on the base", lambda it, n: ZERO, frac, True),
        ("on the top", lambda it, n: ONE, frac, True), ("at the rim", lambda it, n: ONE, lambda it, n: ONE, True),
        ("at the base center", lambda it, n: ZERO, lambda it, n: ZERO, True),
        ("at the top center", lambda it, n: ONE, lambda it, n: ZERO, True)):
    truefam("Cylinder.is_point_within of a point %s of a tilted cylinder" % _n, (3,),
            lambda it, w, d, k=_k, rho=_rho: tilted(it, w, k(it, "k"), rho(it, "q")), _want)
    if _n in ("on the wall", "on the base", "on the top", "at the rim", "at the base center", "at the top center"):
        truefam("Cylinder.is_point_within of a point %s" % _n, (3,),
                lambda it, w, d, k=_k, rho=_rho: incyl(it, w, k(it, "k"), rho(it, "q")), _want)


# ------------------------------------------------------------------ triangles
def tri(it, w, *ps):
    return it.call(w.cls("Triangle"), [A(p) for p in ps], {})


ORDERS = {"A": (0, 1, 2), "B": (1, 0, 2), "C": (1, 2, 0), "A'": (0, 2, 1), "B'": (2, 0, 1), "C'": (2, 1, 0)}


def trifam(name, method, dims, pts, want, group="member"):
    """pts(it, d) -> apex and two others; the apex is put at each vertex in turn."""
    for v, o in ORDERS.items():
        def f(it, w, d, o=o):
            ps = pts(it, d)
            t = tri(it, w, *[ps[i] for i in o])
            return lambda: meth(it, t, method)
        truefam("Triangle.%s %s %s" % (method, name, v), dims, f, want, group)


def _right(it, d):
    a, u = PT("p", d), nz(it, DIR(it, "u", d))
    return a, plus(a, ONE, u), plus(a, nonzero(it, "s"), off(it, u))


def _oblique(it, d):
    a, u = PT("p", d), nz(it, DIR(it, "u", d))
    return a, plus(a, ONE, u), plus(plus(a, nonzero(it, "k"), u), nonzero(it, "s"), off(it, u))


def _iso(it, d):
    a, u = PT("p", d), nz(it, DIR(it, "u", d))
    n = plus([ZERO] * d, nonzero(it, "s"), off(it, u))
    return a, plus(plus(a, ONE, u), ONE, n), plus(plus(a, ONE, u), -ONE, n)


def _equi(it, d):
    a, u = PT("p", d), nz(it, DIR(it, "u", d))
    if d == 2:
        v = [-u[1], u[0]]
        r = V.sqrt(const(3))
        return a, plus(plus(a, ONE, u), r, v), plus(plus(a, -ONE, u), r, v)
    # u along any direction of the plane spanned by u and an axis-aligned perpendicular of the same length
    s = nonzero(it, "s")
    v = [s, ZERO, ZERO]
    return a, plus(a, ONE, [s, s, ZERO]), plus(a, ONE, [s, ZERO, s])


trifam("with a right angle at", "is_right", (2,), _right, True)
trifam("equilateral", "classify", D23, _equi, ("is", "equilateral"))
trifam("isosceles with apex", "classify", (2,), _iso, ("is", "isosceles"))
trifam("equilateral", "is_right", (3,), _equi, False)


def _scal(it, d):
    """Sides of lengths |u|, (1+a)|u| and more: never two equal."""
    a, u = PT("p", d), nz(it, DIR(it, "u", d))
    k = ONE + pos(it, "k")
    return a, plus(a, ONE, u), plus(a, -k, [-u[1], u[0]] if d == 2 else perp(u))


trifam("scalene", "classify", (2,), _scal, ("is", "scalene"))
trifam("without a right angle", "is_right", (2,), lambda it, d: (lambda a, u, k: (
    a, plus(a, ONE, u), plus(plus(a, -k, u), nonzero(it, "s"), off(it, u))))(PT("p", d), nz(it, DIR(it, "u", d)), pos(it, "k")), False)
