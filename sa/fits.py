"""Least-squares fits: what best_fit hands to the numerical solver and what it makes of the solution (C36).

The solver (singular value decomposition, linear least squares, minimisation) is uninterpreted on the abstract path; its
value numbers stand for the solution of the system they were built from.  The result's value numbers are compared with the
definition of the fit at random points of the path's region (region.py).
"""
import math

import poly as V
import domains as D
import posts
import region
from region import NoPoint
from judge import cells, attr, Shape

TOL = 1e-5
NEED = 40


def sample(p, secs, d):
    """Points of the path with their coordinates."""
    yield from region.points(p, secs, free=True)


def rows_of(pt, d):
    at = V.T.index.get(("in", ("a0[i].0",)))
    if at is not None:
        qs = [posts.of_atom(V.T.get("in", ("a0[i].%d" % j,))) for j in range(d)]
        return [[pt.poly(q, (("N", i),))[0] for q in qs] for i in range(pt.n)]
    out = []
    for k in range(60):
        if ("in", ("a0%d.0" % k,)) not in V.T.index:
            break
        out.append([pt.poly(posts.of_atom(V.T.get("in", ("a0%d.%d" % (k, j),))))[0] for j in range(d)])
    if not out:
        raise NoPoint()
    return out


# ------------------------------------------------------------------ numeric definitions
def mean(X):
    return [math.fsum(c) / len(X) for c in zip(*X)]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def dot(a, b):
    return math.fsum(x * y for x, y in zip(a, b))


def unit(v):
    n = math.sqrt(dot(v, v))
    if n == 0 or n != n:
        raise NoPoint()
    return [x / n for x in v]


def close(a, b, scale):
    return abs(a - b) <= TOL * scale


def parallel(u, v):
    u, v = unit(u), unit(v)
    return 1 - abs(dot(u, v)) <= TOL * TOL * 100


def spread(X):
    c = mean(X)
    Y = [sub(x, c) for x in X]
    w, E = region.eigen(region.gram(Y))
    if any(x - y <= 1e-3 * w[0] for x, y in zip(w, w[1:])):
        raise NoPoint()
    return c, w, E


def size(X):
    return max(max(abs(v) for v in x) for x in X) or 1.0


def values(pt, xs):
    out = []
    for x in xs:
        v, e, mag = pt.poly(x)
        if e > 1e-7 * max(abs(v), 1e-3):
            raise NoPoint()
        out.append(v)
    return out


def line_or_plane(it, R, d, plane, error):
    if error:
        if not isinstance(R, (tuple, list)) or len(R) != 2:
            raise Shape("not a pair")
        R, err = R
        err = cells(err, 1)[0]
    p, u = attr(it, R, "point", "normal" if plane else "direction")
    p, u = cells(p), cells(u)

    def through(pt, X):
        c = mean(X)
        return all(close(a, b, size(X)) for a, b in zip(values(pt, p), c))

    def along(pt, X):
        c, w, E = spread(X)
        return parallel(values(pt, u), E[-1] if plane else E[0])

    def residual(pt, X):
        c, w, E = spread(X)
        want = w[-1] if plane else math.fsum(w[1:])
        return close(pt.poly(err)[0], want, w[0])
    out = [("the fit passes through the centroid of the points", through),
           ("the normal is the direction of least variance" if plane else "the direction is that of greatest variance", along)]
    if error:
        out.append(("the error is the sum of squared distances of the points", residual))
    return out


def ball(it, R, d):
    c, r = attr(it, R, "point", "radius")
    c, r = cells(c), cells(r, 1)[0]

    def centre(pt, X):
        want = region.normal([[2 * v for v in x] + [1.0] for x in X], [dot(x, x) for x in X])[:d]
        return all(close(a, b, max(size(X), max(map(abs, want)))) for a, b in zip(values(pt, c), want))

    def radius(pt, X):
        cc = values(pt, c)
        want = math.sqrt(math.fsum(dot(sub(x, cc), sub(x, cc)) for x in X) / len(X))
        return close(pt.poly(r)[0], want, want)
    return [("the centre solves the algebraic least-squares problem", centre),
            ("the radius is the root mean square distance of the points from the centre", radius)]


def flat(X, u):
    """Points without their component along u."""
    return [[a - dot(x, u) * b for a, b in zip(x, u)] for x in X]


def circle_in(X, u):
    """Centre and residual of the algebraic circle fit of the points (centred) projected along u."""
    Y = flat(X, u)
    k = min(range(3), key=lambda i: abs(u[i]))
    a = unit([float(i == k) - u[k] * u[i] for i in range(3)])
    b = [u[1] * a[2] - u[2] * a[1], u[2] * a[0] - u[0] * a[2], u[0] * a[1] - u[1] * a[0]]
    Z = [[dot(y, a), dot(y, b)] for y in Y]
    q = [dot(z, z) for z in Z]
    x = region.normal([[2 * z[0], 2 * z[1], 1.0] for z in Z], q)
    res = math.fsum((2 * z[0] * x[0] + 2 * z[1] * x[1] + x[2] - v) ** 2 for z, v in zip(Z, q))
    return [x[0] * a[i] + x[1] * b[i] for i in range(3)], res


def cylinder(it, R, d, p):
    pt0, v, r = attr(it, R, "point", "vector", "radius")
    pt0, v, r = cells(pt0), cells(v), cells(r, 1)[0]
    mins = [e for e in p.events if e.kind == "minimize"]
    if len(mins) != 1:
        raise Shape("not found by one minimisation")
    fun = cells(mins[0].data["fun"], 1)[0]
    args = {a.info["pos"]: a.id for x in v for a in D.atoms_deep(x) if a.kind == "argmin"}
    back = {k: next(iter(x.atoms())) for k, x in enumerate(mins[0].data["args"])}
    if not args:
        raise Shape("not a function of the minimum")
    pairs = [(args.get(k), b) for k, b in back.items()]

    def axis(pt, X):
        u = unit(values(pt, v))
        c = mean(X)
        ctr, _ = circle_in([sub(x, c) for x in X], u)
        w = sub(values(pt, pt0), [a + b for a, b in zip(c, ctr)])
        w = [a - dot(w, u) * b for a, b in zip(w, u)]
        return all(close(a, 0.0, size(X) + max(map(abs, ctr))) for a in w)

    def radius(pt, X):
        u = unit(values(pt, v))
        o = values(pt, pt0)
        Y = flat([sub(x, o) for x in X], u)
        want = math.sqrt(math.fsum(dot(y, y) for y in Y) / len(X))
        return close(pt.poly(r)[0], want, want)

    def start(pt, X):
        u = unit(values(pt, v))
        lo = min(dot(x, u) for x in X)
        hi = max(dot(x, u) for x in X)
        at = dot(values(pt, pt0), u)
        return close(at, lo, size(X)) or close(at, hi, size(X))

    def objective(pt, X):
        c = mean(X)
        Y = [sub(x, c) for x in X]
        seen = []
        for _ in range(6):
            for a, b in pairs:
                z = pt.rnd.uniform(-3, 3)
                pt.val[(b,)] = z
                if a is not None:
                    pt.val[(a,)] = z
            pt.memo.clear()
            try:
                u = unit(values(pt, v))
                g = circle_in(Y, u)[1]
                f, e, mag = pt.poly(fun)
            except NoPoint:
                continue
            seen.append((g, f, e + 1e-9 * mag))
        if len(seen) < 2:
            raise NoPoint()
        bad = 0
        for i, (g, f, e) in enumerate(seen):
            for h, k, j in seen[:i]:
                if g < h * (1 - 1e-3) and f > k + 10 * (e + j) + 1e-6 * abs(k):
                    bad += 1
                if h < g * (1 - 1e-3) and k > f + 10 * (e + j) + 1e-6 * abs(f):
                    bad += 1
        return not bad
    return [("the axis passes through the centre of the algebraic circle fit across it", axis),
            ("the radius is the root mean square distance of the points from the axis", radius),
            ("the cylinder starts level with the outermost point", start),
            ("directions are compared by the residual of the circle fit across them", objective)]


TASKS = [("fit", n, d) for n, ds in (("Line.best_fit", (2, 3, 4)), ("Plane.best_fit", (3,)), ("Circle.best_fit", (2,)),
                                     ("Sphere.best_fit", (3,)), ("Cylinder.best_fit", (3,)), ("Line.best_fit#error", (2, 3)),
                                     ("Plane.best_fit#error", (3,))) for d in ds]


def duties(it, name, R, d, p):
    n = name.split("#")[0]
    if n in ("Line.best_fit", "Plane.best_fit"):
        return line_or_plane(it, R, d, n[0] == "P", "#" in name)
    if n == "Cylinder.best_fit":
        return cylinder(it, R, d, p)
    return ball(it, R, d)


def check(p, d, duties, secs):
    """{title: (agreeing points, description of a disagreeing point or None)}"""
    out = {t: [0, 0, None] for t, _ in duties}
    for pt in sample(p, secs, d):
        try:
            X = rows_of(pt, d)
        except NoPoint:
            continue
        for t, f in duties:
            s = out[t]
            try:
                ok = f(pt, X)
            except (NoPoint, OverflowError, ZeroDivisionError, ValueError):
                continue
            s[0 if ok else 1] += 1
            if not ok and s[2] is None:
                s[2] = region.show(pt)
        if all(s[0] + s[1] >= (5 * NEED if s[1] == 1 else NEED) for s in out.values()):
            break
    return out

