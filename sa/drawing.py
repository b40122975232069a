"""What plotting has to hand to matplotlib: scenarios and the judgement of the drawing calls."""
from suite import *
from judge import cells, Shape
import pairs

DRAW = {"scatter", "scatter3D", "plot", "plot3D", "arrow", "quiver", "annotate", "plot_surface", "plot_wireframe",
        "plot_trisurf", "add_artist", "add_patch", "add_line", "add_collection", "add_collection3d", "fill", "hlines", "vlines",
        "axline", "step", "errorbar"}
MARK = {"zorder": 71, "label": "given label"}

TASKS = {}


def task(name, kind, d, method, args, data, kw=None):
    """data(it, w, o, args) -> list of expected drawings."""
    TASKS[name] = (kind, d, method, args, data, kw or {})


def P_(it, o, n):
    return list(it.getattr(o, n).cells)


def val(x):
    return x.c if isinstance(x, Arr) else const(x)


def tpoint(it, o, t):
    p, v = P_(it, o, "point"), P_(it, o, "direction")
    return [a + val(t) * b for a, b in zip(p, v)]


def mesh(it, o, *args, **kw):
    m = it.call(it.getattr(o, "to_mesh"), list(args), kw)
    return [cells(x) for x in m]


for _d in (2, 3):
    _m = "plot_%dd" % _d
    task("Point.%s" % _m, "Point", _d, _m, [], lambda it, w, o, a: [("points", [list(o.cells)])])
    task("Points.%s" % _m, "Points", _d, _m, [], lambda it, w, o, a: [("points", [list(o.cells)])])
    task("Vector.%s" % _m, "VecL", _d, _m, [], lambda it, w, o, a: [
        ("segment", [[const(0)] * len(o.cells), list(o.cells)])])
    task("Vector.%s(point, scalar)" % _m, "VecL", _d, _m, [("point", "pt"), ("scalar", "num")], lambda it, w, o, a: [
        ("segment", [cells(a["point"]), [x + val(a["scalar"]) * y for x, y in zip(cells(a["point"]), o.cells)]])])
    task("Line.%s" % _m, "Line", _d, _m, [], lambda it, w, o, a: [("segment", [tpoint(it, o, 0), tpoint(it, o, 1)])])
    task("Line.%s(t_1, t_2)" % _m, "Line", _d, _m, [("t_1", "num"), ("t_2", "num")], lambda it, w, o, a: [
        ("segment", [tpoint(it, o, a["t_1"]), tpoint(it, o, a["t_2"])])])
    task("LineSegment.%s" % _m, "Seg", _d, _m, [], lambda it, w, o, a: [
        ("segment", [P_(it, o, "point_a"), P_(it, o, "point_b")])])
    task("Triangle.%s" % _m, "Triangle", _d, _m, [], lambda it, w, o, a: [
        ("points", [P_(it, o, "point_" + q)]) for q in "abc"])
    task("Triangle.%s(part='points')" % _m, "Triangle", _d, _m, [], lambda it, w, o, a: [
        ("points", [P_(it, o, "point_" + q)]) for q in "abc"], {"part": "points"})
    task("Triangle.%s(part='lines')" % _m, "Triangle", _d, _m, [], lambda it, w, o, a: [
        ("segment", [P_(it, o, "point_" + q), P_(it, o, "point_" + s)]) for q, s in ("ab", "bc", "ca")], {"part": "lines"})
task("Plane.plot_3d", "Plane", 3, "plot_3d", [], lambda it, w, o, a: [("surface", mesh(it, o))])
task("Plane.plot_3d(lims_x, lims_y)", "Plane", 3, "plot_3d", [("lims_x", "lims"), ("lims_y", "lims")],
     lambda it, w, o, a: [("surface", mesh(it, o, lims_x=a["lims_x"], lims_y=a["lims_y"]))])
task("Sphere.plot_3d", "Sphere", 3, "plot_3d", [], lambda it, w, o, a: [("surface", mesh(it, o))])
task("Sphere.plot_3d(n_angles=5)", "Sphere", 3, "plot_3d", [], lambda it, w, o, a: [("surface", mesh(it, o, n_angles=5))],
     {"n_angles": 5})
task("Cylinder.plot_3d", "Cylinder", 3, "plot_3d", [], lambda it, w, o, a: [("surface", mesh(it, o))])
task("Cylinder.plot_3d(n_along_axis=4, n_angles=5)", "Cylinder", 3, "plot_3d", [], lambda it, w, o, a: [
    ("surface", mesh(it, o, n_along_axis=4, n_angles=5))], {"n_along_axis": 4, "n_angles": 5})
task("Circle.plot_2d", "Circle", 2, "plot_2d", [], lambda it, w, o, a: [
    ("circle", [P_(it, o, "point"), [val(it.getattr(o, "radius"))]])])


def scen_plot(name, via):
    kind, d, method, args, data, kw0 = TASKS[name]

    def s(it, w, p):
        it.the_world = w
        o = operand(it, w, kind, "self", d)
        vals = {n: operand(it, w, k, "a%d" % i, d) for i, (n, k) in enumerate(args)}
        try:
            f = it.getattr(o, "plotter" if via else method)
        except PyExc:
            raise Missing(name)
        ax = given_axes(d)
        mark(it, p, ("the receiver", o), *vals.items())
        p.extra["func"] = f
        p.extra["ax"] = ax
        kw = dict(kw0, **vals)
        kw.update(MARK)
        if via:
            g = it.call(f, [], kw)
            it.call(g, [given_axes(d)], {})       # a plotter may be used again, on other axes
            p.extra["start"] = len(it.events)
            it.call(g, [ax], {})
        else:
            it.call(f, [ax], kw)
        p.extra["end"] = len(it.events)
        return data(it, w, o, vals)
    return s


def scen_new(d, n):
    """plot_2d / plot_3d of n plotters."""
    def s(it, w, p):
        ps = [operand(it, w, "Point", "p%d" % i, d) for i in range(n)]
        f = w.find("plotting.plot_%dd" % d)
        fs = [it.call(it.getattr(q, "plotter"), [], dict(MARK)) for q in ps]
        mark(it, p, *[("point %d" % i, q) for i, q in enumerate(ps)])
        p.extra["func"] = f
        r = it.call(f, fs, {})
        p.extra["end"] = len(it.events)
        p.extra["result"] = r
        return [("points", [list(q.cells)]) for q in ps]
    return s


def scen_wrong_dim(kind, d):
    def s(it, w, p):
        o = operand(it, w, kind, "self", d)
        mark(it, p, ("the receiver", o))
        f = it.getattr(o, "plotter")
        p.extra["func"] = f
        return it.call(f, [], {})
    return s


class Odd(Exception):
    """The drawing call is of a form these rules do not read."""


def read(e):
    """(shape, points) a drawing call draws."""
    n, args, kw = e.data["method"], e.data["args"], e.data["kw"]
    if n in ("add_artist", "add_patch"):
        a = args[0] if args else None
        if not isinstance(a, npfuncs.OpaqueObj) or a.kind != "artist" or not a.attrs.get("path", "").endswith(".Circle"):
            raise Odd(n)
        aa, ak = list(a.attrs["args"]), a.attrs["kw"]
        c = aa[0] if aa else ak["xy"]
        r = aa[1] if len(aa) > 1 else ak.get("radius", 5)
        return "circle", [cells(c), cells(r)], dict(ak, **kw)
    dims = 3 if e.data["ax"].kind == "ax3d" else 2
    names = {"scatter": ("x", "y") if dims == 2 else ("xs", "ys", "zs")}.get(n, ())
    cols = list(args[:6])
    for q in names[len(cols):]:
        if q in kw:
            cols.append(kw[q])
    if n in ("scatter", "scatter3D"):
        cs = [cells(c) for c in cols[:dims]]
        if len(cs) != dims:
            raise Odd("%d columns" % len(cs))
        k = {len(c) for c in cs}
        if len(k) != 1:
            raise Odd("columns of unequal length")
        return "points", [[c[i] for c in cs] for i in range(k.pop())], kw
    if n in ("plot", "plot3D"):
        cs = [cells(c) for c in cols[:dims]]
        if len(cs) != dims or any(len(c) != 2 for c in cs):
            raise Odd("plot of %s" % [len(c) for c in cs])
        return "segment", [[c[i] for c in cs] for i in range(2)], kw
    if n == "arrow":
        v = [cells(c, 1)[0] for c in cols[:4]]
        if len(v) < 4:
            v += [cells(kw[q], 1)[0] for q in ("x", "y", "dx", "dy")[len(v):]]
        return "segment", [v[:2], [v[0] + v[2], v[1] + v[3]]], kw
    if n == "quiver" and len(cols) == 2 * dims:
        v = [cells(c, 1)[0] for c in cols]
        return "segment", [v[:dims], [a + b for a, b in zip(v[:dims], v[dims:])]], kw
    if n in ("plot_surface", "plot_wireframe"):
        return "surface", [cells(c) for c in cols[:3]], kw
    raise Odd(n)


def match(want, got):
    """Does one drawing equal another?  True, False or None (unknown)."""
    if want[0] != got[0]:
        return None
    a, b = want[1], got[1]
    if len(a) != len(b) or any(len(x) != len(y) for x, y in zip(a, b)):
        return False

    def eq(u, v):
        r = True
        for x, y in zip(u, v):
            for c, e in zip(x, y):
                z = V.is_zero(c - e)
                if z is False:
                    return False
                if z is None:
                    r = None
        return r
    r = eq(a, b)
    if want[0] == "segment" and r is not True:
        r2 = eq(a, b[::-1])
        if r2 is True or r is False and r2 is None:
            return r2
    return r
