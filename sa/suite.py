"""Named scenarios: every public operation, constructor, operator and plot method."""
from build import *
import spec
import npfuncs


def op_key(o):
    lab = "".join("(%s)" % a[1:] for a in o.args if a.startswith("'"))
    return o.short + lab


def op_tasks(skip=(), only=None, dims=None):
    out = []
    for i, o in enumerate(spec.OPS):
        if o.flags & set(skip):
            continue
        if only and not only(o):
            continue
        for d in o.dims:
            if dims and d not in dims:
                continue
            out.append(("op", op_key(o), d))
    return out


OPMAP = {op_key(o): o for o in spec.OPS}


def op_of(task):
    return OPMAP[task[1]]


def ctor(it, w, p, name, d, form="nd", dt="f", cls=None, kw=None):
    kinds = spec.CTORS[name]
    args = []
    for i, k in enumerate(kinds):
        args.append(operand(it, w, k, "a%d" % i, d, form, dt_of(dt, i, True)))
    mark(it, p, *[("argument %d" % (i + 1), a) for i, a in enumerate(args)])
    return it.call(cls or w.cls(name), args, kw or {})


def ctor_tasks():
    return [("ctor", n, d) for n in spec.CTORS for d in spec.CTOR_DIMS[n]]


# ------------------------------------------------------------------ operators and other entry points
def _cases():
    c = {}

    def case(name, kinds, f):
        c[name] = (kinds, f)
    m = lambda n, *fixed, **kw: (lambda it, o, *a: it.call(it.getattr(o, n), list(a) + list(fixed), dict(kw)))
    case("Vector + Vector", ["VecL", "VecL"], lambda it, a, b: it.models.binop(it, "Add", a, b))
    case("Vector - Vector", ["VecL", "VecL"], lambda it, a, b: it.models.binop(it, "Sub", a, b))
    case("2 * Vector", ["VecL"], lambda it, a: it.models.binop(it, "Mult", 2, a))
    case("Vector / 2", ["VecL"], lambda it, a: it.models.binop(it, "Div", a, 2))
    case("Point + Vector", ["Point", "VecL"], lambda it, a, b: it.models.binop(it, "Add", a, b))
    case("Point - Point", ["Point", "Point"], lambda it, a, b: it.models.binop(it, "Sub", a, b))
    case("Points - point", ["Points", "Point"], lambda it, a, b: it.models.binop(it, "Sub", a, b))
    case("repr(Vector)", ["VecL"], lambda it, a: it.call(it.getattr(a, "__repr__"), [], {}))
    for n in ("Line", "Plane", "Circle", "Sphere", "Cylinder", "Triangle", "Seg"):
        case("repr(%s)" % n, [n], lambda it, a: it.call(it.getattr(a, "__repr__"), [], {}))
    # options that change what an operation does
    m = lambda n, *fixed, **kw: (lambda it, o, *a: it.call(it.getattr(o, n), list(a) + list(fixed), dict(kw)))
    named = lambda n, *names: (lambda it, o, *a: it.call(it.getattr(o, n), [], dict(zip(names, a))))
    stat = lambda c, n, **kw: (lambda it, *a: it.call(it.getattr(it.the_world.cls(c), n), list(a), dict(kw)))
    case("Plane.to_mesh(lims_x, lims_y) given arrays", ["Plane", "lims", "lims"], m("to_mesh"))
    case("Plane.to_points(lims_x, lims_y) given arrays", ["Plane", "lims", "lims"], named("to_points", "lims_x", "lims_y"))
    for k in ("Point", "VecL", "Points"):
        case("%s.set_dimension to its own dimension" % k.replace("VecL", "Vector"), [k], lambda it, o: it.call(
            it.getattr(o, "set_dimension"), [o.shape[-1]], {}))
        case("copy of a %s" % k.replace("VecL", "Vector"), [k], lambda it, o: it.call(o.t, [o], {}))
        case("%s.round(2)" % k.replace("VecL", "Vector"), [k], m("round", 2))
    case("Vector of a Point", ["Point"], lambda it, o: it.call(it.the_world.cls("Vector"), [o], {}))
    case("Line of another line's parts", ["Line"], lambda it, o: it.call(
        it.the_world.cls("Line"), [it.getattr(o, "point"), it.getattr(o, "direction")], {}))
    case("Plane of a line's parts", ["Line"], lambda it, o: it.call(
        it.the_world.cls("Plane"), [it.getattr(o, "point"), it.getattr(o, "direction")], {}))
    case("Triangle of Points", ["Point", "Point", "Point"], lambda it, *a: it.call(it.the_world.cls("Triangle"), list(a), {}))
    case("LineSegment of Points", ["Point", "Point"], lambda it, *a: it.call(it.the_world.cls("LineSegment"), list(a), {}))
    case("Circle of a Point", ["Point", "len"], lambda it, *a: it.call(it.the_world.cls("Circle"), list(a), {}))
    case("Sphere of a Point", ["Point", "len"], lambda it, *a: it.call(it.the_world.cls("Sphere"), list(a), {}))
    case("Cylinder of a line's parts", ["Line", "len"], lambda it, o, r: it.call(
        it.the_world.cls("Cylinder"), [it.getattr(o, "point"), it.getattr(o, "direction"), r], {}))
    case("Sphere.to_mesh(n_angles=4)", ["Sphere"], m("to_mesh", n_angles=4))
    case("Cylinder.to_mesh(n_along_axis=3, n_angles=4)", ["Cylinder"], m("to_mesh", n_along_axis=3, n_angles=4))
    case("Points.mean_center(return_centroid=True)", ["Points"], m("mean_center", return_centroid=True))
    case("Line.best_fit(return_error=True)", ["pts"], stat("Line", "best_fit", return_error=True))
    case("Plane.best_fit(return_error=True)", ["pts"], stat("Plane", "best_fit", return_error=True))
    case("Line.intersect_line(check_coplanar=False)", ["Line", "Line"], m("intersect_line", check_coplanar=False))
    case("Cylinder.intersect_line(n_digits=3)", ["Cylinder", "Line"], m("intersect_line", n_digits=3))
    case("Vector.norm(ord=1)", ["VecL"], m("norm", ord=1))
    case("Line.from_points of Points rows", ["Point", "Point"], stat("Line", "from_points"))
    case("Line.project_point of a Point", ["Line", "Point"], m("project_point"))
    case("Line.project_points of Points", ["Line", "Points"], m("project_points"))
    case("Line.distance_points of Points", ["Line", "Points"], m("distance_points"))
    case("Line.transform_points of Points", ["Line", "Points"], m("transform_points"))
    case("Plane.project_point of a Point", ["Plane", "Point"], m("project_point"))
    case("Plane.project_points of Points", ["Plane", "Points"], m("project_points"))
    case("Plane.distance_points of Points", ["Plane", "Points"], m("distance_points"))
    case("Plane.project_vector of a Vector", ["Plane", "VecL"], m("project_vector"))
    case("Line.best_fit of Points", ["Points"], stat("Line", "best_fit"))
    case("Plane.best_fit of Points", ["Points"], stat("Plane", "best_fit"))
    case("Circle.best_fit of Points", ["Points"], stat("Circle", "best_fit"))
    case("Sphere.best_fit of Points", ["Points"], stat("Sphere", "best_fit"))
    case("Vector.cross of a Vector", ["VecL", "VecL"], m("cross"))
    case("Vector.project_vector of a Vector", ["VecD", "VecL"], m("project_vector"))
    case("Point.distance_point of a Point", ["Point", "Point"], m("distance_point"))
    case("Sphere.project_point of a Point", ["Sphere", "Point"], m("project_point"))
    case("Circle.project_point of a Point", ["Circle", "Point"], m("project_point"))
    case("Cylinder.is_point_within of a Point", ["Cylinder", "Point"], m("is_point_within"))
    case("LineSegment.contains_point of a Point", ["Seg", "Point"], m("contains_point"))
    return c


CASES = _cases()
ONLY2, ONLY3 = {"Circle"}, {"Sphere", "Cylinder"}


def case_tasks():
    out = []
    for n, (kinds, f) in CASES.items():
        ds = (2, 3)
        if set(kinds) & {"Circle"} or n.startswith("Circle"):
            ds = (2,)
        if set(kinds) & {"Sphere", "Cylinder"} or n.startswith(("Sphere", "Cylinder", "Plane.")):
            ds = (3,)
        for d in ds:
            out.append(("case", n, d))
    return out


def plot_tasks():
    return [("plot", "%s.%s" % (c, m), d) for c, m, d in spec.PLOTS]


def draw_tasks():
    """Every plot method with its options, called directly and through plotter()."""
    import drawing
    return [(k, n, t[1]) for n, t in drawing.TASKS.items() for k in ("draw", "plotter")]


PLOT_KIND = {"Vector": "VecL", "LineSegment": "Seg"}


def given_axes(d):
    return npfuncs.OpaqueObj("ax3d" if d == 3 else "ax2d", "the given axes")


def plot(it, w, p, name, d, kw=None):
    c, m = name.split(".")
    o = operand(it, w, PLOT_KIND.get(c, c), "self", d)
    try:
        f = it.getattr(o, m)
    except PyExc:
        raise Missing(name)
    ax = given_axes(d)
    mark(it, p, ("the receiver", o))
    p.extra["ax"] = ax
    return it.call(f, [ax], dict(kw or {}))


def scen(task, **k):
    kind, name, d = task[:3]
    if kind == "op":
        return scenario(OPMAP[name], d, **k)
    if kind == "ctor":
        return lambda it, w, p: ctor(it, w, p, name, d, **k)
    if kind == "case":
        kinds, f = CASES[name]

        def s(it, w, p):
            xs = [operand(it, w, q, "abc"[i], d, k.get("form", "nd"), dt_of(k.get("dt", "f"), i, True))
                  for i, q in enumerate(kinds)]
            mark(it, p, *[("operand %d" % (i + 1), x) for i, x in enumerate(xs)])
            it.the_world = w
            return f(it, *xs)
        return s
    if kind == "plot":
        return lambda it, w, p: plot(it, w, p, name, d, **k)
    if kind in ("draw", "plotter"):
        import drawing
        return drawing.scen_plot(name, kind == "plotter")
    raise KeyError(kind)


def label(task):
    return "%s [%dD]" % (task[1], task[2])
