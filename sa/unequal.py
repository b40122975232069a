"""Families of operands whose dimensions do not fit each other or the operation."""
import spec
from expect import *
from build import operand, split

DIMENSIONED = {"pt", "vec", "dir", "pts", "Line", "Plane", "Point", "VecL", "VecD", "Points", "LineV", "Seg", "Triangle", "p3", "p4", "p5", "p7", "p8", "p11",
               "Plane", "P6", "Circle", "Sphere", "Cylinder"}
FIXED = {"Circle", "Sphere", "Cylinder"}
# is_equal answers False; is_close follows NumPy's rules for a single coordinate; the cross product pads with zeros;
# the point of a plane from two vectors is padded likewise
EXEMPT = {"Point.is_equal", "Vector.is_equal", "Points.is_equal", "Vector.cross"}
PAIRS = ((2, 3), (3, 2), (2, 1), (3, 1), (1, 2), (2, 4), (3, 4))
# operations that exist in one dimension only
ONLY = {"Vector.angle_signed": 2, "Vector.angle_signed_3d": 3, "Vector.side_vector": 2, "Line.side_point": 2, "Circle.from_points": 2,
        "Circle.best_fit": 2, "Sphere.best_fit": 3, "Cylinder.best_fit": 3, "Plane.best_fit": 3, "measurement.area_signed": 2,
        "Plane.intersect_plane": 3}


def make(it, w, o, dims):
    """Operands of the given dimensions, and the call."""
    dims = list(dims)
    recv = None
    if o.recv and not o.static:
        recv = solid(it, operand(it, w, o.recv, "self", dims.pop(0)), o.recv)
    args, kw = [], {}
    for i, k in enumerate(o.args):
        if k.startswith("!"):
            a, v = k[1:].split("=")
            kw[a] = {"False": False, "True": True}[v]
        else:
            args.append(solid(it, operand(it, w, k, "a%d" % i, dims.pop(0) if k in DIMENSIONED else 2), k))
    owner, attr = split(o)
    tgt = w.find(owner) if o.static else recv
    return lambda: meth(it, tgt, attr, *args, **kw)


def solid(it, v, kind):
    """Directions are not zero."""
    if kind in ("dir", "VecD") and isinstance(v, Arr):
        nz(it, list(v.cells))
    return v


def slots(o):
    return ([o.recv] if o.recv and not o.static else []) + [a for a in o.args if a in DIMENSIONED]


def register():
    for o in spec.OPS:
        key = spec.post_key(o)
        ks = slots(o)
        if key in EXEMPT or "heavy" in o.flags and len(ks) > 1:
            continue
        if len(ks) > 1:
            for d, e in PAIRS:
                if d not in o.dims:
                    continue
                for j, k in enumerate(ks):
                    if k in FIXED or key.endswith("is_close") and e == 1 or key.split("#")[0] == "Plane.from_vectors" and j == 0:
                        continue
                    dims = [e if i == j else d for i in range(len(ks))]
                    add(o, key, dims)
        n = ONLY.get(key.split("#")[0])
        if n:
            for e in (1, 2, 3, 4):
                if e != n and not (e == 1 and key == "Cylinder.best_fit"):
                    add(o, key, [e] * len(ks))


def add(o, key, dims):
    n = "%s of operands of dimension %s" % (key, ", ".join(map(str, dims)))
    fam(n, "degenerate", (max(dims),), VE)(lambda it, w, d, o=o, dims=dims: make(it, w, o, dims))


def ctors():
    for c, ks in spec.CTORS.items():
        n = sum(k in DIMENSIONED for k in ks)
        if n < 2:
            continue
        for d, e in PAIRS + ((4, 3),):
            if d not in spec.CTOR_DIMS[c]:
                continue
            for j in range(n):
                ctor(c, ks, [e if i == j else d for i in range(n)])
    for c, n in (("Circle", 2), ("Sphere", 3), ("Cylinder", 3)):
        for e in (1, 2, 3, 4):
            if e != n:
                ctor(c, spec.CTORS[c], [e] * sum(k in DIMENSIONED for k in spec.CTORS[c]))


def ctor(c, ks, dims):
    def build(it, w, d):
        ds = list(dims)
        args = [solid(it, operand(it, w, k, "a%d" % i, ds.pop(0) if k in DIMENSIONED else 2), k) for i, k in enumerate(ks)]
        return lambda: it.call(w.cls(c), args, {})
    fam("%s of arguments of dimension %s" % (c, ", ".join(map(str, dims))), "ctor", (max(dims),), VE)(build)


register()
ctors()


def axes():
    """A single point where rows of points are expected, and the reverse."""
    for o in spec.OPS:
        if "heavy" in o.flags:
            continue
        for i, k in enumerate(o.args):
            if k not in ("pts", "pt", "vec", "dir"):
                continue
            other = "pt" if k == "pts" else "pts"

            def build(it, w, d, o=o, i=i, other=other):
                recv = solid(it, operand(it, w, o.recv, "self", d), o.recv) if o.recv and not o.static else None
                args = [solid(it, operand(it, w, other if j == i else k, "a%d" % j, d), k) for j, k in enumerate(o.args) if not k.startswith("!")]
                kw = {k[1:].split("=")[0]: k.endswith("True") for k in o.args if k.startswith("!")}
                owner, attr = split(o)
                return lambda: meth(it, w.find(owner) if o.static else recv, attr, *args, **kw)
            fam("%s with %s as argument %d" % (spec.post_key(o), "one point" if other == "pt" else "rows of points", i + 1), "axes",
                (max(2, o.dims[0]),), VE)(build)


axes()
