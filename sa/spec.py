"""The public operations of the package and what their operands and results are.

Only public names and the documented meaning of arguments and results appear
here; nothing refers to how an operation is computed.

Operand kinds (d is the ambient dimension):
  pt vec dir        coordinates of a point, a vector with a length, a direction
  Point VecL VecD   Point, Vector with a length, Vector used as a direction
  Points            n points (n symbolic)            pts   the same as a raw array
  P3 P4             3 or 4 known points as Points
  Line Plane Circle Sphere Cylinder Triangle Seg     objects
  len num           positive length, dimensionless number
Results:
  len^k angle bool int ratio        scalars of weight k ...
  pt vec^k unit dir                 coordinates
  pts lens                          one point / scalar per row
  line plane circle sphere ...      objects;  (a,b) tuples
"""


class Op:
    def __init__(self, name, recv, args, result, dims, static=False, flags=(), kw=None, opt=(), free=()):
        self.name = name          # dotted name under skspatial.objects / skspatial
        self.recv = recv          # kind of receiver or None
        self.args = args
        self.result = result
        self.dims = dims
        self.static = static      # class method / function
        self.flags = set(flags)
        self.kw = kw or {}        # documented forwarded keywords: name -> where they must arrive
        self.opt = opt
        self.free = free          # directions whose length must not matter (labels)

    @property
    def short(self):
        return self.name.split("objects.")[-1]


OPS = []


def op(name, recv, args, result, dims, **k):
    o = Op(name, recv, args, result, dims, **k)
    OPS.append(o)
    return o


def obj(name, recv, args, result, dims, **k):
    return op("objects." + name, recv, args, result, dims, **k)


D123 = (1, 2, 3)
D23 = (2, 3)

# ------------------------------------------------------------------ Point, Vector
obj("Point.distance_point", "Point", ["pt"], "len", (1, 2, 3, 4))
obj("Point.is_close", "Point", ["pt"], "bool", D23, flags=["approx"])
obj("Point.is_equal", "Point", ["pt"], "bool", D23)
obj("Point.round", "Point", [], "any", D23, flags=["round"])
obj("Point.to_array", "Point", [], "pt", D23)
obj("Point.set_dimension", "Point", ["=4"], "any", D23)
obj("Vector.from_points", None, ["pt", "pt"], "vec", (1, 2, 3, 4), static=True)
obj("Vector.norm", "VecL", [], "len", (1, 2, 3, 4))
obj("Vector.unit", "VecD", [], "unit", (1, 2, 3, 4), free=["self"])
obj("Vector.is_zero", "VecL", [], "bool", D23)
obj("Vector.is_close", "VecL", ["vec"], "bool", D23, flags=["approx"])
obj("Vector.is_equal", "VecL", ["vec"], "bool", D23)
obj("Vector.round", "VecL", [], "any", D23, flags=["round"])
obj("Vector.to_array", "VecL", [], "vec", D23)
obj("Vector.set_dimension", "VecL", ["=4"], "any", D23)
obj("Vector.cross", "VecL", ["vec"], "vec^2", D23)
obj("Vector.cosine_similarity", "VecD", ["dir"], "ratio", D123, free=["self", "a0"])
obj("Vector.angle_between", "VecD", ["dir"], "angle", D123, free=["self", "a0"])
obj("Vector.angle_signed", "VecD", ["dir"], "angle", (2,), free=["self", "a0"])
obj("Vector.angle_signed_3d", "VecD", ["dir", "dir"], "angle", (3,), free=["self", "a0", "a1"], flags=["dirdep"])
obj("Vector.is_perpendicular", "VecL", ["vec"], "bool", D23)
obj("Vector.is_parallel", "VecD", ["dir"], "bool", D23, free=["self", "a0"])
obj("Vector.side_vector", "VecD", ["dir"], "int", (2,), free=["self", "a0"])
obj("Vector.scalar_projection", "VecD", ["vec"], "len", D123, free=["self"])
obj("Vector.project_vector", "VecD", ["vec"], "vec", D123, free=["self"])
obj("Vector.different_direction", "VecD", [], "any", D123, flags=["axes"])

# ------------------------------------------------------------------ Points
obj("Points.unique", "Points", [], "ptsset", D123)
obj("Points.centroid", "Points", [], "pt", D123)
obj("Points.mean_center", "Points", [], "vecs", D123)
obj("Points.mean_center#centroid", "Points", ["!return_centroid=True"], "(vecs,pt)", D123)
obj("Points.normalize_distance", "Points", [], "ratios", D123, flags=["origin"])
obj("Points.affine_rank", "Points", [], "int", D123)
obj("Points.are_concurrent", "Points", [], "bool", D123)
obj("Points.are_collinear", "Points", [], "bool", D123)
obj("Points.are_coplanar", "Points", [], "bool", D123)
obj("Points.is_close", "Points", ["pts"], "bool", D23, flags=["approx"])
obj("Points.is_equal", "Points", ["pts"], "bool", D23)
obj("Points.round", "Points", [], "any", D23, flags=["round"])
obj("Points.to_array", "Points", [], "pts", D23)
obj("Points.set_dimension", "Points", ["=4"], "any", D23)

# ------------------------------------------------------------------ Line
obj("Line.from_points", None, ["pt", "pt"], "line", (1, 2, 3), static=True)
obj("Line.from_slope", None, ["num", "num"], "any", (2,), static=True, flags=["axes"])
obj("Line.is_coplanar", "Line", ["Line"], "bool", D23, free=["self", "a0"])
obj("Line.to_point", "LineV", ["num"], "pt", D123, flags=["lendep"])
obj("Line.project_point", "Line", ["pt"], "pt", D123, free=["self"])
obj("Line.project_points", "Line", ["pts"], "pts", D123, free=["self"])
obj("Line.project_vector", "Line", ["vec"], "vec", D123, free=["self"])
obj("Line.side_point", "Line", ["pt"], "int", (2,), free=["self"])
obj("Line.distance_point", "Line", ["pt"], "len", D123, free=["self"])
obj("Line.distance_points", "Line", ["pts"], "lens", D123, free=["self"])
obj("Line.distance_line", "Line", ["Line"], "len", D23, free=["self", "a0"])
obj("Line.intersect_line", "Line", ["Line"], "pt", D23, free=["self", "a0"])
obj("Line.intersect_line#skew", "Line", ["Line", "!check_coplanar=False"], "pt", (3,), free=["self"])
obj("Line.best_fit", None, ["pts"], "line", D23, static=True)
obj("Line.best_fit#error", None, ["pts", "!return_error=True"], "(line,len^2)", D23, static=True)
obj("Line.transform_points", "Line", ["pts"], "lens", D23, free=["self"])
obj("Line.contains_point", "Line", ["pt"], "bool", D23, free=["self"])
obj("Line.is_close", "Line", ["Line"], "bool", D23, free=["self", "a0"])
obj("Line.sum_squares", "Line", ["pts"], "len^2", D23, free=["self"])

# ------------------------------------------------------------------ LineSegment
obj("LineSegment.contains_point", "Seg", ["pt"], "bool", D23)
obj("LineSegment.intersect_line_segment", "Seg", ["Seg"], "pt", D23)

# ------------------------------------------------------------------ Plane
obj("Plane.from_vectors", None, ["pt", "dir", "dir"], "plane", (3,), static=True, free=["a1", "a2"])
obj("Plane.from_points", None, ["pt", "pt", "pt"], "plane", (3,), static=True)
obj("Plane.from_vectors#flat", None, ["pt", "dir", "dir"], "any", (2,), static=True, flags=["flat"])
obj("Plane.from_points#flat", None, ["pt", "pt", "pt"], "any", (2,), static=True, flags=["flat"])
obj("Plane.cartesian", "Plane", [], "any", D23, flags=["origin"])
obj("Plane.project_point", "Plane", ["pt"], "pt", D23, free=["self"])
obj("Plane.project_points", "Plane", ["pts"], "pts", D23, free=["self"])
obj("Plane.project_vector", "Plane", ["vec"], "vec", D23, free=["self"])
obj("Plane.project_line", "Plane", ["Line"], "line", D23, free=["self"])
obj("Plane.distance_point_signed", "Plane", ["pt"], "len", D23, free=["self"])
obj("Plane.distance_points_signed", "Plane", ["pts"], "lens", D23, free=["self"])
obj("Plane.distance_point", "Plane", ["pt"], "len", D23, free=["self"])
obj("Plane.distance_points", "Plane", ["pts"], "lens", D23, free=["self"])
obj("Plane.side_point", "Plane", ["pt"], "int", D23, free=["self"])
obj("Plane.intersect_line", "Plane", ["Line"], "pt", D23, free=["self", "a0"])
obj("Plane.intersect_plane", "Plane", ["Plane"], "linefoot", (3,), free=["self", "a0"])
obj("Plane.best_fit", None, ["pts"], "plane", (3,), static=True)
obj("Plane.best_fit#error", None, ["pts", "!return_error=True"], "(plane,len^2)", (3,), static=True)
obj("Plane.contains_point", "Plane", ["pt"], "bool", D23, free=["self"])
obj("Plane.is_close", "Plane", ["Plane"], "bool", D23, free=["self", "a0"])
obj("Plane.sum_squares", "Plane", ["pts"], "len^2", D23, free=["self"])
obj("Plane.to_mesh", "Plane", [], "mesh", (3,), free=["self"], flags=["axes", "noscale"])
obj("Plane.to_mesh#lims", "Plane", ["lims", "lims"], "mesh", (3,), free=["self"], flags=["axes", "noscale"])
obj("Plane.to_points", "Plane", [], "pts*", (3,), free=["self"], flags=["axes", "noscale"])

# ------------------------------------------------------------------ Circle, Sphere
obj("Circle.from_points", None, ["pt", "pt", "pt"], "circle", (2,), static=True)
obj("Circle.circumference", "Circle", [], "len", (2,))
obj("Circle.area", "Circle", [], "len^2", (2,))
obj("Circle.distance_point", "Circle", ["pt"], "len", (2,))
obj("Circle.contains_point", "Circle", ["pt"], "bool", (2,))
obj("Circle.project_point", "Circle", ["pt"], "pt", (2,))
obj("Circle.intersect_circle", "Circle", ["Circle"], "(pt,pt)", (2,))
obj("Circle.intersect_line", "Circle", ["Line"], "(pt,pt)", (2,), free=["a0"])
obj("Circle.best_fit", None, ["pts"], "circle", (2,), static=True)
obj("Sphere.surface_area", "Sphere", [], "len^2", (3,))
obj("Sphere.volume", "Sphere", [], "len^3", (3,))
obj("Sphere.distance_point", "Sphere", ["pt"], "len", (3,))
obj("Sphere.contains_point", "Sphere", ["pt"], "bool", (3,))
obj("Sphere.project_point", "Sphere", ["pt"], "pt", (3,))
obj("Sphere.intersect_line", "Sphere", ["Line"], "(pt,pt)", (3,), free=["a0"])
obj("Sphere.best_fit", None, ["pts"], "sphere", (3,), static=True)
obj("Sphere.to_mesh", "Sphere", [], "mesh", (3,), flags=["axes"])
obj("Sphere.to_mesh#2", "Sphere", ["!n_angles=2"], "mesh", (3,), flags=["axes"])
obj("Sphere.to_mesh#3", "Sphere", ["!n_angles=3"], "mesh", (3,), flags=["axes"])
obj("Sphere.to_points", "Sphere", [], "pts*", (3,), flags=["axes"])

# ------------------------------------------------------------------ Triangle
obj("Triangle.normal", "Triangle", [], "vec^2", D23)
obj("Triangle.area", "Triangle", [], "len^2", D23)
obj("Triangle.perimeter", "Triangle", [], "len", D23)
obj("Triangle.centroid", "Triangle", [], "pt", D23)
for _v in "ABC":
    obj("Triangle.point", "Triangle", ["'" + _v], "pt", (2,), flags=["label"])
    obj("Triangle.angle", "Triangle", ["'" + _v], "angle", D23, flags=["label"])
    obj("Triangle.altitude", "Triangle", ["'" + _v], "line", D23, flags=["label"])
for _v in "abc":
    obj("Triangle.line", "Triangle", ["'" + _v], "line", (2,), flags=["label"])
    obj("Triangle.length", "Triangle", ["'" + _v], "len", D23, flags=["label"])
obj("Triangle.multiple", "Triangle", ["'length", "'abc"], "(len,len,len)", (2,))
obj("Triangle.orthocenter", "Triangle", [], "pt", D23)
obj("Triangle.classify", "Triangle", [], "str", (2,))
obj("Triangle.is_right", "Triangle", [], "bool", (2,))

# ------------------------------------------------------------------ Cylinder
obj("Cylinder.from_points", None, ["pt", "pt", "len"], "cylinder", (3,), static=True)
obj("Cylinder.length", "Cylinder", [], "len", (3,))
obj("Cylinder.lateral_surface_area", "Cylinder", [], "len^2", (3,))
obj("Cylinder.surface_area", "Cylinder", [], "len^2", (3,))
obj("Cylinder.volume", "Cylinder", [], "len^3", (3,))
obj("Cylinder.is_point_within", "Cylinder", ["pt"], "bool", (3,))
obj("Cylinder.intersect_line", "Cylinder", ["Line"], "(pt,pt)", (3,), free=["a0"])
obj("Cylinder.intersect_line#finite", "Cylinder", ["Line", "!infinite=False"], "(pt,pt)", (3,), free=["a0"])
obj("Cylinder.to_mesh", "Cylinder", [], "mesh", (3,), flags=["axes"])
obj("Cylinder.to_mesh#2", "Cylinder", ["!n_along_axis=2", "!n_angles=3"], "mesh", (3,), flags=["axes"])
obj("Cylinder.to_mesh#3", "Cylinder", ["!n_along_axis=3", "!n_angles=4"], "mesh", (3,), flags=["axes"])
obj("Cylinder.to_points", "Cylinder", [], "pts*", (3,), flags=["axes"])
obj("Cylinder.best_fit", None, ["pts"], "cylinder", (3,), static=True, flags=["search"])

# ------------------------------------------------------------------ functions
op("measurement.area_triangle", None, ["pt", "pt", "pt"], "len^2", D23, static=True)
op("measurement.volume_tetrahedron", None, ["pt", "pt", "pt", "pt"], "len^3", D23, static=True)
op("measurement.area_signed", None, ["pts"], "len^2", (2,), static=True)
op("measurement.area_signed#3", None, ["p3"], "len^2", (2,), static=True)
for _n in (4, 5, 7, 8, 11):
    op("measurement.area_signed#%d" % _n, None, ["p%d" % _n], "len^2", (2,), static=True)
op("transformation.transform_coordinates", None, ["pts", "pt", "[dir,dir]"], "any", D23, static=True, flags=["lendep"])

# ------------------------------------------------------------------ construction
CTORS = {
    "Point": ["pt"], "Vector": ["vec"], "Points": ["pts"], "Line": ["pt", "dir"], "Plane": ["pt", "dir"],
    "Circle": ["pt", "len"], "Sphere": ["pt", "len"], "Cylinder": ["pt", "vec", "len"],
    "Triangle": ["pt", "pt", "pt"], "LineSegment": ["pt", "pt"],
}
CTOR_DIMS = {"Point": (1, 2, 3, 4), "Vector": (1, 2, 3, 4), "Points": (1, 2, 3, 4), "Line": (1, 2, 3, 4), "Plane": (2, 3, 4),
             "Circle": (2,), "Sphere": (3,), "Cylinder": (3,), "Triangle": (2, 3, 4), "LineSegment": (2, 3, 4)}

# ------------------------------------------------------------------ plotting
PLOTS = [("Point", "plot_2d", 2), ("Point", "plot_3d", 3), ("Points", "plot_2d", 2), ("Points", "plot_3d", 3),
         ("Vector", "plot_2d", 2), ("Vector", "plot_3d", 3), ("Line", "plot_2d", 2), ("Line", "plot_3d", 3),
         ("LineSegment", "plot_2d", 2), ("LineSegment", "plot_3d", 3), ("Plane", "plot_3d", 3),
         ("Circle", "plot_2d", 2), ("Sphere", "plot_3d", 3), ("Triangle", "plot_2d", 2), ("Triangle", "plot_3d", 3),
         ("Cylinder", "plot_3d", 3)]


def post_key(o):
    """The key of an operation in the table of postconditions."""
    return o.name.split("objects.")[-1]

# ------------------------------------------------------------------ beyond three dimensions
WIDE = ("Point.is_close Point.is_equal Point.round Point.to_array Vector.is_zero Vector.is_close Vector.is_equal Vector.round "
        "Vector.to_array Vector.cosine_similarity Vector.angle_between Vector.is_perpendicular Vector.is_parallel "
        "Vector.scalar_projection Vector.project_vector Vector.different_direction Points.unique Points.centroid "
        "Points.mean_center Points.mean_center#centroid Points.normalize_distance Points.affine_rank Points.are_concurrent "
        "Points.are_collinear Points.are_coplanar Points.is_close Points.is_equal Points.to_array Line.from_points "
        "Line.is_coplanar Line.to_point Line.project_point Line.project_points Line.project_vector Line.distance_point "
        "Line.distance_points Line.contains_point Line.is_close Line.sum_squares Line.transform_points Line.best_fit "
        "Line.best_fit#error LineSegment.contains_point Plane.project_point Plane.project_points Plane.project_vector "
        "Plane.project_line Plane.distance_point_signed Plane.distance_points_signed Plane.distance_point Plane.distance_points "
        "Plane.side_point Plane.intersect_line Plane.contains_point Plane.is_close Plane.sum_squares Triangle.perimeter "
        "Triangle.centroid Triangle.angle Triangle.altitude Triangle.length transformation.transform_coordinates").split()
for _o in OPS:
    if _o.short in WIDE and 4 not in _o.dims:
        _o.dims = tuple(_o.dims) + (4,)
