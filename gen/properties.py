#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one description.

    python3 /verif/gen/properties.py
"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, "sa"))
S = "src/skspatial/"
O = S + "objects/"
BASE, LP, SP, SPH = O + "_base_array.py", O + "_base_line_plane.py", O + "_base_spatial.py", O + "_base_sphere.py"
CIR, CYL, LIN, SEG, PLA, PT, PTS, SPHERE, TRI, VEC = [O + x + ".py" for x in (
    "circle", "cylinder", "line", "line_segment", "plane", "point", "points", "sphere", "triangle", "vector")]
FUN, MEA, PLO, TRA, TYP = [S + x + ".py" for x in ("_functions", "measurement", "plotting", "transformation", "typing")]
ALL = [BASE, LP, SP, SPH, CIR, CYL, LIN, SEG, PLA, PT, PTS, SPHERE, TRI, VEC, FUN, MEA, PLO, TRA]

VN = "abstract interpretation with value numbering"
LEVEL = ("Decided from the source on every run. Every feasible abstract path is judged; what the interpreter cannot "
         "model is counted as open in the evidence and never reported as held. Exact real arithmetic; numpy, scipy and "
         "matplotlib are trusted to do what they document.")

# id, title, statement, over, text, why, files, [(mechanism, where)], technique
P = []


def prop(id, title, statement, text, why, files, mech, technique=VN, over=("inputs",), note=LEVEL, observe=None):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech,
                  technique=technique, over=list(over), note=note, observe=observe or []))


prop("C01", "Constructors reject every kind of invalid geometry",
     "No object of the library exists in an invalid state: arrays of the wrong number of axes, empty, ragged, with NaN or "
     "infinite entries; lines, planes and cylinders with a zero direction or normal; circles, spheres and cylinders whose "
     "radius is negative, zero or NaN; segments with equal endpoints; circles not in 2D or spheres and cylinders not in 3D; "
     "and constructions from coinciding, collinear or otherwise insufficient data are rejected with a ValueError. "
     "This holds for every constructor and every alternative constructor, whatever the remaining arguments are.",
     "every constructor and alternative constructor x every kind of defect x all values of the other coordinates",
     "The tests try a few invalid literals per constructor; a guard that is reordered, weakened or bypassed for one form of "
     "input or one alternative constructor stays green.",
     ALL[:14], [("array validation", BASE), ("direction/normal is not zero", LP), ("radius is positive", SPH + " " + CIR + " " + CYL)])

prop("C02", "No operation modifies its operands",
     "Calling any method, operator, constructor or plotting function leaves every object and every array-like passed to it, "
     "including the object itself, exactly as it was. Only explicit item assignment by the user changes coordinates.",
     "all public operations x all operands x all paths", "Tests check results, and hardly ever that the operands are unchanged "
     "afterwards; a write through a view on one path is invisible to them.",
     ALL, [("operations build new arrays", "all modules"), ("writes through views", BASE)], "effect analysis by abstract interpretation (stores through every alias)")

prop("C03", "An object owns its coordinates",
     "Once created, an object does not share memory with the arrays, lists or objects it was created from, and a result does not share "
     "memory with the operands of the operation that made it: changing one later by item assignment never changes the other. "
     "Attributes that are documented as the object's own parts (such as the point of a line) are the only way to reach its coordinates.",
     "all constructors, alternative constructors, conversions and methods x all forms of input x all histories of later writes",
     "A test would have to write to every input after every construction; none does.",
     ALL[:14], [("copy on construction", BASE)], "alias (may-share-memory) analysis by abstract interpretation", over=("inputs", "histories"))

prop("C04", "Results depend on the arguments alone",
     "The result of every operation is a function of its operands and arguments: no cache, global, class attribute, mutable default, "
     "random source, clock or file influences it, and no call leaves anything behind that later calls can see.",
     "all public operations x all histories of earlier calls", "Tests call each operation once or a few times; a stale cache "
     "needs a particular sequence of calls and item assignments.",
     ALL, [("no state outside operands", "all modules")], "effect analysis by abstract interpretation (hidden state)", over=("inputs", "histories"))

prop("C05", "Degenerate operands are reported with a ValueError",
     "When the requested quantity does not exist, the operation raises ValueError instead of returning something: intersections of parallel, "
     "skew, disjoint or coincident objects, intersections that miss the circle, sphere, cylinder, triangle side or segment, angles and projections with a zero "
     "vector, centroids of no points, fits through too few or collinear points, signed areas outside 2D, and operands of unequal dimension.",
     "every operation with a degenerate case x all coordinates of operands in that case",
     "Tests hold a handful of degenerate examples with small integers; the set of degenerate operands is infinite and every path must end in the error.",
     ALL, [("checks before intersecting", LIN + " " + PLA + " " + SEG), ("discriminants", CIR + " " + SPHERE + " " + CYL), ("zero vectors", VEC)])

prop("C06", "Tolerances and keywords reach every comparison",
     "A keyword such as tol, abs_tol or rel_tol accepted by an operation is used by every comparison or rank decision that decides its result, directly or through "
     "the operations it calls; none is dropped, replaced by a default or overwritten on the way. Likewise fitting and conversion options (such as return_error) reach what they "
     "are documented to control.",
     "all operations that accept a tolerance x all comparisons reachable from them",
     "Tests pass a tolerance in few places, so a forgotten **kwargs is invisible with the default.",
     ALL, [("**kwargs forwarded to math.isclose and matrix_rank", "all modules")], "interprocedural dataflow of keyword arguments to comparison sinks")

prop("C07", "No operation leaves the domain of a math function",
     "For valid operands no operation takes the square root of a negative number, the inverse sine or cosine of a number outside [-1, 1], or divides by zero: "
     "each such argument is nonnegative, clipped or guarded on the path that reaches it, rounding included.",
     "all operations x all feasible paths x all sites of sqrt, acos, asin, log and division",
     "A domain error needs operands on the boundary (tangent, collinear) where rounding decides.",
     ALL, [("clipping and guards", MEA + " " + VEC + " " + CIR + " " + SPHERE)], "guard analysis of partial functions by abstract interpretation")

prop("C08", "Valid input is never rejected",
     "An operation raises an error only for operands that are invalid or in a degenerate configuration (parallel, coincident, collinear, touching, "
     "zero, of unequal dimension), or that really have no intersection; operands in general position always give a result, in every dimension the operation is documented for.",
     "all operations x all operands in general position",
     "Tests use a handful of values; a guard that is too strong for some region (negative, large, higher dimension) rejects inputs none of them has.",
     ALL, [("guards", "all modules")])

prop("C09", "Changing the unit of length changes results by their own dimension",
     "If all points, vectors, radii and lengths of the operands are multiplied by a positive factor, then lengths and coordinates of the result are multiplied by that factor, areas by its square, volumes by its cube, "
     "and angles, predicates, directions and dimensionless numbers do not change; no decision other than a documented tolerance depends on the unit.",
     "all operations x all operands x all scale factors", "A metamorphic relation over all inputs: a test only samples fixed numbers, where a wrong power of a radius or a missing normalisation can agree.",
     ALL, [("formulas", "all modules")], VN + " and exact derivatives (dimensional homogeneity)")

prop("C10", "The length of a direction or normal vector does not matter",
     "Multiplying the direction of a line, the normal of a plane or the direction passed to an alternative constructor by a positive factor changes no geometric result (projection, distance, angle, side, intersection, "
     "membership, fit); reversing it changes at most the sign of signed results.",
     "all operations with a direction or normal x all nonzero factors", "Most tests use unit directions, where a missing division by the norm (or its square) is invisible.",
     [LP, LIN, PLA, CYL, SEG, VEC, TRA], [("division by the squared norm", LIN + " " + PLA + " " + VEC)], VN + " and exact derivatives")

prop("C11", "Moving all points moves results with them",
     "If all points of the operands are translated by the same vector, every point of the result is translated by it and everything else (vectors, lengths, angles, predicates, errors) is unchanged.",
     "all operations x all operands x all translations", "Many tests are anchored at the origin, where a forgotten offset of the base point contributes zero.",
     ALL, [("coordinates relative to base points", "all modules")], VN + " and exact derivatives")

prop("C12", "Rotating all operands rotates results with them",
     "If all operands are rotated about the origin, points and vectors of the result are rotated in the same way and lengths, angles, areas, volumes and predicates are unchanged.",
     "all operations x all operands x all rotations", "Tests are axis aligned; a formula that mixes up or drops a coordinate can be right along the axes.",
     ALL, [("formulas from dot and cross products", "all modules")], VN + " and exact derivatives")

prop("C13", "Results have the documented type, shape and dimension",
     "Every operation returns what it documents: Point, Vector, Line, Plane, Points and so on where it says so (not a bare array, nor one class in place of another), plain bool and float where it says so, arrays of the documented shape; "
     "and every object's dimension attribute equals its number of coordinates. This does not depend on whether operands were given as lists, arrays or objects.",
     "all operations x all forms and dimensions of operands x all paths", "Comparisons in the tests hold for arrays as well as for objects, so the wrong class is not noticed on most paths.",
     ALL, [("results wrapped in classes", "all modules"), ("dimension attribute", BASE + " " + SPH + " " + SEG + " " + TRI)], "type and shape analysis by abstract interpretation")

prop("C14", "All array-like forms of an argument are interchangeable",
     "Wherever a point, vector or set of points is accepted, a list, a tuple, a NumPy array and an object of the library with the same coordinates give the same result of the same type.",
     "all parameters that accept array-likes x all forms", "Tests pass one form per parameter; an operation that uses an attribute or operator of one form fails for another.",
     ALL, [("conversion at entry", "all modules")], VN + " of product programs (two forms on one path)")

prop("C15", "Everything except plotting works without matplotlib",
     "The package can be imported, and every operation other than plotting used, when nothing but its declared dependencies (NumPy and SciPy) is installed, in particular without matplotlib; a plotting function that needs matplotlib then raises ImportError.",
     "all modules at import and all non-plotting operations x installations with and without matplotlib",
     "The test environment has matplotlib installed.", ALL, [("guarded import", PLO)], "import-effect analysis by abstract interpretation", over=("configurations",))

prop("C16", "Plotting draws the object on the given axes only",
     "Each plot method draws on the axes it is given, uses the coordinates of the object, passes the caller's keywords on to matplotlib, creates no other figure or axes and changes no global matplotlib state.",
     "all plot methods x all objects x all keywords", "Image-free tests only check that plotting does not crash.",
     ALL, [("plot_2d / plot_3d", "all objects"), ("plotter", PLO)], "effect and dataflow analysis by abstract interpretation")

prop("C17", "Alternative constructors build the class they are called on",
     "A class method that creates an object returns an instance of the class it is called on, so that subclasses stay closed under their own constructors.",
     "all alternative constructors x all subclasses", "No test subclasses the objects.", ALL[:14], [("cls(...) in class methods", "all objects")],
     "type analysis by abstract interpretation with an open subclass", over=("programs",))

prop("C18", "Only documented exceptions reach the caller",
     "Whatever numbers the operands hold, the only exceptions an operation raises are ValueError for invalid or degenerate values and TypeError for arguments of the wrong type; "
     "errors such as IndexError, AttributeError, ZeroDivisionError, UnboundLocalError, KeyError or AssertionError never escape.",
     "all operations x all operands (valid, invalid, degenerate) x all paths", "Tests expect the errors they name; an unexpected exception needs an input no test has.",
     ALL, [("explicit checks", "all modules")], "exception-flow analysis by abstract interpretation")

prop("C20", "A segment ends at its endpoints",
     "Every operation on line segments treats exactly the points between the two endpoints, ends included, as the segment: membership, distance, projection and intersection, with each endpoint on each side, "
     "in either order of the endpoints and of the two segments.",
     "all segments x all positions of a point or second segment relative to both ends", "Each test has a few positions; leaving out one end of one segment needs the right position.",
     [SEG], [("parameters compared with 0 and 1, sign of products", SEG)])

prop("C21", "Predicates are true of what satisfies them and false otherwise",
     "Membership, parallelism, perpendicularity, equality, collinearity, coplanarity, concurrency and triangle classification answer True for all operands that satisfy them by construction and False for operands a definite offset away.",
     "all predicates x all operands constructed to satisfy or violate them", "Tests evaluate predicates on literals; a predicate that compares only some coordinates or one of two conditions passes them.",
     [LP, LIN, PLA, SEG, CIR, SPHERE, CYL, TRI, VEC, PT, PTS], [("isclose, matrix_rank, cross and dot products", "all objects")])

prop("C22", "Integer coordinates give the same results as equal floats",
     "An operand given with integer coordinates gives the same result as the same operand with float coordinates; no result is truncated to an integer.",
     "all operations x integer and float forms of all operands", "Assignments into integer arrays truncate silently and literals in tests often divide evenly.",
     ALL, [("float conversion", "all modules")], VN + " of product programs (integer and float on one path)")

prop("C24", "Batch operations agree with the scalar operation on each row",
     "Every operation that handles many points or a second form of the same question at once (project_points, distance_points, side of several points, points of a mesh, fits from arrays, and so on) gives for each row exactly what the scalar operation gives for that row.",
     "all batch operations x all rows x all operands", "The tests compare literals for one of the two forms, not the two with each other.",
     [LIN, PLA, PTS, MEA, TRA, CIR, SPHERE, TRI, SEG], [("matrix formulas", LIN + " " + PLA)], VN + " of product programs")

prop("C29", "Symmetric operations are symmetric",
     "Distances, angles, intersections, parallelism and similar relations of two operands do not depend on their order, and reversing a line, a segment or a normal changes at most the sign of signed results.",
     "all symmetric operations x all operands", "Each test evaluates one order.", [LIN, PLA, SEG, CIR, VEC, PT, TRI, MEA],
     [("formulas", "all modules")], VN + " of product programs")

prop("C30", "A projection lies on its target and its offset is perpendicular",
     "Projecting a point, vector or line onto a point set's object (line, plane, vector, circle, sphere, segment ...) gives a result that lies on that object, and the difference from the original is perpendicular to it (or radial), which makes it the nearest one; "
     "projecting twice changes nothing.",
     "all projections x all operands", "Tests compare literals; the identity has to hold for all reals.", [LIN, PLA, VEC, CIR, SPHERE, CYL, SPH, SEG, TRI],
     [("projection formulas", LIN + " " + PLA + " " + VEC)], VN + " (polynomial identities modulo the definitions)")

prop("C31", "An intersection lies on both operands",
     "Every point, line or pair of points returned by an intersection lies on both operands; where two points are returned they are the two distinct ones, in the documented order.",
     "all intersections x all intersecting operands", "Tests compare literals.", [LIN, PLA, SEG, CIR, SPHERE, CYL, TRI],
     [("intersection formulas", LIN + " " + PLA + " " + CIR + " " + SPHERE + " " + CYL)], VN + " (polynomial identities modulo the definitions)")

prop("C32", "Distances, angles, sides and coordinates equal their definitions",
     "Every distance is the length of the shortest connection, every angle has the cosine of the normalised scalar product in its documented range and sign, every side has the sign of the signed distance, and every coordinate conversion "
     "(cylindrical, spherical, along directions) reproduces the original point.",
     "all measuring operations x all operands", "Tests compare literals.", [LIN, PLA, PT, VEC, TRA, MEA, SEG, TRI, CYL, CIR, SPHERE, PTS],
     [("formulas", "all modules")], VN + " (polynomial identities modulo the definitions)")

prop("C33", "Areas, volumes, lengths and centres equal their closed forms",
     "Area, surface area, volume, perimeter and length of every shape, polygon and triangle, and centroids, orthocentres, altitudes, medians and other derived parts equal their geometric closed forms for all parameters.",
     "all shapes x all parameters", "Tests compare literals.", [CIR, SPHERE, CYL, TRI, SEG, MEA, PTS], [("formulas", "all modules")],
     VN + " (polynomial identities modulo the definitions)")

prop("C34", "Objects built from data satisfy the data",
     "A line, plane, circle, segment, triangle or point created from points, vectors, slopes, coefficients, angles or fitted data contains or reproduces that data, and conversions to other representations (coefficients, mesh, point at a parameter, arrays) describe the same object.",
     "all alternative constructors and conversions x all data", "Tests compare literals.", ALL[:14], [("constructors and conversions", "all objects")],
     VN + " (polynomial identities modulo the definitions)")

prop("C35", "Runs on every supported Python and NumPy version",
     "On every Python version and NumPy version the package declares support for (Python 3.8 and later), every module imports and every operation finds the syntax, "
     "the standard-library and NumPy functions and the keyword arguments it uses: nothing depends on a feature that only newer versions have or that newer versions removed.",
     "all modules x all supported versions of Python and NumPy", "The tests run on one version of Python and NumPy.", ALL, [("requires-python and dependencies", "pyproject.toml"),
     ("imports", "all modules")], "syntax-tree lint of names, keywords and syntax against version tables")

prop("C36", "Fits solve the least-squares problem they document",
     "For every point set that best_fit accepts, of any size and with any repeated points, the result is assembled from the exact solution of the documented problem over all the given points: "
     "a line or plane passes through the centroid along the direction of greatest variance or with the normal of least variance, and the returned error is the sum of squared distances of the points from it; "
     "the centre of a circle or sphere solves the algebraic least-squares system and the radius is the root mean square distance of the points from it; "
     "a cylinder's directions are compared by the residual of the algebraic circle fit of the points projected along them, its axis passes through that circle's centre, "
     "its radius is the root mean square distance of the points from the axis, and it starts level with the outermost point.",
     "all fitting operations x all accepted point sets", "Tests fit a handful of exact or near-exact point sets, for which many different estimators agree.", [LIN, PLA, CIR, SPHERE, CYL],
     [("best_fit", "Line, Plane, Circle, Sphere, Cylinder")],
     "abstract interpretation with the solvers uninterpreted; identity test of the result's value numbers at random points of each path's region")

NA = [
    ("N01", "Fitted objects minimise the residual", "The line, plane, circle, sphere or cylinder returned by best_fit has no greater residual than any other of its kind for the same points.",
     "all point sets", [LIN, PLA, CIR, SPHERE, CYL], "Optimality of a numerical least-squares solution is a property of the singular value decomposition and of the optimiser on runtime data; no static argument over this source bounds it (what is decided statically: "
     "equivariance of the fits in C09-C12, and in C36 that the solver is given the documented problem and its solution is used as documented)."),
    ("N02", "Floating-point results are accurate", "Results differ from the exact geometric value by a small multiple of the rounding unit, so that the default tolerances decide correctly for operands of any magnitude.",
     "all operands of all magnitudes", ALL, "The error of long floating-point expressions depends on runtime magnitudes and cancellations; a static bound over unbounded inputs does not exist here (several operations do cancel catastrophically by design)."),
    ("N03", "Fitting a cylinder terminates and converges", "Cylinder.best_fit terminates and returns a cylinder whose residual is a local minimum for every set of points around a cylinder.",
     "all point sets and starting points", [CYL], "Convergence of scipy.optimize.minimize on this objective is a runtime quantity."),
    ("N04", "Plots look like the object", "The drawing produced by matplotlib shows the object: sampled surfaces and markers are visible where the object is.",
     "all objects, axes and figure settings", [PLO, SPHERE, CYL, PLA], "What is rendered is decided inside matplotlib at draw time; only the coordinates and keywords handed over are visible in this source (decided in C16 where claimed)."),
    ("N05", "Documentation examples reproduce", "Every example in a docstring prints what it shows.", "all examples", ALL,
     "Evaluating examples is running the code; the existing doctest run already settles it."),
]


def main():
    import checks
    rows = []
    man = {"version": 1, "setup_cmd": "python3 -m py_compile sa/*.py", "checks": [], "not_applicable": [],
           "notes": "All checks share one analyser in /verif/sa (Python standard library only); see DESIGN.md."}
    for p in P:
        if p["id"] not in checks.CHECKS:
            continue
        assert len(p["title"]) <= 80, p["title"]
        rows.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                     "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                     "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                                 "hook_needed": None}})
        man["checks"].append({"property": p["id"], "quick_cmd": "python3 sa/check.py %s" % p["id"],
                              "thorough_cmd": "python3 sa/check.py %s --tier thorough" % p["id"],
                              "technique": p["technique"], "level": "other", "level_note": p["note"]})
    for i, t, s, q, f, why in NA:
        rows.append({"id": i, "title": t, "statement": s, "quantifier": {"over": ["inputs"], "text": q},
                     "why_tests_cant": "Tests sample a few data sets.", "anchors": {"files": f, "mechanism": [], "hook_needed": None}})
        man["not_applicable"].append({"property": i, "reason": why})
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for r in rows:
            f.write(json.dumps(r) + "\n")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
