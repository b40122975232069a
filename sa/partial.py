"""Structural sign of the expression a partial function is applied to (rounding included)."""
import ast

NONNEG_CALLS = {"norm", "abs", "fabs", "absolute", "sqrt", "square", "hypot", "exp", "std", "var", "len", "vector_norm", "count_nonzero"}
REDUCE = {"mean", "sum", "max", "min", "float", "float64", "asarray", "array", "nansum", "fsum", "maximum", "ravel", "average"}


class Where:
    """Finds the call and the local definitions around a site."""

    def __init__(self, program):
        self.by_file = {}
        for name, (path, tree, _) in program.trees.items():
            self.by_file[path] = tree

    def call(self, site, names):
        """(argument expressions, enclosing function) of the calls of a partial function at a site."""
        tree = None
        for p, t in self.by_file.items():
            if p == site[0] or p.endswith("/" + site[0]):
                tree = t
        if tree is None:
            return None
        best = None
        for f in ast.walk(tree):
            if isinstance(f, (ast.FunctionDef, ast.Lambda)) and f.lineno <= site[1] <= f.end_lineno:
                if best is None or f.lineno >= best.lineno:
                    best = f
        out = []
        for n in ast.walk(best if best is not None else tree):
            if not (getattr(n, "lineno", 0) <= site[1] <= getattr(n, "end_lineno", 0)):
                continue
            if isinstance(n, ast.Call) and n.args and leaf(n.func) in names:
                out.append(n.args[0])
            elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) \
                    and n.right.value == 0.5 and "sqrt" in names:
                out.append(n.left)
        return out, best

    def in_try(self, f, line):
        for n in ast.walk(f):
            if isinstance(n, ast.Try) and n.body and n.body[0].lineno <= line <= n.body[-1].end_lineno and n.handlers:
                return True
        return False


def leaf(f):
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""


def sign(e, f, seen=()):
    """'nonneg', 'difference' (may round below zero) or 'unknown'."""
    if isinstance(e, ast.Constant):
        return "nonneg" if isinstance(e.value, (int, float)) and e.value >= 0 else "unknown"
    if isinstance(e, ast.Name):
        if e.id in seen or f is None:
            return "unknown"
        defs = [n for n in ast.walk(f) if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.For, ast.NamedExpr))
                and e.id in {x.id for x in ast.walk(getattr(n, "target", None) or ast.Tuple(elts=n.targets))
                             if isinstance(x, ast.Name)}]
        if len(defs) != 1 or isinstance(defs[0], (ast.AugAssign, ast.For)):
            return "unknown"
        t = defs[0].targets[0] if isinstance(defs[0], ast.Assign) else defs[0].target
        if not isinstance(t, ast.Name) or defs[0].value is None:
            return "unknown"
        return sign(defs[0].value, f, seen + (e.id,))
    if isinstance(e, ast.BinOp):
        a, b = sign(e.left, f, seen), sign(e.right, f, seen)
        if isinstance(e.op, ast.Pow):
            if isinstance(e.right, ast.Constant) and isinstance(e.right.value, int) and e.right.value % 2 == 0:
                return "nonneg"
            return a
        if isinstance(e.op, (ast.Mult, ast.Div)):
            if isinstance(e.op, ast.Mult) and ast.dump(e.left) == ast.dump(e.right):
                return "nonneg"
            return a if a == b else "difference" if "difference" in (a, b) else "unknown"
        if isinstance(e.op, ast.Add):
            if "difference" in (a, b):
                return "difference"
            return "nonneg" if a == b == "nonneg" else "unknown"
        if isinstance(e.op, ast.Sub):
            return "difference"
        return "unknown"
    if isinstance(e, ast.UnaryOp):
        return sign(e.operand, f, seen) if isinstance(e.op, ast.UAdd) else "unknown"
    if isinstance(e, ast.Call):
        n = leaf(e.func)
        if n in NONNEG_CALLS:
            return "nonneg"
        if n in ("max", "maximum", "clip", "fmax"):
            xs = [sign(a, f, seen) for a in e.args]
            return "nonneg" if "nonneg" in xs else "unknown"
        if n in ("dot", "vdot", "inner"):
            xs = list(e.args)
            if isinstance(e.func, ast.Attribute) and len(xs) == 1:
                xs.insert(0, e.func.value)
            return "nonneg" if len(xs) == 2 and ast.dump(xs[0]) == ast.dump(xs[1]) else "unknown"
        if n in REDUCE:
            if e.args:
                return sign(e.args[0], f, seen)
            return sign(e.func.value, f, seen) if isinstance(e.func, ast.Attribute) else "unknown"
        return "unknown"
    if isinstance(e, (ast.Tuple, ast.List)):
        xs = {sign(x, f, seen) for x in e.elts}
        return xs.pop() if len(xs) == 1 else "unknown"
    if isinstance(e, (ast.GeneratorExp, ast.ListComp)):
        return sign(e.elt, None, seen)
    if isinstance(e, ast.IfExp):
        a, b = sign(e.body, f, seen), sign(e.orelse, f, seen)
        return a if a == b else "unknown"
    return "unknown"
