"""Judgements about the value numbers an operation returns."""
from driver import *
import spec

HOLDS, BROKEN, OPEN = "holds", "broken", "open"


class Shape(Exception):
    """The result is not of the form the specification expects."""


def cells(v, n=None):
    if isinstance(v, Arr):
        cs = [c for c in M.Models.pcells(None, None, v)] if False else list(v.cells)
    elif isinstance(v, (int, float)) and not isinstance(v, bool):
        cs = [const(v)]
    elif isinstance(v, (list, tuple)):
        cs = [c for x in v for c in cells(x)]
    else:
        raise Shape("%s" % type(v).__name__)
    if any(not isinstance(c, P) for c in cs):
        raise Shape("not numeric")
    if n is not None and len(cs) != n:
        raise Shape("%d components" % len(cs))
    return cs


def attr(it, o, *names):
    if not isinstance(o, Obj):
        raise Shape(type(o).__name__)
    try:
        return [it.getattr(o, n) for n in names]
    except PyExc:
        raise Shape("no attribute")


def slots(it, kind, v, d):
    """[(name, role, weight, data)] of a result; None if nothing numeric is specified."""
    if kind.startswith("(") and kind.endswith(")"):
        ks = kind[1:-1].split(",")
        if not isinstance(v, (tuple, list)) or len(v) != len(ks):
            raise Shape("not a tuple of %d" % len(ks))
        out = []
        for i, (k, x) in enumerate(zip(ks, v)):
            s = slots(it, k, x, d)
            if s is None:
                return None
            out += [("[%d]%s" % (i, n), r, w, y) for n, r, w, y in s]
        return out
    base, _, w = kind.partition("^")
    w = int(w) if w else 1
    if base == "len":
        return [("", "S", w, cells(v, 1))]
    if base in ("angle", "ratio"):
        return [("", "S", 0, cells(v, 1))]
    if base == "int":
        return [("", "S", 0, cells(v, 1))]
    if base == "pt":
        return [("", "P", 1, cells(v))]
    if base == "vec":
        return [("", "V", w, cells(v))]
    if base == "unit":
        return [("", "V", 0, cells(v))]
    if base == "lens":
        return [("", "S", 1, cells(v))]
    if base == "ratios":
        return [("", "V", 0, cells(v))]
    if base == "pts":
        return [("", "P", 1, cells(v, d))]
    if base == "pts*":
        c = cells(v)
        if len(c) % d or not c:
            raise Shape("%d components" % len(c))
        return [("[%d]" % i, "P", 1, c[i * d:(i + 1) * d]) for i in range(len(c) // d)]
    if base == "mesh":
        if not isinstance(v, (tuple, list)) or len(v) != 3:
            raise Shape("not three grids")
        xs = [cells(x) for x in v]
        if len({len(x) for x in xs}) != 1:
            raise Shape("grids of different sizes")
        return [("[%d]" % i, "P", 1, list(t)) for i, t in enumerate(zip(*xs))]
    if base == "vecs":
        return [("", "V", 1, cells(v, d))]
    if base in ("line", "linefoot"):
        p, n = attr(it, v, "point", "direction")
        return [("", "L", 1, (cells(p), cells(n)))]
    if base == "plane":
        p, n = attr(it, v, "point", "normal")
        return [("", "H", 1, (cells(p), cells(n)))]
    if base in ("circle", "sphere"):
        p, r = attr(it, v, "point", "radius")
        return [(".point", "P", 1, cells(p)), (".radius", "S", 1, cells(r, 1))]
    if base == "cylinder":
        p, x, r = attr(it, v, "point", "vector", "radius")
        return [(".point", "P", 1, cells(p)), (".vector", "V", 1, cells(x)), (".radius", "S", 1, cells(r, 1))]
    return None


# ------------------------------------------------------------------ generators
class Motion:
    """A one-parameter family of transformations and how results must follow."""

    def __init__(self, kind, gen, **k):
        self.kind = kind
        self.gen = gen
        self.__dict__.update(k)

    def vecfield(self, x):
        """Velocity of a vector with components x (weight not included)."""
        d = len(x)
        if self.kind == "rotate":
            out = [ZERO] * d
            out[self.j] = -x[self.k]
            out[self.k] = x[self.j]
            return out
        return [ZERO] * d

    def ptfield(self, x):
        if self.kind == "scale":
            return list(x)
        if self.kind == "translate":
            return [ONE if i == self.j else ZERO for i in range(len(x))]
        return self.vecfield(x)


def motions(kind, d):
    if kind == "scale":
        return [Motion("scale", gen_scale())]
    if kind == "translate":
        return [Motion("translate", gen_translate(j), j=j) for j in range(d)]
    if kind == "rotate":
        return [Motion("rotate", gen_rotate(j, k), j=j, k=k) for j in range(d) for k in range(j + 1, d)]


def zeros(ps):
    r = True
    for p in ps:
        z = V.is_zero(p)
        if z is False:
            return False
        if z is None:
            r = None
    return r


def follows(mo, slot):
    """Does the result follow the motion?  (True/False/None, what was compared)"""
    name, role, w, data = slot
    g = mo.gen
    dv = lambda xs: [D.deriv(x, g) for x in xs]
    sc = 1 if mo.kind == "scale" else 0
    try:
        if role == "S":
            return zeros([a - b.scale(w * sc) for a, b in zip(dv(data), data)])
        if role == "P":
            return zeros([a - b for a, b in zip(dv(data), mo.ptfield(data))])
        if role == "V":
            f = mo.vecfield(data)
            return zeros([a - b.scale(w * sc) - c for a, b, c in zip(dv(data), data, f)])
        if role in ("L", "H"):
            p, n = data
            dp = [a - b for a, b in zip(dv(p), mo.ptfield(p))]
            dn = [a - b for a, b in zip(dv(n), mo.vecfield(n))]
            if all(not x.t for x in n):
                return None
            m = len(n)
            turn = zeros([dn[i] * n[j] - dn[j] * n[i] for i in range(m) for j in range(i + 1, m)])
            if turn is not True:
                return turn
            if role == "L":
                return zeros([dp[i] * n[j] - dp[j] * n[i] for i in range(m) for j in range(i + 1, m)])
            s = ZERO
            for i in range(m):
                s = s + dp[i] * n[i]
            return zeros([s])
    except D.Bad:
        return False
    except (D.Unk, V.Blowup):
        return None
    return None


# ------------------------------------------------------------------ conditions
TOL = 1e-3


def is_tolerance(c):
    """A comparison against a small constant threshold (or isclose)."""
    if c.kind in ("isclose", "finite", "isnan", "isinf", "unk", "isint"):
        return True
    if c.kind == "cmp":
        k = c.args[1].t.get((), 0)
        return k != 0 and abs(k) < TOL
    return False


def leaves(c):
    if c.kind == "not":
        return leaves(c.args[0])
    if c.kind in ("and", "or"):
        return [x for y in c.args[0] for x in leaves(y)]
    if c.kind in ("nall", "nany"):
        return leaves(c.args[0])
    return [c]


def equalities(c):
    """The polynomials whose common zero set c (or its negation) describes, else None."""
    if c.kind == "not":
        return equalities(c.args[0])
    if c.kind == "cmp":
        return [c.args[1]] if c.args[0] in ("==", "!=") else None
    if c.kind == "and":
        out = []
        for x in c.args[0]:
            if x.kind != "cmp" or x.args[0] != "==":
                return None
            out.append(x.args[1])
        return out
    if c.kind == "or":
        out = []
        for x in c.args[0]:
            if x.kind != "cmp" or x.args[0] != "!=":
                return None
            out.append(x.args[1])
        return out
    if c.kind in ("nall", "nany"):
        return equalities(c.args[0])
    return None


def ideal_follows(g, eqs):
    """The common zero set is carried into itself."""
    try:
        for x in eqs:
            d = D.deriv(x, g)
            if V.is_zero(d):
                continue
            if not any(D.ratio(d, y) is not None for y in eqs):
                return None
        return True
    except (D.Bad, D.Unk, V.Blowup):
        return None


def cond_follows(mo_gen, c, exempt):
    """Is the truth value of c unchanged by the motion?"""
    eqs = equalities(c)
    if eqs and len(eqs) > 1 and ideal_follows(mo_gen, eqs):
        return True
    return _cond_follows(mo_gen, c, exempt)


def _cond_follows(mo_gen, c, exempt):
    """Is the truth value of c unchanged by the motion?"""
    out = True
    for x in leaves(c):
        if x.kind == "const":
            continue
        if exempt(x):
            continue
        if x.kind == "cmp":
            try:
                d = D.deriv(x.args[1], mo_gen)
                r = D.proportional(d, x.args[1])
                if r is None and lone_term(x.args[1], d, mo_gen):
                    r = False
            except D.Bad:
                r = False
            except (D.Unk, V.Blowup):
                r = None
        elif x.kind == "isclose":
            try:
                r = close_follows(x, mo_gen)
            except D.Bad:
                r = False
            except (D.Unk, V.Blowup):
                r = None
        else:
            r = None
            try:
                if all(V.is_zero(D.deriv(p, mo_gen)) for p in x.polys()):
                    r = True
            except (D.Bad, D.Unk, V.Blowup):
                r = None
        if r is False:
            return False
        if r is None:
            out = None
    return out


def lone_term(y, d, g):
    """y is an unchanged quantity plus one term that is not: its zero set moves."""
    if len(y.t) < 2 or V.is_zero(d) is not False:
        return False
    for m, k in y.t.items():
        b = P({m: k})
        if V.is_zero(d - D.deriv(b, g)) and V.is_zero(D.deriv(b, g)) is False:
            return True
    return False


def close_follows(x, g):
    a, b, rel, ab = x.args
    da, db = D.deriv(a, g), D.deriv(b, g)
    if V.is_zero(da) and V.is_zero(db):
        return True
    r = D.ratio(da - db, a - b)
    if V.is_zero(ab) or (ab.const() is not None and ab.const() == 0):
        ra, rb = D.ratio(da, a), D.ratio(db, b)
        if ra is not None and ra == rb:
            return True
    if r is not None and r != 0:
        return False      # scales against a fixed tolerance
    if r == 0:
        return None
    return None
