"""Models of numpy.linalg, of products and of scipy.optimize."""
import itertools
from fractions import Fraction
import poly as V
from poly import P, ZERO, ONE, const, of_atom
import domains as D
from domains import NEG, ZER, POS, ANY
from values import *
import npnum as N
from npnum import np_, NP, arr, sig, plain
import pybuiltins as B


# ------------------------------------------------------------------ products
@np_("numpy.dot")
def _dot(m, it, args, kw):
    o = sig(it, ["a", "b"], args, kw)
    arr(m, it, o["a"]), arr(m, it, o["b"])
    return m.dot(it, o["a"], o["b"])


@np_("numpy.matmul")
def _matmul(m, it, args, kw):
    o = sig(it, ["a", "b"], args, kw)
    arr(m, it, o["a"]), arr(m, it, o["b"])
    return m.matmul(it, o["a"], o["b"])


@np_("numpy.vdot")
def _vdot(m, it, args, kw):
    x, y = arr(m, it, args[0]), arr(m, it, args[1])
    return m.dot(it, N.ravel(m, it, plain(x)), N.ravel(m, it, plain(y)))


@np_("numpy.inner")
def _inner(m, it, args, kw):
    x, y = arr(m, it, args[0]), arr(m, it, args[1])
    if x.is_scalar() or y.is_scalar():
        return m.arith(it, "Mult", x, y)
    if x.shape[-1] != y.shape[-1]:
        raise it.err("ValueError", "shapes not aligned")
    if y.ndim > 1:
        y = m.transpose(it, y)
    return m.dot(it, x, y)


@np_("numpy.outer")
def _outer(m, it, args, kw):
    o = sig(it, ["a", "b"], args, kw)
    x, y = arr(m, it, o["a"]), arr(m, it, o["b"])
    like = m.spatial([x, y])
    x, y = N.ravel(m, it, plain(x)), N.ravel(m, it, plain(y))
    if x.is_scalar():
        x = Arr((1,), x.cells, "nd", x.dt)
    if y.is_scalar():
        y = Arr((1,), y.cells, "nd", y.dt)
    xc, yc = m.pcells(it, x), m.pcells(it, y)
    import models
    dt = models.promote(x.dt, y.dt)
    r = Arr((x.shape[0], y.shape[0]), [a * b for a in xc for b in yc], "nd", dt)
    # ndarray.outer is computed by multiply, so the class is kept
    return m.wrap(it, r, like) if like is not None else r


@np_("numpy.cross")
def _cross(m, it, args, kw):
    o = sig(it, ["a", "b", "axisa", "axisb", "axisc", "axis"], args, kw, axisa=-1, axisb=-1, axisc=-1, axis=None)
    x, y = plain(arr(m, it, o["a"])), plain(arr(m, it, o["b"]))
    if x.is_scalar() or y.is_scalar():
        raise it.err("AxisError", "cross of scalars")
    ax = o["axis"]
    if ax is not None:
        aa = ab = ac = ax
    else:
        aa, ab, ac = o["axisa"], o["axisb"], o["axisc"]
    if not all(isinstance(v, int) for v in (aa, ab, ac)):
        raise Undecided("cross axis")

    def last(v, k):
        k = k % v.ndim
        if k == v.ndim - 1:
            return v
        axes = [i for i in range(v.ndim) if i != k] + [k]
        return m.transpose(it, v, axes)
    x, y = last(x, aa), last(y, ab)
    dx, dy = x.shape[-1], y.shape[-1]
    if dx not in (2, 3) or dy not in (2, 3):
        if isinstance(dx, str) or isinstance(dy, str):
            raise Undecided("cross")
        raise it.err("ValueError", "incompatible dimensions for cross product (dimension must be 2 or 3)")
    shape = m.broadcast(it, [x.shape[:-1], y.shape[:-1]])

    def comps(v, d):
        out = []
        n = len(v.cells) // d
        cells = m.pcells(it, v)
        for j in range(d):
            out.append(m.spread(Arr(v.shape[:-1], [cells[i * d + j] for i in range(n)], "nd", v.dt), shape))
        while len(out) < 3:
            out.append([ZERO] * len(out[0]))
        return out
    a, b = comps(x, dx), comps(y, dy)
    res = [[a[1][i] * b[2][i] - a[2][i] * b[1][i], a[2][i] * b[0][i] - a[0][i] * b[2][i],
            a[0][i] * b[1][i] - a[1][i] * b[0][i]] for i in range(len(a[0]))]
    import models
    dt = models.promote(x.dt, y.dt)
    if dx == 2 and dy == 2:
        return m.nd(it, shape, [r[2] for r in res], dt)
    r = Arr(shape + (3,), [c for r in res for c in r], "nd", dt)
    if len(shape) and ac not in (-1, len(shape)):
        k = ac % (len(shape) + 1)
        axes = list(range(len(shape)))
        axes.insert(k, len(shape))
        r = m.transpose(it, r, axes)
    return r


@np_("numpy.einsum")
def _einsum(m, it, args, kw):
    if not args or not isinstance(args[0], str):
        raise Undecided("einsum")
    spec = args[0].replace(" ", "")
    ops = [plain(arr(m, it, x)) for x in args[1:]]
    if "..." in spec:
        raise Undecided("einsum ellipsis")
    lhs, _, rhs = spec.partition("->")
    ins = lhs.split(",")
    if len(ins) != len(ops):
        raise it.err("ValueError", "einsum operands")
    if "->" not in spec:
        allc = "".join(ins)
        rhs = "".join(sorted(c for c in set(allc) if allc.count(c) == 1))
    dim = {}
    for s, a in zip(ins, ops):
        if len(s) != a.ndim:
            raise it.err("ValueError", "einsum subscripts")
        for c, d in zip(s, a.shape):
            if dim.get(c, d) != d:
                raise it.err("ValueError", "einsum dimensions")
            dim[c] = d
    letters = sorted(dim)
    inner = [c for c in letters if c not in rhs]
    eff = {c: (d if isinstance(d, int) else 1) for c, d in dim.items()}
    cells = [m.pcells(it, a) for a in ops]

    def at(q, ix):
        o = 0
        for c in ins[q]:
            o = o * eff[c] + ix[c]
        return cells[q][o]
    out = []
    for rix in itertools.product(*[range(eff[c]) for c in rhs]):
        s = ZERO
        for iix in itertools.product(*[range(eff[c]) for c in inner]):
            ix = dict(zip(rhs, rix))
            ix.update(zip(inner, iix))
            t = ONE
            for q in range(len(ops)):
                t = t * at(q, ix)
            s = s + t
        for c in inner:
            if isinstance(dim[c], str):
                s = D.nsum(s, dim[c])
        out.append(V.simp(s))
    import models
    dt = models.promote(*[a.dt for a in ops])
    return m.nd(it, tuple(dim[c] for c in rhs), out, dt)


# ------------------------------------------------------------------ norm
def sumsq(cells):
    s = ZERO
    for c in cells:
        s = s + c * c
    return V.simp(s)


def root(p):
    return V.sqrt(p)


@np_("numpy.linalg.norm")
def _norm(m, it, args, kw):
    o = sig(it, ["x", "ord", "axis", "keepdims"], args, kw, ord=None, axis=None, keepdims=False)
    a = arr(m, it, o["x"])
    like = None
    a = plain(a)
    ax, kd, od = o["axis"], o["keepdims"], o["ord"]
    if isinstance(od, Arr):
        c = od.c.const() if isinstance(od.c, P) else None
        if c is None:
            s = od.c.single() if isinstance(od.c, P) else None
            od = float("inf") if s is not None and s.kind == "special" and s.args[0] == "inf" else None
            if od is None:
                return m.nd(it, (), [it.freshatom("norm", m.pcells(it, a), nonneg=True)], "f")
        else:
            od = int(c) if c.denominator == 1 else float(c)
    kd = kd is True
    it.event("norm", ord=od)
    cells = m.pcells(it, a)
    b = Arr(a.shape, cells, "nd", "f")
    if ax is None and a.ndim > 2 and od is not None:
        raise it.err("ValueError", "Improper number of dimensions to norm.")
    if od is None or (od == "fro") or (od == 2 and not (ax is None and a.ndim == 2)):
        if od == "fro" and ax is None and a.ndim == 1:
            raise it.err("ValueError", "Invalid norm order 'fro' for vectors")
        sq = Arr(a.shape, [c * c for c in cells], "nd", "f")
        s = m.sum(it, sq, ax, kd)
        return m.nd(it, s.shape, [root(c) for c in s.cells], "f")
    if ax is None and a.ndim == 2 or isinstance(ax, (tuple, list)):
        return m.nd(it, (), [it.freshatom("norm", cells, nonneg=True)], "f")
    ab = Arr(a.shape, [V.absv(c) for c in cells], "nd", "f")
    if od == float("inf"):
        r = m.extremum(it, ab, ax, "max", kd)
    elif od == float("-inf"):
        r = m.extremum(it, ab, ax, "min", kd)
    elif od == 1:
        r = m.sum(it, ab, ax, kd)
    elif od == 0:
        nz = Arr(a.shape, [it.cmpc("!=", c) for c in cells], "nd", "b")
        r = m.sum(it, nz, ax, kd)
    elif isinstance(od, str):
        raise it.err("ValueError", "Invalid norm order '%s' for vectors" % od)
    elif isinstance(od, int) and od > 0:
        pw = Arr(a.shape, [V.ipow(c, od) for c in ab.cells], "nd", "f")
        s = m.sum(it, pw, ax, kd)
        out = []
        for c in s.cells:
            at = V.func("pow", c, const(Fraction(1, od)))
            q = V.T.atoms[next(iter(at.atoms()))]
            q.info = q.info or {}
            q.info["nonneg"] = True
            out.append(at)
        r = Arr(s.shape, out, "nd", "f")
    else:
        r = m.nd(it, (), [it.freshatom("norm", cells, nonneg=True)], "f") if ax is None else None
        if r is None:
            raise Undecided("norm order")
    return m.nd(it, r.shape, r.cells, "f")


# ------------------------------------------------------------------ determinants
def det_cells(rows):
    """Laplace expansion, minors shared."""
    n = len(rows)
    if n == 0:
        return ONE
    memo = {}

    def go(i, cols):
        if i == n:
            return ONE
        k = (i, cols)
        if k in memo:
            return memo[k]
        s = ZERO
        for q, c in enumerate(cols):
            e = rows[i][c]
            if not e.t:
                continue
            sub = go(i + 1, cols[:q] + cols[q + 1:])
            t = e * sub
            s = s + (t if q % 2 == 0 else -t)
        memo[k] = V.simp(s)
        return memo[k]
    return go(0, tuple(range(n)))


def square(m, it, v):
    a = plain(arr(m, it, v))
    if a.ndim < 2:
        raise it.err("LinAlgError", "array must be at least two-dimensional")
    if a.ndim > 2 or any(isinstance(s, str) for s in a.shape):
        raise Undecided("stacked matrices")
    if a.shape[0] != a.shape[1]:
        raise it.err("LinAlgError", "Last 2 dimensions of the array must be square")
    n = a.shape[0]
    c = m.pcells(it, a)
    return n, [c[i * n:(i + 1) * n] for i in range(n)]


@np_("numpy.linalg.det")
def _det(m, it, args, kw):
    n, rows = square(m, it, sig(it, ["a"], args, kw)["a"])
    if n > 5:
        return m.nd(it, (), [it.freshatom("det", [c for r in rows for c in r])], "f")
    return m.nd(it, (), [det_cells(rows)], "f")


def nonsingular(it, d, what):
    it.event("singular", det=d, signs=it.facts.signs(d), what=what)
    c = d.const()
    if c == 0:
        raise it.err("LinAlgError", "Singular matrix")
    # a value is returned only if the matrix is not singular
    if it.facts.signs(d) & ZER:
        if it.choose(2, "singular") == 1:
            it.assume(it.cmpc("==", d), True)
            raise it.err("LinAlgError", "Singular matrix")
        it.assume(it.cmpc("!=", d), True)


def cofactor(rows, i, j):
    sub = [[rows[a][b] for b in range(len(rows)) if b != j] for a in range(len(rows)) if a != i]
    d = det_cells(sub)
    return d if (i + j) % 2 == 0 else -d


@np_("numpy.linalg.inv")
def _inv(m, it, args, kw):
    n, rows = square(m, it, sig(it, ["a"], args, kw)["a"])
    d = det_cells(rows) if n <= 4 else it.freshatom("det", [c for r in rows for c in r])
    nonsingular(it, d, "inv")
    if n > 4:
        raise Undecided("inverse of a large matrix")
    return m.nd(it, (n, n), [V.div(cofactor(rows, j, i), d) for i in range(n) for j in range(n)], "f")


@np_("numpy.linalg.solve")
def _solve(m, it, args, kw):
    o = sig(it, ["a", "b"], args, kw)
    n, rows = square(m, it, o["a"])
    b = plain(arr(m, it, o["b"]))
    if b.is_scalar() or b.ndim > 2:
        raise it.err("ValueError", "solve: bad right-hand side")
    if b.shape[0] != n:
        if isinstance(b.shape[0], str):
            raise Undecided("solve")
        raise it.err("ValueError", "solve: mismatch in its core dimension")
    d = det_cells(rows) if n <= 5 else it.freshatom("det", [c for r in rows for c in r])
    nonsingular(it, d, "solve")
    if n > 5:
        raise Undecided("solution of a large system")
    bc = m.pcells(it, b)
    k = 1 if b.ndim == 1 else b.eff()[1]
    out = []
    for i in range(n):
        for q in range(k):
            s = ZERO
            for j in range(n):
                s = s + cofactor(rows, j, i) * bc[j * k + q]
            out.append(V.div(V.simp(s), d))
    return m.nd(it, b.shape, out, "f")


# ------------------------------------------------------------------ matrices of symbolic height
def rowsof(shape, cells):
    d = shape[1]
    n = 1 if isinstance(shape[0], str) else shape[0]
    return [list(cells[i * d:(i + 1) * d]) for i in range(n)]


def linear_map(shape, cells, g):
    """M with D X = X M (rows transform alike), as columns; None if unknown."""
    rows = rowsof(shape, cells)
    M = []
    for j in range(shape[1]):
        ds = [D.deriv(r[j], g) for r in rows]
        if all(not x.t for x in ds):
            M.append([Fraction(0)] * shape[1])
            continue
        c = N.linear_col(ds, rows)
        if c is None:
            return None
        M.append(c)
    return M            # M[j][k]: coefficient of column k in D column j


def similarity(M):
    """(lam, K) with M = lam*I + K, K antisymmetric; None otherwise."""
    d = len(M)
    if d == 0:
        return None
    lam = M[0][0]
    for i in range(d):
        if M[i][i] != lam:
            return None
        for j in range(i):
            if M[i][j] != -M[j][i]:
                return None
    return lam, [[M[j][k] if j != k else Fraction(0) for k in range(d)] for j in range(d)]


def mat(m, it, v, what):
    a = plain(arr(m, it, v))
    if a.ndim < 2:
        raise it.err("LinAlgError", "array must be at least two-dimensional")
    if a.ndim > 2:
        raise Undecided("stacked matrices in " + what)
    return a


# ------------------------------------------------------------------ SVD
def svd_parts(m, it, a):
    """Singular values and right vectors of the n x d matrix (rows = samples)."""
    cells = tuple(m.pcells(it, a))
    sh = a.shape
    key = (sh, cells)
    d = sh[1]

    def sim(g):
        M = linear_map(sh, cells, g)
        s = similarity(M) if M is not None else None
        if s is None:
            raise D.Unk("svd")
        return s
    S = []
    for i in range(d):
        at = V.T.get("svdS", (), key=key + (i,))
        if at.info is None:
            at.info = {"name": "sv%d" % i, "nonneg": True, "extra": list(cells),
                       "src": (sh, cells, i, None), "D": lambda at, g: of_atom(at).scale(sim(g)[0])}
        S.append(of_atom(at))
    Vh = []
    for i in range(d):
        for j in range(d):
            at = V.T.get("svdV", (), key=key + (i, j))
            if at.info is None:
                def dd(at, g, i=i, j=j):
                    K = sim(g)[1]
                    s = ZERO
                    for k in range(d):
                        if K[j][k]:
                            s = s + of_atom(V.T.get("svdV", (), key=key + (i, k))).scale(K[j][k])
                    return s
                at.info = {"name": "v%d%d" % (i, j), "src": (sh, cells, i, j), "lo": -1, "hi": 1, "extra": list(cells), "D": dd,
                           "odd_unknown": True}
                if j == d - 1:
                    at.info["unit"] = (key, i, d)
            Vh.append(of_atom(at))
    # unit rows: v_{i,d-1}^2 = 1 - sum of the other squares
    for i in range(d):
        at = V.T.atoms[next(iter(Vh[i * d + d - 1].atoms()))]
        if "sq" not in at.info:
            s = ONE
            for j in range(d - 1):
                s = s - Vh[i * d + j] * Vh[i * d + j]
            at.info["sq"] = s
    return S, Vh


@np_("numpy.linalg.svd", "scipy.linalg.svd")
def _svd(m, it, args, kw):
    o = sig(it, ["a", "full_matrices", "compute_uv", "hermitian"], args, kw, full_matrices=True, compute_uv=True,
            hermitian=False)
    it.event("svd", full=o["full_matrices"])
    src = arr(m, it, o["a"])
    a = mat(m, it, o["a"], "svd")
    if any(s == 0 for s in a.shape):
        raise it.err("LinAlgError", "Arrays cannot be empty")
    for p in m.pcells(it, a):
        it.event("svdin", value=p)
    t = src.t if isinstance(src.t, ClassV) else "nd"
    full = o["full_matrices"]
    if isinstance(full, Arr):
        full = it.truth(full)
    if isinstance(a.shape[1], int) and (isinstance(a.shape[0], str) or a.shape[0] >= 1):
        tall = True
        w = a
    elif isinstance(a.shape[0], int):
        tall = False
        w = m.transpose(it, a)
        w = Arr(w.shape, list(w.cells), "nd", w.dt)
    else:
        raise Undecided("svd")
    d = w.shape[1]
    n = w.shape[0]
    if isinstance(n, int) and isinstance(a.shape[1], int) and a.shape[0] < a.shape[1]:
        # fewer samples than columns: treat the columns as samples
        tall = False
        w = m.transpose(it, a)
        w = Arr(w.shape, list(w.cells), "nd", w.dt)
        d, n = w.shape[1], w.shape[0]
    S, Vh = svd_parts(m, it, w)
    # fewer rows than columns: the missing singular values count as zeros
    Sv = m.nd(it, (d,), S, "f")
    if o["compute_uv"] is False:
        return Sv
    V2 = m.nd(it, (d, d), Vh, "f")
    nk = n if full is not False else d
    big = [it.freshatom("svdU", list(w.cells)) for _ in range((nk if isinstance(nk, int) else 1) * (
        n if isinstance(n, int) else 1))]
    for c in big:
        at = V.T.atoms[next(iter(c.atoms()))]
        at.rows = frozenset(x for x in (n, nk) if isinstance(x, str))
    if tall:
        U = Arr((n, nk), big, "nd", "f")
        out = (U, Sv, V2)
    else:
        UT = m.transpose(it, V2)
        U = Arr((d, d), list(UT.cells), "nd", "f")
        out = (U, Sv, Arr((nk, n), big, "nd", "f"))
    if t != "nd":
        a0, a2 = (Arr(x.shape, list(x.cells), t, x.dt) for x in (out[0], out[2]))
        m.finalize(it, a0, src)
        m.finalize(it, a2, src)
        out = (a0, out[1], a2)
    return out


# ------------------------------------------------------------------ rank
def affine_source(shape, cells):
    """If every column is (distinct row - point of the affine hull): the source."""
    if not isinstance(shape[0], str):
        return None
    src = None
    d = shape[1]
    for j, c in enumerate(cells):
        hit = None
        for i in c.atoms():
            at = V.T.atoms[i]
            if at.kind == "uniq" and at.info["axis"] == shape[0]:
                hit = at
        if hit is None:
            return None
        rest = c - of_atom(hit)
        if hit.id in rest.atoms():
            return None
        mean = V.div(D.nsum(of_atom(hit), shape[0]), D.count_atom(shape[0]))
        ok = V.is_zero(rest + mean)
        if not ok:
            r1 = [V.T.atoms[q] for q in rest.atoms()]
            if len(r1) == 1 and len(rest.t) == 1 and r1[0].kind == "ren" and r1[0].info.get("base") is hit \
                    and r1[0].args[1][0] == "row" and rest == -of_atom(r1[0]):
                ok = True
        if not ok:
            return None
        k = hit.info["src"]
        if src is not None and src[0] != k:
            return None
        if hit.info["j"] != j:
            return None
        src = (k, hit)
    return src[0]


def minors_ge(facts, vecs, k, depth):
    """The vectors have rank >= k: learn the consequences."""
    if not vecs:
        raise D.Infeasible()
    d = len(vecs[0])
    if k > min(len(vecs), d):
        raise D.Infeasible()
    if k < 1:
        return
    if len(vecs) == 1:
        facts.learn(sumsq(vecs[0]), POS, depth)
        return
    s = ZERO
    alive = False
    for rs in itertools.combinations(range(len(vecs)), k):
        for cs in itertools.combinations(range(d), k):
            try:
                x = det_cells([[vecs[r][c] for c in cs] for r in rs])
            except V.Blowup:
                return
            if not alive and V.is_zero(x) is not True:
                alive = True
            s = s + x * x
            if len(s.t) > 4000:
                if alive:
                    return
                s = ZERO
    if not alive:
        raise D.Infeasible()
    facts.learn(V.simp(s), POS, depth)
    if k == len(vecs):
        for v in vecs:
            facts.learn(sumsq(v), POS, depth)
        if k == 2:
            facts.learn(sumsq([x - y for x, y in zip(*vecs)]), POS, depth)


def canonical_rows(shape, cells):
    """The rows up to their order and signs: the rank does not depend on them."""
    if not isinstance(shape[0], int):
        return tuple(cells)
    rows = []
    for r in rowsof(shape, cells):
        lead = next((c for c in r if c.t), None)
        if lead is not None and V.content(lead)[0] < 0:
            r = [-c for c in r]
        rows.append(tuple(r))
    return tuple(sorted(rows, key=lambda r: [sorted((m, float(k)) for m, k in c.t.items()) for c in r]))


def rank_atom(m, it, shape, cells, tol):
    key = (shape, canonical_rows(shape, cells), tol)
    at = V.T.get("rank", (), key=key)
    if at.info is None:
        d = shape[1]
        n = shape[0] if isinstance(shape[0], int) else None
        aff = affine_source(shape, cells)
        info = {"name": "rank#%d" % at.id, "src": (shape, tuple(cells), tol), "int": True, "nonneg": True, "lo": 0, "extra": list(cells) + (
            [tol] if tol is not None else [])}
        hi = d
        vecs = None
        if aff is not None:
            ash, ac = aff
            if isinstance(ash[0], int):
                rows = rowsof(ash, ac)
                vecs = [[x - y for x, y in zip(r, rows[0])] for r in rows[1:]]
                hi = min(d, max(0, ash[0] - 1))
            info["affine"] = (ash, ac)
        elif n is not None:
            vecs = rowsof(shape, cells)
            # rows that sum to zero: one row is redundant
            tot = [ZERO] * d
            for r in vecs:
                tot = [x + y for x, y in zip(tot, r)]
            if n > 1 and all(V.is_zero(x) for x in tot):
                base = vecs[0]
                rows = [[x - y for x, y in zip(r, base)] for r in vecs[1:]]
                vecs = rows
            vecs = [v for v in vecs if any(x.t for x in v)]
            hi = min(d, len(vecs))
        info["hi"] = hi
        info["vecs"] = vecs

        def learn(facts, k, depth, vecs=vecs):
            if vecs is not None:
                minors_ge(facts, vecs, k, depth)
            elif k > hi:
                raise D.Infeasible()
        info["learn"] = learn

        def dd(at, g):
            ds = [D.deriv(c, g) for c in cells]
            zero = all(V.is_zero(x) for x in ds)
            M = None
            if not zero:
                M = linear_map(shape, tuple(cells), g)
                if M is None:
                    raise D.Unk("rank")
            dt = D.deriv(tol, g) if tol is not None else ZERO
            if M is None:
                if V.is_zero(dt):
                    return ZERO
                raise D.Unk("rank tolerance")
            s = similarity(M)
            if s is None:
                raise D.Unk("rank of a non-uniformly transformed matrix")
            if tol is not None:
                r = D.ratio(dt, tol)
                if r is None:
                    raise D.Unk("rank tolerance")
                if r != s[0]:
                    raise D.Bad("a rank with a tolerance that does not scale with the matrix")
            return ZERO
        info["D"] = dd
        at.info = info
    return of_atom(at)


@np_("numpy.linalg.matrix_rank")
def _rank(m, it, args, kw):
    o = sig(it, ["A", "tol", "hermitian", "rtol"], args, kw, tol=None, hermitian=False, rtol=None)
    a = plain(arr(m, it, o["A"]))
    tol = o["tol"]
    if o["rtol"] is not None:
        raise Undecided("matrix_rank(rtol=...)")
    if isinstance(tol, UnkV):
        raise N.UnkOperand()
    if tol is not None:
        tol = m.topoly(it, arr(m, it, tol).c)
    it.event("rank", tol=tol)
    if a.ndim < 2:
        cs = [it.cmpc("!=", c) for c in m.pcells(it, a)]
        s = ZERO
        for c in cs[:1]:
            s = m.topoly(it, cor(cs))
        return Arr((), [s], "np", "i")
    if a.ndim > 2:
        raise Undecided("stacked matrices")
    return Arr((), [rank_atom(m, it, a.shape, m.pcells(it, a), tol)], "np", "i")


# ------------------------------------------------------------------ least squares
def lstsq_atoms(m, it, a, b):
    ac, bc = tuple(m.pcells(it, a)), tuple(m.pcells(it, b))
    sh = a.shape
    d = sh[1]
    k = 1 if b.ndim == 1 else b.eff()[1]
    key = (sh, ac, b.shape, bc)

    def coef(j, q):
        return of_atom(V.T.get("lstsq", (), key=key + (j, q)))

    def dd(j, q):
        def f(at, g):
            M = linear_map(sh, ac, g)
            if M is None:
                raise D.Unk("lstsq")
            rows = rowsof(sh, ac)
            col = [bc[i * k + q] for i in range(len(rows))]
            db = [D.deriv(c, g) for c in col]
            cands = [Fraction(0), Fraction(1), Fraction(2)]
            for c, x in zip(db, col):
                r = D.ratio(c, x)
                if r is not None:
                    cands.insert(0, r)
            for lam in cands:
                mm = N.linear_col([c - x.scale(lam) for c, x in zip(db, col)], rows)
                if mm is not None:
                    break
            else:
                raise D.Unk("lstsq right-hand side")
            s = coef(j, q).scale(lam) + const(mm[j])
            # M[col][k] is the matrix entry (k, col); (M c)_j = sum_col M_(j,col) c_col
            for c2 in range(d):
                if M[c2][j]:
                    s = s - coef(c2, q).scale(M[c2][j])
            return s
        return f
    out = []
    for j in range(d):
        for q in range(k):
            at = V.T.get("lstsq", (), key=key + (j, q))
            if at.info is None:
                at.info = {"name": "lsq%d" % j, "src": (sh, ac, bc, j, q, k), "extra": list(ac) + list(bc), "D": dd(j, q)}
            out.append(of_atom(at))
    return out, (d,) if b.ndim == 1 else (d, b.shape[1])


@np_("numpy.linalg.lstsq", "scipy.linalg.lstsq")
def _lstsq(m, it, args, kw):
    o = sig(it, ["a", "b", "rcond"], args, kw, rcond=None)
    a = mat(m, it, o["a"], "lstsq")
    rc = m.asnum(it, o["rcond"]) if o["rcond"] is not None else None
    if rc is not None and rc.is_scalar():
        k = m.topoly(it, rc.c).const()
        if k is not None and k > Fraction(1, 10**9):
            it.event("cutoff", what="lstsq", value=k)
    b = plain(arr(m, it, o["b"]))
    if b.is_scalar():
        raise it.err("LinAlgError", "lstsq")
    if a.shape[0] != b.shape[0]:
        if isinstance(a.shape[0], str) or isinstance(b.shape[0], str):
            raise Undecided("lstsq")
        raise it.err("LinAlgError", "Incompatible dimensions")
    if not isinstance(a.shape[1], int):
        raise Undecided("lstsq")
    cells, shape = lstsq_atoms(m, it, a, b)
    c = m.nd(it, shape, cells, "f")
    deps = m.pcells(it, a) + m.pcells(it, b)
    res = Arr((1,), [it.freshatom("residual", deps, nonneg=True)], "nd", "f")
    rk = Arr((), [rank_atom(m, it, a.shape, m.pcells(it, a), None)], "np", "i")
    sv = Arr((a.shape[1],), [it.freshatom("sv", deps, nonneg=True) for _ in range(a.shape[1])], "nd", "f")
    return (c, res, rk, sv)


@np_("numpy.linalg.pinv", "numpy.linalg.eig", "numpy.linalg.eigh", "numpy.linalg.eigvals", "numpy.linalg.eigvalsh",
     "numpy.linalg.qr", "numpy.linalg.cholesky", "numpy.linalg.slogdet", "numpy.linalg.cond",
     "numpy.linalg.matrix_power", "numpy.linalg.tensorsolve", "numpy.linalg.multi_dot", "numpy.kron",
     "numpy.tensordot", "numpy.cov", "numpy.corrcoef")
def _unm(m, it, args, kw):
    raise Undecided("unmodelled linear algebra")


# ------------------------------------------------------------------ optimisation
@np_("scipy.optimize.minimize")
def _minimize(m, it, args, kw):
    o = sig(it, ["fun", "x0", "args", "method", "jac", "hess", "hessp", "bounds", "constraints", "tol", "callback",
                 "options"], args, kw, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None,
            constraints=(), tol=None, callback=None, options=None)
    x0 = plain(arr(m, it, o["x0"]))
    x0c = m.pcells(it, x0)
    n = len(x0c)
    extra = o["args"] if isinstance(o["args"], tuple) else (o["args"],)
    depth = getattr(it, "min_depth", 0)

    def atom(kind, key, deps, **info):
        at = V.T.get(kind, (), key=key)
        if at.info is None:
            at.info = dict(info, name="%s#%d" % (kind, at.id), extra=[x for x in deps if isinstance(x, P)])
        return of_atom(at)
    xs = [atom("minarg", (depth, n, i), (), mingroup=True, pos=i) for i in range(n)]
    it.min_depth = depth + 1
    try:
        f = it.call(o["fun"], [Arr((n,), list(xs), "nd", "f")] + list(extra), {})
    finally:
        it.min_depth = depth
    fa = m.asnum(it, f)
    if fa is not None and fa.cells and not fa.is_scalar() and len(fa.cells) != 1:
        raise it.err("ValueError", "The user-provided objective function must return a scalar value.")
    it.event("minimize", fun=fa, args=xs, x0=x0c, method=o["method"], tol=o["tol"])
    fc = list(m.pcells(it, fa)) if fa is not None else []
    deps = list(x0c) + fc

    def dd(at, g):
        # a multiple of the function has its minimum in the same place
        for x in x0c:
            if not V.is_zero(D.deriv(x, g)):
                raise D.Unk("argmin")
        for y in fc:
            k = D.ratio(D.deriv(y, g), y)
            if k is None:
                raise D.Unk("argmin")
        return ZERO

    def same(x):
        if isinstance(x, Arr):
            return tuple(m.pcells(it, x))
        if x is None or isinstance(x, (str, bool, int, float, Fraction)):
            return x
        return it.steps
    rest = tuple(same(o[k]) for k in ("method", "jac", "hess", "hessp", "bounds", "constraints", "tol", "callback", "options"))
    if fa is None:
        rest = (it.steps,)
    key = (tuple(x0c), tuple(fc), rest)
    res = OpaqueObj("optres", "minimize")
    res.attrs["x"] = Arr((n,), [atom("argmin", key + (i,), deps, pos=i, D=dd) for i in range(n)], "nd", "f")
    res.attrs["fun"] = Arr((), [atom("minval", key, deps)], "np", "f")
    res.attrs["success"] = Arr((), [Cond("unk", "success%d" % it.steps)], "py", "b")
    res.attrs["message"] = ""
    return res


# ------------------------------------------------------------------ ufunc methods
@np_("numpy.add.reduce")
def _addred(m, it, args, kw):
    o = sig(it, ["array", "axis", "dtype", "out", "keepdims"], args, kw, axis=0, dtype=None, out=None, keepdims=False)
    return m.sum(it, arr(m, it, o["array"]), o["axis"], o["keepdims"] is True)


@np_("numpy.multiply.outer")
def _mulout(m, it, args, kw):
    x, y = arr(m, it, args[0]), arr(m, it, args[1])
    if x.ndim == 1 and y.ndim == 1:
        return _outer(m, it, args, kw)
    raise Undecided("multiply.outer")


@np_("numpy.subtract.outer", "numpy.add.outer")
def _subout(m, it, args, kw):
    raise Undecided("ufunc.outer")
