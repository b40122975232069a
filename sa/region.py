"""Random interpretation: value numbers are evaluated at random points of the region that a path's conditions describe.

Nothing of the analysed program runs.  The identity test (poly.is_zero) works on the whole domain; where it leaves an
identity unsettled, two value numbers are told apart by a point of the path's region at which they clearly differ.  All
numbers carry an error bound, conditions have to hold with a margin, and unknown functions make a point unusable.
"""
import math
import random
import time

import poly as V
import domains as D

P = V.P
EPS = 4e-16


class NoPoint(Exception):
    pass


class Singular(Exception):
    pass


class Point:
    """Values for the inputs; rows of a symbolic axis are separate inputs."""
    free = False        # may the minimum a search finds be any number?

    def __init__(self, rnd, values=None, n=None):
        self.rnd = rnd
        self.val = dict(values or {})
        self.n = n or rnd.choice((3, 4, 5, 7))
        self.memo = {}
        self.mode = rnd.choice((0, 0, 1, 2))
        # some rows of a point set may be copies of others
        self.same = {}
        if self.n > 4 and rnd.random() < 0.35:          # some of the rows are repeated
            self.same = {i: rnd.randrange(i) for i in rnd.sample(range(1, self.n), rnd.randint(1, self.n - 4))}

    def with_(self, key, v):
        q = Point(self.rnd, self.val, self.n)
        q.mode, q.same, q.free = self.mode, self.same, self.free
        q.val[key] = v
        return q

    def draw(self, at):
        r = self.rnd
        i = at.info or {}
        if i.get("int"):
            v = float(r.randint(-6, 6))
        elif self.mode == 0:
            v = r.choice((-1, 1)) * r.uniform(0.2, 3)
        elif self.mode == 1:
            v = r.choice((-1, 1)) * 10 ** r.uniform(-3, 3)
        else:
            v = r.choice((0.0, r.uniform(-3, 3), r.uniform(-3, 3)))
        if i.get("kind") == "len" or i.get("nonneg"):
            v = abs(v) or 1.0
        return v

    # ------------------------------------------------------------ evaluation
    def poly(self, p, env=()):
        """(value, error bound, size of the largest term)"""
        s = e = mag = 0.0
        for m, c in p.t.items():
            t = float(c)
            rel = EPS
            exact = t == int(t) if abs(t) < 1e15 else False
            for a, k in m:
                v, ve = self.atom(a, env)
                if v == 0:
                    if k < 0:
                        raise NoPoint()
                    if ve:
                        raise NoPoint()
                    t = 0.0
                    break
                try:
                    t *= v ** k
                except OverflowError:
                    raise NoPoint()
                rel += abs(k) * (ve / abs(v) + EPS)
                exact = exact and not ve and k > 0 and abs(v) < 1e6 and v == int(v)
            if t != t or abs(t) > 1e200:
                raise NoPoint()
            s += t
            if not exact or abs(t) > 1e15:
                e += abs(t) * rel
            mag = max(mag, abs(t))
        return s, e, mag

    def atom(self, a, env):
        at = V.T.atoms[a]
        rows = at.rows if at.rows else ()
        key = (a,) + tuple(x for x in env if x[0] in rows)
        r = self.memo.get(key)
        if r is None:
            try:
                r = self._atom(at, env, key)
            except (ValueError, OverflowError, ZeroDivisionError):
                r = False
            except NoPoint:
                r = False
            self.memo[key] = r
        if r is False:
            raise NoPoint()
        return r

    def arg(self, x, env):
        v, e, _ = self.poly(x, env)
        return v, e

    def _atom(self, at, env, key):
        k = at.kind
        if k == "in":
            if len(key) - 1 != len(at.rows or ()):
                raise NoPoint()
            if self.same and len(key) == 2 and key[1][0] == "N":
                i = key[1][1]
                while i in self.same:
                    i = self.same[i]
                key = (key[0], ("N", i))
            if key not in self.val:
                self.val[key] = self.draw(at)
            return self.val[key], 0.0
        if k == "poly":
            return self.arg(at.args[0], env)
        if k == "sqrt":
            v, e = self.arg(at.args[0], env)
            if v < 0:
                raise NoPoint()
            if v <= e:
                return (0.0, math.sqrt(e)) if e else (0.0, 0.0)
            r = math.sqrt(v)
            return r, e / r + EPS * r
        if k == "abs":
            v, e = self.arg(at.args[0], env)
            return abs(v), e
        if k == "sign":
            v, e = self.arg(at.args[0], env)
            if abs(v) <= e and e:
                raise NoPoint()
            return (v > 0) - (v < 0) + 0.0, 0.0
        if k in ("max", "min", "clip"):
            xs = [self.arg(x, env) for x in at.args]
            if k == "clip":
                lo = max(xs[0], xs[1])
                return min(lo, xs[2])
            return max(xs) if k == "max" else min(xs)
        if k in ("sin", "cos", "acos", "asin", "atan", "atan2", "log", "tan", "exp"):
            xs = [self.arg(x, env) for x in at.args]
            f = getattr(math, k)
            v = f(*[x[0] for x in xs])
            e = 0.0
            for j, (x, xe) in enumerate(xs):
                if xe:
                    ys = [y[0] for y in xs]
                    h = xe * 2 + 1e-13 * abs(x)
                    d = 0.0
                    for sgn in (-1, 1):
                        ys[j] = x + sgn * h
                        try:
                            d = max(d, abs(f(*ys) - v))
                        except ValueError:
                            d = max(d, 1e-6)
                    e += 2 * d
            return v, e + 4e-16 * abs(v)
        if k == "pow":
            (b, be), (x, xe) = (self.arg(y, env) for y in at.args[:2])
            if b <= 0 or len(at.args) != 2:
                raise NoPoint()
            v = b ** x
            return v, abs(v) * (abs(x) * be / b + abs(math.log(b)) * xe + 1e-15)
        if k == "round":
            c, n = self.arg(at.args[0], env), self.arg(at.args[1], env)
            s = 10.0 ** n[0]
            y = c[0] * s
            f = y - math.floor(y)
            if abs(f - 0.5) <= 1e-9 + c[1] * s:
                raise NoPoint()
            return round(y) / s, EPS * abs(c[0])
        if k in ("floor", "ceil", "trunc"):
            v, e = self.arg(at.args[0], env)
            if abs(v - round(v)) <= 1e-9 + e:
                raise NoPoint()
            return float(getattr(math, k)(v)), 0.0
        if k in ("floordiv", "mod") and len(at.args) == 2:
            (a, ae), (b, be) = (self.arg(x, env) for x in at.args)
            q = a / b
            if abs(q - round(q)) <= 1e-9 + (ae + abs(q) * be) / abs(b):
                raise NoPoint()
            f = float(math.floor(q))
            return (f, 0.0) if k == "floordiv" else (a - f * b, ae + abs(f) * be + EPS * abs(a))
        if k == "pi":
            return math.pi, 0.0
        if k == "N":
            return float(self.size(at.args[0])), 0.0
        if k == "ren":
            return self.renamed(at, env)
        if k == "nargm":
            return float(self.order(at.args[0], at.args[1], env)[0]), 0.0
        if k == "argsort":
            return float(self.order(at.args[0], at.args[1], env)[dict(env)[at.args[1]]]), 0.0
        if k == "uniq":
            return self.distinct(at.info["axis"])[dict(env)[at.info["axis"]]][at.info["j"]], 1e-15
        if k == "counts of unique":
            return float(len(self.distinct(at.args[0], True)[dict(env)[at.args[0]]])), 0.0
        if k == "index of unique":
            return float(min(self.distinct(at.args[0], True)[dict(env)[at.args[0]]])), 0.0
        if k == "iota":
            return float(dict(env)[at.args[0]]), 0.0
        if k in ("nsum", "nmax", "nmin"):
            p, ax = at.args[:2]
            if not isinstance(ax, str):
                raise NoPoint()
            xs = [self.arg(p, tuple(sorted([x for x in env if x[0] != ax] + [(ax, i)]))) for i in range(self.size(ax))]
            if k == "nsum":
                return sum(x[0] for x in xs), sum(x[1] for x in xs) + EPS * sum(abs(x[0]) for x in xs)
            return max(xs) if k == "nmax" else min(xs)
        if k in ("svdS", "svdV"):
            sh, cells, i, j = at.info["src"]
            w, vecs = self.spectrum(sh, cells, k)
            if k == "svdS":
                return w[i], 1e-9 * w[0]
            if vecs is None:
                raise NoPoint()
            return vecs[i][j], 1e-9
        if k == "lstsq":
            sh, ac, bc, j, q, m = at.info["src"]
            A = self.matrix(sh, ac)
            B = self.matrix((sh[0], m), bc)
            try:
                x = normal(A, [r[q] for r in B])
            except Singular:
                x = least(A, [r[q] for r in B])
                return x[j], 1e-4 * max(abs(y) for y in x)
            return x[j], 1e-11 * max(abs(y) for y in x)
        if k in ("argmin", "minarg"):
            if not self.free:
                raise NoPoint()
            if key not in self.val:
                self.val[key] = self.rnd.uniform(-3, 3)
            return self.val[key], 0.0
        if k == "rank":
            vecs = (at.info or {}).get("vecs")
            if not vecs:
                src = (at.info or {}).get("src")
                if not src:
                    raise NoPoint()
                m = self.matrix(*src[:2])
                if src[2] is None:
                    return float(self.rank([[(x, 0.0) for x in r] for r in m])), 0.0
                w = self.spectrum(src[0], src[1], "svdS")[0]
                t = self.arg(src[2], ())[0]
                if any(abs(x - t) <= 1e-6 * (abs(t) + w[0]) for x in w):
                    raise NoPoint()
                return float(sum(x > t for x in w)), 0.0
            return float(self.rank([[self.arg(x, env) for x in r] for r in vecs])), 0.0
        raise NoPoint()

    def rank(self, m):
        m = [[x for x, _ in r] for r in m]
        top = max((abs(x) for r in m for x in r), default=0)
        n = 0
        cols = len(m[0]) if m else 0
        while m:
            i, j = max(((i, j) for i in range(len(m)) for j in range(cols)), key=lambda q: abs(m[q[0]][q[1]]))
            x = m[i][j]
            if abs(x) <= 1e-14 * top:
                return n
            if abs(x) < 1e-5 * top:
                raise NoPoint()
            n += 1
            r = m.pop(i)
            m = [[y - q[j] / x * z for y, z in zip(q, r)] for q in m]
        return n

    def size(self, ax):
        if ax == "N":
            return self.n
        if ax in V.T.axes:
            return len(self.picked(ax))
        return len(self.distinct(ax))

    def integer(self, x, env=()):
        if x is None or isinstance(x, int):
            return x
        v, e = self.arg(x, env)
        if abs(v - round(v)) > 1e-9 or e > 1e-6:
            raise NoPoint()
        return int(round(v))

    def picked(self, ax):
        """Which rows of its source an axis stands for."""
        key = ("picked", ax)
        if key not in self.memo:
            how, d = V.T.axes[ax][:2]
            n = self.size(d)
            if how == "slice":
                r = list(range(n))[slice(*[self.integer(x) for x in V.T.axes[ax][2:]])]
            else:
                c = V.T.axes[ax][2]
                r = []
                for i in range(n):
                    k = self.cond(c, ((d, i),))
                    if k is None:
                        raise NoPoint()
                    if k:
                        r.append(i)
            if not r:
                raise NoPoint()
            self.memo[key] = r
        return self.memo[key]

    def renamed(self, at, env):
        base, tag = at.info["base"], at.args[1]
        if tag[0] == "ax":
            d = V.T.axes[tag[1]][1]
            i = self.picked(tag[1])[dict(env)[tag[1]]]
        elif tag[0] == "row":
            d, = base.rows - at.rows
            i = self.integer(tag[1], env)
            n = self.size(d)
            if not -n <= i < n:
                raise NoPoint()
            i %= n
        elif tag[0] in ("perm", "sel"):
            d, = base.rows
            n = self.size(d)
            i = n - 1 - dict(env)[d] if tag[1] == "rev" else self.integer(tag[1], env) % n
        else:
            raise NoPoint()
        return self.atom(base.id, tuple(sorted([x for x in env if x[0] != d] + [(d, i)])))

    def order(self, p, ax, env):
        xs = sorted((self.arg(p, tuple(sorted([x for x in env if x[0] != ax] + [(ax, i)]))), i) for i in range(self.size(ax)))
        for ((a, ae), _), ((b, be), _) in zip(xs, xs[1:]):
            if b - a <= 4 * (ae + be) + 1e-9 * abs(a):
                raise NoPoint()
        return [i for _, i in xs]

    def distinct(self, ax, where=False):
        """The distinct rows an axis stands for, or the numbers of the rows equal to each."""
        if ax[0] != "U":
            raise NoPoint()
        key = ("distinct", ax)
        if key not in self.memo:
            src = V.T.atoms[int(ax[1:])].info["src"]
            at = {}
            for i, r in enumerate(self.matrix(*src)):
                at.setdefault(tuple(r), []).append(i)
            self.memo[key] = [list(x) for x in sorted(at)], [at[x] for x in sorted(at)]
        return self.memo[key][where]

    def matrix(self, shape, cells):
        n, d = shape
        if isinstance(n, str):
            if len(cells) != d:
                raise NoPoint()
            return [[self.arg(c, ((n, i),) if c.rows() else ())[0] for c in cells] for i in range(self.size(n))]
        return [[self.arg(c, ())[0] for c in cells[i * d:(i + 1) * d]] for i in range(n)]

    def spectrum(self, shape, cells, kind):
        key = ("spectrum", shape, cells)
        r = self.memo.get(key)
        if r is None:
            A = self.matrix(shape, cells)
            w, vecs = eigen(gram(A))
            r = self.memo[key] = ([math.sqrt(max(x, 0.0)) for x in w], vecs)
        w, vecs = r
        if kind == "svdV" and any(x - y <= 1e-3 * w[0] for x, y in zip(w, w[1:])):
            vecs = None
        return w, vecs

    # ------------------------------------------------------------ conditions
    def cond(self, c, env=()):
        """True / False / None (too close to call)."""
        k = c.kind
        if k == "const":
            return bool(c.args[0])
        if k == "not":
            r = self.cond(c.args[0], env)
            return None if r is None else not r
        if k in ("and", "or"):
            rs = [self.cond(x, env) for x in c.args[0]]
            stop = k == "or"
            if stop in rs:
                return stop
            return None if None in rs else not stop
        if k == "cmp":
            op, p = c.args
            v, e, mag = self.poly(p, env)
            if abs(v) <= e + 1e-12 * mag:
                if e or v:
                    return None
                return op in ("==", "<=", ">=")
            return {"<": v < 0, "<=": v < 0, ">": v > 0, ">=": v > 0, "==": False, "!=": True}[op]
        if k == "isclose":
            (a, ae, _), (b, be, _), (rel, _, _), (ab, _, _) = (self.poly(x, env) for x in c.args)
            lim = max(rel * max(abs(a), abs(b)), ab)
            d = abs(a - b) - lim
            if abs(d) <= 2 * (ae + be) + 1e-6 * lim:
                return None
            return d < 0
        if k == "finite":
            return True
        if k in ("isnan", "isinf"):
            return False
        if k in ("nall", "nany"):
            axes = sorted({r for p in c.polys() for r in p.rows()} - {x[0] for x in env})
            if len(axes) != 1:
                raise NoPoint()
            rs = [self.cond(c.args[0], tuple(sorted(env + ((axes[0], i),)))) for i in range(self.size(axes[0]))]
            stop = k == "nany"
            if stop in rs:
                return stop
            return None if None in rs else not stop
        raise NoPoint()


def gram(A):
    d = len(A[0])
    return [[math.fsum(r[i] * r[j] for r in A) for j in range(d)] for i in range(d)]


def eigen(S):
    """Eigenvalues (descending) and unit eigenvectors of a symmetric matrix (Jacobi)."""
    d = len(S)
    S = [list(r) for r in S]
    U = [[float(i == j) for j in range(d)] for i in range(d)]
    for _ in range(60):
        off = max((abs(S[i][j]) for i in range(d) for j in range(i)), default=0.0)
        if off <= 1e-17 * max(abs(S[i][i]) for i in range(d)):
            break
        for p in range(d):
            for q in range(p + 1, d):
                if S[p][q] == 0:
                    continue
                t = (S[q][q] - S[p][p]) / (2 * S[p][q])
                t = (1 if t >= 0 else -1) / (abs(t) + math.sqrt(t * t + 1))
                c = 1 / math.sqrt(t * t + 1)
                s = t * c
                for k in range(d):
                    S[k][p], S[k][q] = c * S[k][p] - s * S[k][q], s * S[k][p] + c * S[k][q]
                for k in range(d):
                    S[p][k], S[q][k] = c * S[p][k] - s * S[q][k], s * S[p][k] + c * S[q][k]
                for k in range(d):
                    U[k][p], U[k][q] = c * U[k][p] - s * U[k][q], s * U[k][p] + c * U[k][q]
    o = sorted(range(d), key=lambda i: -S[i][i])
    vecs = []
    for i in o:
        v = [U[k][i] for k in range(d)]
        m = max(v, key=abs)
        vecs.append([x if m > 0 else -x for x in v])
    return [S[i][i] for i in o], vecs


def normal(A, b):
    """The least-squares solution (normal equations, with pivoting)."""
    d = len(A[0])
    M = [[math.fsum(r[i] * r[j] for r in A) for j in range(d)] + [math.fsum(r[i] * y for r, y in zip(A, b))] for i in range(d)]
    # equilibrate
    sc = [math.sqrt(M[i][i]) or 1.0 for i in range(d)]
    M = [[M[i][j] / (sc[i] * sc[j]) for j in range(d)] + [M[i][d] / sc[i]] for i in range(d)]
    for i in range(d):
        k = max(range(i, d), key=lambda r: abs(M[r][i]))
        if abs(M[k][i]) < 1e-5:
            if abs(M[k][i]) < 1e-13:
                raise Singular()
            raise NoPoint()
        M[i], M[k] = M[k], M[i]
        for r in range(d):
            if r != i:
                f = M[r][i] / M[i][i]
                M[r] = [x - f * y for x, y in zip(M[r], M[i])]
    return [M[i][d] / M[i][i] / sc[i] for i in range(d)]


def least(A, b):
    """About the shortest of the least-squares solutions when there are many."""
    w = 1e-4 * max(abs(x) for r in A for x in r)
    d = len(A[0])
    return normal(list(A) + [[w if i == j else 0.0 for j in range(d)] for i in range(d)], list(b) + [0.0] * d)


def goals(p):
    """The conditions of the path and the signs it has learned."""
    out = [(e.data["cond"], e.data["val"]) for e in p.events if e.kind == "branch"]
    for q, m in p.facts.sign.items():
        out.append((q, m))
    return out


def holds(pt, g):
    c, v = g
    if isinstance(c, P):
        x, e, mag = pt.poly(c)
        if abs(x) <= e + 1e-12 * mag:
            return None if (e or x) else bool(v & D.ZER)
        return bool(v & (D.POS if x > 0 else D.NEG))
    r = pt.cond(c)
    return None if r is None else r == v


def values_of(c):
    if isinstance(c, P):
        return [c]
    if c.kind == "cmp":
        return [c.args[1]]
    if c.kind == "isclose":
        return [c.args[0] - c.args[1]]
    if c.kind == "not":
        return values_of(c.args[0])
    if c.kind in ("and", "or"):
        return [y for x in c.args[0] for y in values_of(x)]
    return []


def keys_in(pt, p, env=()):
    out = []
    for a in D.atoms_deep(p):
        if a.kind == "in" and not a.rows and (a.id,) in pt.val:
            out.append((a.id,))
    return out


def mend(pt, g):
    """A neighbour of the point at which a violated condition may hold."""
    r = pt.rnd
    vs = values_of(g[0])
    if not vs:
        return None
    y = r.choice(vs)
    ks = keys_in(pt, y)
    if not ks:
        return None
    k = r.choice(ks)
    x = pt.val[k]
    at = V.T.atoms[k[0]]
    how = r.random()
    if how < 0.2:
        return pt.with_(k, x * 10 ** r.choice((-4, -3, -2, -1, 1, 2, 3, 4)))
    if how < 0.3 and (at.info or {}).get("kind") != "len":
        return pt.with_(k, -x)
    # step to the boundary along this input (secant), then a little to either side
    f = lambda z: pt.with_(k, z).poly(y)[0]
    h = (abs(x) or 1.0) * 0.37
    x0, x1 = x, x + h
    try:
        y0, y1 = f(x0), f(x1)
        for _ in range(12):
            if y1 == y0:
                break
            x0, x1, y0 = x1, x1 - y1 * (x1 - x0) / (y1 - y0), y1
            if not abs(x1) < 1e12:
                return None
            y1 = f(x1)
            if abs(x1 - x0) <= 1e-12 * abs(x1):
                break
    except (NoPoint, OverflowError, ZeroDivisionError):
        return None
    z = x1 + r.choice((-1, 1)) * (abs(x1) or abs(x) or 1.0) * 10 ** r.uniform(-8, 0)
    if (at.info or {}).get("kind") == "len" and z <= 0:
        return None
    return pt.with_(k, z)


def count_roots(p):
    """Numbers of points at which a decision of the path changes, or a division or clamp of the number."""
    out = set()

    def root(q):
        ats = [V.T.atoms[i] for i in q.atoms()]
        if len(ats) == 1 and ats[0].kind == "N":
            a, b = q.t.get(((ats[0].id, 1),), 0), q.t.get((), 0)
            if a:
                out.add(int(-b / a))
    for e in p.events:
        if e.kind == "branch":
            for q in e.data["cond"].polys():
                root(q)
    for a in V.T.atoms:
        ks = [x.const() for x in a.args if isinstance(x, V.P)]
        if a.kind in ("floordiv", "mod", "max", "min", "clip") and any(
                y.kind in ("N", "counts of unique") for x in a.args if isinstance(x, V.P) for y in D.atoms_deep(x)):
            for k in ks:
                if k is not None:
                    out.add(int(k))
            if a.kind in ("max", "min") and len(a.args) == 2:
                root(a.args[0] - a.args[1])
    for x in V.T.axes.values():
        if x[0] == "slice":
            out |= {abs(y) for y in x[2:] if isinstance(y, int)}
    return sorted({k for r in out for k in (r - 1, r, r + 1, 2 * r + 1) if 2 <= k <= 2500})


def points(p, secs=3.0, tries=400, steps=40, seed=1, extra=(), free=False):
    """Points of the region of a path."""
    gs = goals(p) + list(extra)
    rnd = random.Random(seed)
    counts = count_roots(p)
    repeats = any(a.kind == "counts of unique" for a in V.T.atoms)
    end = time.process_time() + secs
    for _ in range(tries):
        if time.process_time() > end:
            return
        pt = Point(rnd, n=rnd.choice((3, 4, 5, 7) + tuple(counts)) if counts else None)
        pt.free = free
        if repeats and rnd.random() < 0.5:
            pt.same = {i: rnd.randrange(min(i, 2)) for i in range(1, pt.n)}
        for _ in range(steps):
            bad = None
            n = 0
            try:
                for g in gs:
                    if holds(pt, g) is not True:
                        n += 1
                        if bad is None or rnd.random() * n < 1:
                            bad = g
            except NoPoint:
                break
            if bad is None:
                yield pt
                break
            q = mend(pt, bad)
            if q is not None:
                pt = q
            if time.process_time() > end:
                return


def pieces(xs):
    """The pieces of the piecewise functions in a value: the sign of each argument or difference."""
    out = []
    for x in xs:
        for a in D.atoms_deep(x):
            if a.kind in ("abs", "sign"):
                ys = [a.args[0]]
            elif a.kind in ("max", "min"):
                ys = [a.args[0] - a.args[1]]
            elif a.kind == "clip":
                ys = [a.args[0] - a.args[1], a.args[0] - a.args[2]]
            else:
                continue
            for y in ys:
                for m in (D.POS, D.NEG):
                    if y.t and not y.rows() and (y, m) not in out:
                        out.append((y, m))
    return out


def differs(p, alternatives, need=2, secs=3.0, tol=1e-6):
    """Is every alternative (a list of value numbers that should vanish) clearly violated at `need` points of the path?
    Returns a description of a point, or None."""
    if narrow(p):
        return None
    ps = pieces([y for a in alternatives for x in a for y in ([x] if isinstance(x, P) else x[0].polys() + x[1].polys())])[:24]
    for extra in [()] + [(g,) for g in ps]:
        hit = seen = 0
        for pt in points(p, secs if not extra else secs / 4, 400 if not extra else 40, extra=extra):
            try:
                bad = all(any(off(pt, x, tol) for x in a) for a in alternatives)
            except NoPoint:
                continue
            seen += 1
            if bad:
                hit += 1
                if hit >= need:
                    return show(pt)
            if seen >= (40 if not extra else 8):
                break
    return None


def wrong(p, f, need=2, secs=2.0, tries=60):
    """Where the value is clearly not what f says it is; f gives (is, should be) signs at a point or None."""
    hit = seen = 0
    for pt in points(p, secs):
        try:
            bad = f(pt)
        except NoPoint:
            continue
        seen += 1
        if bad:
            hit += 1
            if hit >= need:
                return show(pt)
        if seen >= tries:
            break
    return None


def clear_sign(pt, x):
    """The sign of a value number at a point, None when it is too close to tell."""
    v, e, mag = pt.poly(x)
    if abs(v) <= 1e-6 * mag + 100 * e:
        return None
    return 1 if v > 0 else -1


def wrong_sign(p, x, e):
    """Where x (-1, 0 or 1) is not the sign of e."""
    def f(pt):
        want = clear_sign(pt, e)
        return want is not None and abs(pt.poly(x)[0] - want) > 0.5
    return wrong(p, f)


def same_point(p, xs, guards):
    """Where all xs vanish although every guard is clearly positive."""
    def f(pt):
        return all(clear_sign(pt, g) == 1 for g in guards) and all(
            abs(v) <= 1e-9 * mag + e for v, e, mag in map(pt.poly, xs))
    return wrong(p, f)


def narrow(p):
    """The path passed a tolerance test that stands for equality."""
    from checks import leaves, loose
    return any(e.kind == "branch" and any(x.kind == "isclose" and not loose(x) for x in leaves(e.data["cond"])) and within(e)
               for e in p.events)


def reachable(p, need=2, secs=2.0):
    """A description of a point if the path is taken on an open region of inputs, else None."""
    if narrow(p):
        return None
    n = 0
    for pt in points(p, secs):
        n += 1
        if n >= need:
            return show(pt)
    return None


def within(e):
    """A tolerance test was passed."""
    def f(c, v):
        if c.kind == "not":
            return f(c.args[0], not v)
        if c.kind == "isclose":
            return v
        if c.kind in ("and", "or"):
            return any(f(x, v) for x in c.args[0])
        return c.kind in ("nall", "nany") and f(c.args[0], v)
    return f(e.data["cond"], e.data["val"])


def off(pt, x, tol):
    if isinstance(x, tuple):
        a, b = pt.cond(x[0]), pt.cond(x[1])
        return a is not None and b is not None and a != b
    x = V.unwrap1(x) if x.t else x
    rows = sorted(x.rows())
    if rows and rows != ["N"]:
        raise NoPoint()
    for i in range(pt.n if rows else 1):
        v, e, mag = pt.poly(x, (("N", i),) if rows else ())
        if abs(v) > tol * mag + 100 * e:
            return True
    return False


def show(pt):
    out = []
    for k, v in sorted(pt.val.items()):
        n = (V.T.atoms[k[0]].info or {}).get("name", "?")
        out.append("%s%s = %.6g" % (n, "".join("[%s]" % (x[1],) for x in k[1:]), v))
    return ", ".join(out[:14])


# ---------------------------------------------------------------------- motions
AMOUNT = {"scale": (7.3, 0.11, 900.0), "translate": (2.3, -41.0, 0.4), "rotate": (0.7, 2.9, -1.9), "length": (5.1, 0.03, 60.0)}


def siblings(pt):
    """Draw every coordinate of the points and vectors that occur."""
    for key in list(pt.val):
        at = V.T.atoms[key[0]]
        i = at.info or {}
        if i.get("kind") not in ("pt", "vec", "dir"):
            continue
        base = at.args[0].rsplit(".", 1)[0]
        for b in list(V.T.atoms):
            if b is not None and b.kind == "in" and b.args and str(b.args[0]).rsplit(".", 1)[0] == base and (
                    b.info or {}).get("kind") in ("pt", "vec", "dir"):
                pt.atom(b.id, key[1:])


def moved(pt, mo, x):
    q = Point(pt.rnd, n=pt.n)
    q.mode, q.same = pt.mode, pt.same
    for key, v in pt.val.items():
        at = V.T.atoms[key[0]]
        i = at.info or {}
        k = i.get("kind")
        w = v
        if mo.kind == "scale":
            if k in ("pt", "vec", "len"):
                w = v * x
        elif mo.kind == "translate":
            if k == "pt" and i.get("idx") == mo.j:
                w = v + x
        elif mo.kind == "rotate":
            if k in ("pt", "vec", "dir") and i.get("idx") in (mo.j, mo.k):
                o = V.T.get("in", (at.args[0].rsplit(".", 1)[0] + ".%d" % (mo.k if i["idx"] == mo.j else mo.j),))
                u = pt.atom(o.id, key[1:])[0]
                w = v * math.cos(x) + u * math.sin(x) * (-1 if i["idx"] == mo.j else 1)
        elif mo.kind == "length":
            if i.get("of") == mo.of:
                w = v * x
        q.val[key] = w
    return q


def carry(xs, mo, x, role, weight):
    """Where the motion takes a result."""
    xs = list(xs)
    if mo.kind == "scale":
        k = x ** (1 if role == "P" else weight)
        return [v * k for v in xs]
    if mo.kind == "translate" and role == "P":
        return [v + (x if i == mo.j else 0) for i, v in enumerate(xs)]
    if mo.kind == "rotate" and role in "PV":
        a, b = xs[mo.j], xs[mo.k]
        xs[mo.j], xs[mo.k] = a * math.cos(x) - b * math.sin(x), a * math.sin(x) + b * math.cos(x)
    return xs


def measure(pt, data, env):
    out = [pt.poly(c, env) for c in data]
    return [v for v, _, _ in out], max([m for _, _, m in out] or [0]), max([e for _, e, _ in out] or [0])


def apart(xs, ys, size, err):
    return any(abs(a - b) > 1e-6 * size + 100 * err for a, b in zip(xs, ys))


def slot_moves(pt, qt, s, t, mo, x):
    """Slot t at the moved point is not where the motion takes slot s."""
    role, weight = s[1], s[2]
    pair = isinstance(s[3], tuple)
    rows = set()
    for c in (s[3][0] + s[3][1] if pair else s[3]):
        rows |= set(c.rows())
    if rows - {"N"}:
        raise NoPoint()
    for i in range(pt.n if rows else 1):
        env = (("N", i),) if rows else ()
        if not pair:
            a, m1, e1 = measure(pt, s[3], env)
            b, m2, e2 = measure(qt, t[3], env)
            a2 = carry(a, mo, x, role, weight)
            grow = max([abs(v) for v in a2] + [0]) / (max([abs(v) for v in a] + [0]) or 1)
            if apart(a2, b, m1 * max(grow, 1) + m2 + abs(x) * (mo.kind == "translate"), e1 * max(grow, 1) + e2):
                return True
            continue
        (p, m1, e1), (n, _, ne1) = (measure(pt, c, env) for c in s[3])
        (q, m2, e2), (u, _, ne2) = (measure(qt, c, env) for c in t[3])
        p2 = carry(p, mo, x, "P", 1)
        n2 = carry(n, mo, x, "V", 0)
        ln, lu = math.sqrt(sum(v * v for v in n2)), math.sqrt(sum(v * v for v in u))
        if not ln or not lu or 1e6 * ne1 > ln or 1e6 * ne2 > lu:
            raise NoPoint()
        n2, u = [v / ln for v in n2], [v / lu for v in u]
        size = max(m1, m2, max(abs(v) for v in p2), max(abs(v) for v in q))
        c = sum(a * b for a, b in zip(n2, u))
        if 1 - abs(c) > 1e-9:
            return True
        w = [a - b for a, b in zip(p2, q)]
        h = sum(a * b for a, b in zip(w, u))
        offs = [h] if role == "H" else [a - h * b for a, b in zip(w, u)]
        if any(abs(v) > 1e-5 * size + 1e3 * (e1 + e2) for v in offs):
            return True
    return False


def all_hold(pt, gs):
    return all(holds(pt, g) is True for g in gs)


def changes_answer(p, c, mo, need=2, secs=2.0):
    """Points of the path at which the motion changes the truth of c; a description, or None."""
    if narrow(p):
        return None
    gs, hit, seen = goals(p), 0, 0
    for pt in points(p, secs):
        try:
            a = pt.cond(c)
            qt = moved(pt, mo, pt.rnd.choice(AMOUNT[mo.kind]))
            b = qt.cond(c) if all_hold(qt, gs) else None
        except (NoPoint, OverflowError, ZeroDivisionError):
            continue
        if a is None or b is None:
            continue
        seen += 1
        if bool(a) != bool(b):
            hit += 1
            if hit >= need:
                return show(pt)
        if seen >= 30:
            return None
    return None


def breaks_motion(ps, p, mo, slots_of, setlike=False, need=2, secs=3.0):
    """Points of the path whose result, or whose acceptance, does not follow the motion; a description, or None."""
    if narrow(p):
        return None
    gs = {id(q): goals(q) for q in ps}
    hit = seen = 0
    for pt in points(p, secs):
        x = pt.rnd.choice(AMOUNT[mo.kind])
        try:
            if p.kind == "return":
                ss = slots_of(p)
                if ss is None:
                    return None
                for s in ss if isinstance(ss, list) else ():
                    for c in (s[3][0] + s[3][1] if isinstance(s[3], tuple) else s[3]):
                        rs = set(c.rows())
                        if rs - {"N"}:
                            raise NoPoint()
                        for i in range(pt.n if rs else 1):
                            pt.poly(c, (("N", i),) if rs else ())
            siblings(pt)
            qt = moved(pt, mo, x)
            q = None
            for r in [p] + [r for r in ps if r is not p]:
                try:
                    if all_hold(qt, gs[id(r)]):
                        q = r
                        break
                except NoPoint:
                    continue
            if q is None or q.kind not in ("return", "raise") or narrow(q):
                continue
            if p.kind != q.kind:
                bad = True
            elif p.kind == "raise":
                bad = p.exc.name != q.exc.name
            else:
                st = slots_of(q)
                if st is None or type(st) is not type(ss):
                    bad = st is not None
                elif not isinstance(ss, list):
                    bad = ss != st
                elif len(ss) != len(st):
                    bad = True
                else:
                    orders = [range(len(st))]
                    if setlike and q is not p and len(st) == 2:
                        orders.append((1, 0))
                    bad = all(any(slot_moves(pt, qt, s, st[j], mo, x) for s, j in zip(ss, o)) for o in orders)
        except (NoPoint, OverflowError, ZeroDivisionError):
            continue
        seen += 1
        if bad:
            hit += 1
            if hit >= need:
                return show(pt)
        if seen >= 30:
            return None
    return None
