"""Value numbers modulo commutative-ring laws.

Every scalar the analysed program computes is represented by a value number: a
polynomial (integer exponents, negative allowed) over *atoms*.  An atom is an
input quantity of the analysed call or the result of a non-polynomial operation
(square root, absolute value, rank of a matrix, ...).  Two expressions with the
same value number compute the same quantity in exact arithmetic, however they
are written; the abstract domains (sign, bounds, invariance under a group of
transformations, dependence, ...) are functions of the value number.
"""
from fractions import Fraction
import decimal
import math

TERM_CAP = 220        # products with more terms than this are not expanded
ZERO_CAP = 6000       # cap used when a difference is tested for zero


class Blowup(Exception):
    pass


class Atom:
    __slots__ = ("id", "kind", "args", "info", "Dc", "rows")

    def __init__(self, id, kind, args, info):
        self.id = id
        self.kind = kind
        self.args = args
        self.info = info
        self.Dc = {}
        self.rows = frozenset()   # symbolic axes the value varies along

    def __repr__(self):
        return show_atom(self)


class Table:
    """Hash-consing table for atoms (one per analysis scenario)."""

    def __init__(self):
        self.atoms = []
        self.index = {}
        self.axes = {}    # symbolic axes that select rows of another one

    def get(self, kind, args=(), info=None, key=None):
        k = (kind, args if key is None else key)
        a = self.index.get(k)
        if a is None:
            a = Atom(len(self.atoms), kind, args, info)
            self.atoms.append(a)
            self.index[k] = a
            rows = set()
            for x in args:
                if isinstance(x, P):
                    rows |= x.rows()
            a.rows = frozenset(rows)
        return a


T = Table()


def reset():
    global T
    T.atoms.clear()
    T.index.clear()
    _EXPAND.clear()
    _DIVCACHE.clear()
    for c in (_PTS, _FP, _CHI, _AMB, _RPTS):
        c.clear()


def qn(f):
    """An integral Fraction as an int (cheaper arithmetic)."""
    if type(f) is Fraction and f.denominator == 1:
        return f.numerator
    return f


def qdiv(a, b):
    """Exact quotient of two coefficients."""
    if type(a) is int and type(b) is int:
        if a % b == 0:
            return a // b
        return Fraction(a, b)
    return qn(Fraction(a) / b)


def frac(v):
    if isinstance(v, Fraction):
        return qn(v)
    if isinstance(v, int):
        return int(v)
    f = Fraction(v)
    if f.denominator == 1:
        return f.numerator
    if f.denominator > 64:
        g = f.limit_denominator(1000)
        if g != 0 and abs(float(g) - v) <= 4e-16 * abs(v):
            return g
    return f


class P:
    __slots__ = ("t", "_h", "_rows")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._rows = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, P) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    # -- queries
    def const(self):
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def single(self):
        """The atom if this is exactly one atom with coefficient 1."""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return T.atoms[m[0][0]]
        return None

    def rows(self):
        if self._rows is None:
            r = frozenset()
            for a in self.atoms():
                r |= T.atoms[a].rows
            self._rows = r
        return self._rows

    # -- arithmetic
    def __add__(self, o):
        if not self.t:
            return o
        if not o.t:
            return self
        d = dict(self.t)
        for m, c in o.t.items():
            v = d.get(m)
            if v is None:
                d[m] = c
            else:
                v += c
                if v:
                    d[m] = v
                else:
                    del d[m]
        return P(d)

    def __neg__(self):
        return P({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        if not k:
            return ZERO
        return P({m: c * k for m, c in self.t.items()})

    def __mul__(self, o):
        return mul(self, o, TERM_CAP)

    def __repr__(self):
        return show(self)


ZERO = P({})


def const(v):
    f = frac(v)
    return P({(): f}) if f else ZERO


ONE = const(1)


def of_atom(a):
    return P({((a.id, 1),): 1})


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


def _needs_reduce(m):
    for a, e in m:
        at = T.atoms[a]
        k = at.kind
        if k == "sqrt" and (e >= 2 or e <= -2):
            return a, e
        if k == "abs" and (e >= 2 or e <= -2):
            return a, e
        if k == "sign" and (e >= 2 or e <= -1):
            return a, e
    return None


def _reduce_terms(d, cap):
    """Rewrite sqrt(A)**2 -> A, |A|**2 -> A**2 (and their inverses)."""
    again = True
    while again:
        again = False
        for m in list(d):
            r = _needs_reduce(m)
            if r is None:
                continue
            again = True
            c = d.pop(m)
            a, e = r
            at = T.atoms[a]
            rest = tuple(x for x in m if x[0] != a)
            if at.kind == "sqrt":
                k = int(e / 2)          # truncation toward zero
                rem = e - 2 * k
                f = ipow(at.args[0], k, cap)
            elif at.kind == "abs":
                k = int(e / 2)
                rem = e - 2 * k
                f = ipow(at.args[0], 2 * k, cap)
            else:                        # sign
                rem = e % 2
                f = ONE
            if rem:
                rest = mono_mul(rest, ((a, rem),))
            for m2, c2 in f.t.items():
                mm = mono_mul(rest, m2)
                v = d.get(mm, 0) + c * c2
                if v:
                    d[mm] = v
                else:
                    d.pop(mm, None)
            if len(d) > 4 * cap:
                raise Blowup()
            break
    return d


def mul(x, y, cap, strict=False):
    if not x.t or not y.t:
        return ZERO
    nx, ny = len(x.t), len(y.t)
    if nx * ny > cap:
        if strict or cap >= ZERO_CAP:
            raise Blowup()
        # keep the larger factors as atoms instead of expanding
        if nx > 1 and (nx >= ny or nx * ny > cap):
            x = wrap(x)
        if len(x.t) * ny > cap:
            y = wrap(y)
        return mul(x, y, cap * 4)
    d = {}
    red = False
    for m1, c1 in x.t.items():
        for m2, c2 in y.t.items():
            m = mono_mul(m1, m2)
            v = d.get(m, 0) + c1 * c2
            if v:
                d[m] = v
            else:
                d.pop(m, None)
    for m in d:
        if _needs_reduce(m) is not None:
            red = True
            break
    if red:
        try:
            d = _reduce_terms(d, cap)
        except Blowup:
            if strict or cap >= ZERO_CAP:
                raise
            return mul(wrap(x), wrap(y), cap)
    return simp(P(d))


def content(p):
    """p = c * m * q : returns (c, m, q) with q primitive (lead coefficient 1)."""
    it = iter(p.t)
    first = dict(next(it))
    for m in it:
        dm = dict(m)
        for a in list(first):
            e = dm.get(a, 0)
            if (first[a] > 0 and e > 0):
                first[a] = min(first[a], e)
            elif (first[a] < 0 and e < 0):
                first[a] = max(first[a], e)
            elif first[a] < 0 or e < 0:
                first[a] = 0
            else:
                first[a] = 0
            if not first[a]:
                del first[a]
        if not first:
            break
    # negative exponents anywhere must be cleared
    neg = {}
    for m in p.t:
        for a, e in m:
            if e < 0 and e < neg.get(a, 0):
                neg[a] = e
    for a, e in neg.items():
        first[a] = e
    m0 = tuple(sorted(first.items()))
    inv = tuple((a, -e) for a, e in m0)
    lead = max(p.t)
    c = p.t[lead]
    if len(p.t) == 1:
        return p.t[lead], lead, ONE
    q = P({mono_mul(m, inv): qdiv(v, c) for m, v in p.t.items()})
    return c, m0, q


def wrap(p):
    """A sum kept as a single factor."""
    if len(p.t) <= 1:
        return p
    c, m, q = content(p)
    if len(q.t) == 1:
        return p
    at = T.get("poly", (q,))
    return P({mono_mul(m, ((at.id, 1),)): c})


def inv(p, cap=TERM_CAP):
    """1 / p as a value number."""
    if not p.t:
        raise ZeroDivisionError
    c, m, q = content(p)
    im = tuple((a, -e) for a, e in m)
    if len(q.t) > 1:
        im = mono_mul(im, ((T.get("poly", (q,)).id, -1),))
    r = {im: qdiv(1, c)}
    if _needs_reduce(im):
        r = _reduce_terms(r, cap)
    return P(r)


def ipow(p, k, cap=TERM_CAP, strict=False):
    if k == 0:
        return ONE
    if k < 0:
        return ipow(inv(p, cap), -k, cap, strict)
    r = p
    for _ in range(k - 1):
        r = mul(r, p, cap, strict)
    return r


def div(x, y):
    return mul(x, inv(y), TERM_CAP)


_DIVCACHE = {}


def exact_div(num, q):
    """num / q as a polynomial if it divides exactly, else None.
    num has no negative exponents in q's atoms."""
    key = (num, q)
    if key in _DIVCACHE:
        return _DIVCACHE[key]
    _DIVCACHE[key] = None
    if len(num.t) > 3000 or not num.t:
        return None
    qa = q.atoms()
    if not qa <= num.atoms():
        return None
    order = sorted(num.atoms() | qa)
    pos = {a: i for i, a in enumerate(order)}

    def vec(m):
        v = [0] * len(order)
        for a, e in m:
            v[pos[a]] = e
        return tuple(v)
    # shift negative exponents away
    rem = {vec(m): c for m, c in num.t.items()}
    mins = [min(v[i] for v in rem) for i in range(len(order))]
    sh = [min(0, x) for x in mins]
    rem = {tuple(a - b for a, b in zip(v, sh)): c for v, c in rem.items()}
    dv = {vec(m): c for m, c in q.t.items()}
    lead = max(dv)
    lc = dv[lead]
    quo = {}
    steps = 0
    while rem:
        m = max(rem)
        k = tuple(a - b for a, b in zip(m, lead))
        if min(k) < 0:
            return None
        c = qdiv(rem[m], lc)
        quo[k] = c
        for dm, dc in dv.items():
            mm = tuple(a + b for a, b in zip(dm, k))
            v = rem.get(mm, 0) - c * dc
            if v:
                rem[mm] = v
            else:
                rem.pop(mm, None)
        steps += 1
        if steps > 2000:
            return None
    out = {}
    for k, c in quo.items():
        m = tuple((order[i], k[i] + sh[i]) for i in range(len(order)) if k[i] + sh[i])
        out[tuple(sorted(m))] = c
    r = P(out)
    _DIVCACHE[key] = r
    return r


def simp(p):
    """Cancel q**-k against numerators divisible by q."""
    if len(p.t) < 2:
        return p
    ids = set()
    for m in p.t:
        for a, e in m:
            if e < 0 and T.atoms[a].kind == "poly":
                ids.add(a)
    for a in ids:
        q = T.atoms[a].args[0]
        for _ in range(4):
            groups = {}
            for m, c in p.t.items():
                e = dict(m).get(a, 0)
                if e < 0:
                    groups.setdefault(e, {})[m] = c
            changed = False
            for e, g in groups.items():
                if len(g) < len(q.t):
                    continue
                up = P({mono_mul(m, ((a, -e),)): c for m, c in g.items()})
                r = exact_div(up, q)
                if r is None:
                    continue
                rest = P({m: c for m, c in p.t.items() if m not in g})
                mm = ((a, e + 1),) if e + 1 else ()
                r = P({mono_mul(m, mm): c for m, c in r.t.items()})
                p = rest + r
                changed = True
                break
            if not changed:
                break
    return p


_EXPAND = {}


def expand(p, cap=ZERO_CAP):
    """Expand positive powers of kept sums (Blowup beyond cap terms)."""
    k = (p, cap)
    if k in _EXPAND:
        r = _EXPAND[k]
        if r is None:
            raise Blowup()
        return r
    _EXPAND[k] = None
    if len(p.t) > cap:
        raise Blowup()
    out = ZERO
    plain = {}
    for m, c in p.t.items():
        if not any(e > 0 and T.atoms[a].kind == "poly" for a, e in m):
            plain[m] = c
            continue
        f = P({(): c})
        rest = []
        for a, e in m:
            at = T.atoms[a]
            if at.kind == "poly" and e > 0:
                f = mul(f, ipow(expand(at.args[0], cap), e, cap, True), cap, True)
            else:
                rest.append((a, e))
        out = out + mul(f, P({tuple(rest): 1}), cap, True)
        if len(out.t) > cap:
            raise Blowup()
    out = out + P(plain)
    _EXPAND[k] = out
    return out


# Identity test by fingerprints: a value number is evaluated at points of a
# large prime field that satisfy the defining equations of the algebraic atoms
# (sqrt(A)**2 = A, |A| = A on the sheet where A is positive).  A non-zero
# fingerprint refutes the identity; agreement on several points establishes it
# (error below 1e-17 per query).
MOD = (1 << 61) - 1
_PTS = {}          # point -> {atom id: value or None}
_FP = {}


class _NoPoint(Exception):
    pass


def _mix(i, pt):
    h = (i * 0x9E3779B97F4A7C15 + pt * 0xC2B2AE3D27D4EB4F + 0x165667B19E3779F9) & ((1 << 64) - 1)
    for _ in range(3):
        h ^= h >> 29
        h = h * 0xBF58476D1CE4E5B9 & ((1 << 64) - 1)
        h ^= h >> 32
    return h


def _signed(p, seen=None):
    """Does the value number involve |x| or sign(x)?"""
    for a in p.atoms():
        at = T.atoms[a]
        if at.kind in ("abs", "sign"):
            return True
        if at.kind in ("poly", "sqrt") and _signed(at.args[0]):
            return True
    return False


def _atom_at(i, pt):
    vals = _PTS.setdefault(pt, {})
    if i in vals:
        v = vals[i]
        if v is None:
            raise _NoPoint()
        return v
    vals[i] = None
    at = T.atoms[i]
    k = at.kind
    if k == "poly":
        v = fingerprint(at.args[0], pt)
    elif k == "abs" or k == "sign":
        v = 1 if _mix(T.get("sign", at.args).id, pt) & 4 else MOD - 1
        if k == "abs":
            v = v * fingerprint(at.args[0], pt) % MOD
    elif k == "cos":
        a = _atom_at(T.get("sin", at.args).id, pt)
        a = (1 - a * a) % MOD
        v = pow(a, (MOD + 1) // 4, MOD)
        if v * v % MOD != a:
            raise _NoPoint()
    elif k == "sqrt":
        a = fingerprint(at.args[0], pt)
        v = pow(a, (MOD + 1) // 4, MOD)
        if v * v % MOD != a:
            raise _NoPoint()
    else:
        rel = at.info.get("sq") if at.info else None
        if rel is not None:
            a = fingerprint(rel, pt)
            v = pow(a, (MOD + 1) // 4, MOD)
            if v * v % MOD != a:
                raise _NoPoint()
        else:
            v = _mix(i, pt) % (MOD - 2) + 2
    vals[i] = v
    return v


def fingerprint(p, pt):
    k = (p, pt)
    r = _FP.get(k)
    if r is not None:
        return r
    r = 0
    for m, c in p.t.items():
        t = c % MOD if type(c) is int else c.numerator * pow(c.denominator, -1, MOD) % MOD
        for a, e in m:
            v = _atom_at(a, pt)
            if e == 1:
                t = t * v % MOD
            else:
                if v == 0 and e < 0:
                    raise _NoPoint()
                t = t * pow(v, e, MOD) % MOD
        r += t
    r %= MOD
    _FP[k] = r
    return r


def fingerprints(p, need=2, tries=80):
    """[(point, value)] for the first usable points (may be short)."""
    out = []
    for pt in range(tries):
        try:
            out.append((pt, fingerprint(p, pt)))
        except _NoPoint:
            continue
        if len(out) >= need:
            break
    return out


_CHI = {}
_AMB = {}
_ROOTS = {}


def roots_of(p, out=None, seen=None):
    """Ids of the square roots p is built from."""
    if out is None:
        out, seen = set(), set()
    for a in p.atoms():
        if a in seen:
            continue
        seen.add(a)
        at = T.atoms[a]
        if at.kind == "sqrt":
            out.add(a)
        if at.kind in ("poly", "sqrt", "abs", "sign"):
            roots_of(at.args[0], out, seen)
    return out


CHI_POINTS = range(1000, 1030)


def _chi(a):
    """(mask of usable points, quadratic character of the radicand there)."""
    r = _CHI.get(a)
    if r is None:
        use = bits = 0
        p = T.atoms[a].args[0]
        for i, pt in enumerate(CHI_POINTS):
            try:
                v = fingerprint(p, pt)
            except _NoPoint:
                continue
            if v:
                use |= 1 << i
                if pow(v, (MOD - 1) // 2, MOD) != 1:
                    bits |= 1 << i
        r = _CHI[a] = (use, bits)
    return r


def ambiguous(p):
    """Do radicands of p multiply to a square?  Then the signs of the roots are related."""
    ids = tuple(sorted(roots_of(p)))
    if not ids:
        return False
    if ids in _AMB:
        return _AMB[ids]
    common = (1 << len(CHI_POINTS)) - 1
    rows = []
    ok = True
    for a in ids:
        u, b = _chi(a)
        common &= u
        rows.append(b)
    if bin(common).count("1") < len(ids) + 6:
        ok = len(ids) < 2
        _AMB[ids] = not ok
        return not ok
    basis = []
    r = False
    for b in rows:
        b &= common
        for x in basis:
            b = min(b, b ^ x)
        if not b:
            r = True
            break
        basis.append(b)
    _AMB[ids] = r
    return r


# Evaluation in the reals (60 digits), where the signs of roots are what they are.
_RPTS = {}
_CTX = decimal.Context(prec=60)
D0 = decimal.Decimal(0)


def _ratom(i, pt):
    vals = _RPTS.setdefault(pt, {})
    if i in vals:
        v = vals[i]
        if v is None:
            raise _NoPoint()
        return v
    vals[i] = None
    at = T.atoms[i]
    k = at.kind
    C = _CTX
    if k == "poly":
        v = real_at(at.args[0], pt)[0]
    elif k == "abs":
        v = abs(real_at(at.args[0], pt)[0])
    elif k == "sign":
        x, t = real_at(at.args[0], pt)
        v = decimal.Decimal(0 if abs(x) <= t else 1 if x > 0 else -1)
    elif k == "sqrt":
        x, t = real_at(at.args[0], pt)
        if x < -t:
            raise _NoPoint()
        v = C.sqrt(max(x, D0))
    elif k in ("max", "min", "clip") and all(isinstance(x, P) for x in at.args):
        xs = [real_at(x, pt)[0] for x in at.args]
        v = max(xs) if k == "max" else min(xs) if k == "min" else min(max(xs[0], xs[1]), xs[2])
    elif k == "cos":
        s = _ratom(T.get("sin", at.args).id, pt)
        v = C.sqrt(1 - C.multiply(s, s))
        if _mix(i, pt) & 8:
            v = -v
    else:
        u = decimal.Decimal(_mix(i, pt + 5000) % 10 ** 12 + 10 ** 10) / 10 ** 12      # (0.01, 1.01)
        info = at.info or {}
        if k == "sin":
            v = u - decimal.Decimal("0.5")
        elif info.get("sq") is not None:
            x, t = real_at(info["sq"], pt)
            if x < -t:
                raise _NoPoint()
            v = C.sqrt(max(x, D0))
            if _mix(i, pt) & 8:
                v = -v
        else:
            v = u * 3
            if not (info.get("kind") == "len" or info.get("nonneg") or k in NONNEG or k in POSKIND or k in ("pi", "N", "acos")) \
                    and _mix(i, pt) & 16:
                v = -v
    vals[i] = v
    return v


def real_at(p, pt):
    """(value, error bound) of p at a point of the real domain."""
    s = mag = D0
    C = _CTX
    for m, c in p.t.items():
        t = decimal.Decimal(c) if type(c) is int else C.divide(decimal.Decimal(c.numerator), decimal.Decimal(c.denominator))
        for a, e in m:
            v = _ratom(a, pt)
            if e != 1:
                if not v and e < 0:
                    raise _NoPoint()
                v = C.power(v, int(e))
            t = C.multiply(t, v)
        s = C.add(s, t)
        mag += abs(t)
    return s, mag * decimal.Decimal("1e-25")


def zero_in_reals(p, need=4, tries=60):
    n = 0
    for pt in range(tries):
        try:
            v, t = real_at(p, pt)
        except (_NoPoint, decimal.DecimalException, RecursionError):
            continue
        if abs(v) > t:
            return False
        n += 1
        if n >= need:
            return True
    return None


def is_zero(p):
    """True: identically zero; False: not identically zero; None: unknown."""
    if not p.t:
        return True
    if len(p.t) == 1:
        return False
    fs = fingerprints(p, 1)
    amb = None
    if any(v for _, v in fs):
        if not ambiguous(p):
            return False
        return zero_in_reals(p)
    need = 12 if _signed(p) else 2
    fs = fingerprints(p, need, 40 * need)
    if any(v for _, v in fs):
        if not ambiguous(p):
            return False
        return zero_in_reals(p)
    if len(fs) >= need:
        if ambiguous(p):
            return zero_in_reals(p)
        return True
    return _is_zero_exact(p)


def small_ratio(x, y):
    """k with x == k*y for a small rational k, else None."""
    k = None
    for pt in range(80):
        try:
            fx, fy = fingerprint(x, pt), fingerprint(y, pt)
        except _NoPoint:
            continue
        if not fy:
            continue
        v = fx * pow(fy, -1, MOD) % MOD
        for den in (1, 2, 3, 4, 6, 8, 12):
            n = v * den % MOD
            if n > MOD // 2:
                n -= MOD
            if abs(n) <= 64:
                k = qdiv(n, den)
                break
        break
    if k is None:
        return None
    if is_zero(x - y.scale(k)):
        return k
    if ambiguous(x - y) and is_zero(x + y.scale(k)):
        return -k
    return None


def _is_zero_exact(p):
    """True: identically zero; False: not identically zero; None: unknown."""
    if not p.t:
        return True
    if len(p.t) == 1:
        return False
    try:
        for _ in range(12):
            p = expand(p)
            if not p.t:
                return True
            # common denominator
            low = {}
            for m in p.t:
                for a, e in m:
                    if e < 0 and e < low.get(a, 0):
                        low[a] = e
            if not low:
                break
            # bring to a common denominator, then drop it
            new = ZERO
            for m, c in p.t.items():
                dm = dict(m)
                f = P({(): c})
                for a, e in low.items():
                    have = dm.pop(a, 0)
                    k = have - e
                    if k:
                        at = T.atoms[a]
                        if at.kind == "poly":
                            f = mul(f, ipow(at.args[0], k, ZERO_CAP), ZERO_CAP)
                        else:
                            f = mul(f, ipow(of_atom(at), k, ZERO_CAP), ZERO_CAP)
                f = mul(f, P({tuple(sorted(dm.items())): 1}), ZERO_CAP)
                new = new + f
                if len(new.t) > ZERO_CAP:
                    raise Blowup()
            p = new
        return not p.t
    except Blowup:
        return None


def whole(c):
    """The value is an integer: an integer polynomial of integer unknowns."""
    return all(e > 0 and e == int(e) for m in c.t for _, e in m) and all(v.denominator == 1 for v in c.t.values()) and all(
        (T.atoms[a].info or {}).get("int") if isinstance(T.atoms[a].info, dict) else False for a in c.atoms())


def same(x, y):
    if x == y:
        return True
    return is_zero(x - y)


# ---------------------------------------------------------------- functions
def sqrt(p):
    c = p.const()
    if c is not None and c >= 0:
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return const(Fraction(n, d))
    if not p.t:
        return ZERO
    p = unwrap1(p)
    c, m, q = content(p)
    out = ONE
    keep = []
    for a, e in m:
        k = int(e / 2)
        rem = e - 2 * k
        if k:
            base = of_atom(T.atoms[a])
            ab = absv(base)
            out = mul(out, ipow(ab, k), TERM_CAP)
        if rem:
            keep.append((a, rem))
    if c > 0:
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            out = out.scale(Fraction(n, d))
            c = Fraction(1)
    inner = mul(P({tuple(keep): c}), q, TERM_CAP)
    ci = inner.const()
    if ci == 1:
        return out
    r = square_root(inner)
    if r is not None:
        return mul(out, absv(r), TERM_CAP)
    return mul(out, of_atom(T.get("sqrt", (inner,))), TERM_CAP)


def square_root(q):
    """r with r*r == q for a polynomial that is a perfect square (None: it is not)."""
    n = len(q.t)
    if n < 3 or n > 66:
        return None
    atoms = sorted({a for m in q.t for a, e in m})
    if len(atoms) > 12:
        return None
    ix = {a: i for i, a in enumerate(atoms)}

    def vecm(m):
        v = [0] * len(atoms)
        for a, e in m:
            v[ix[a]] = e
        return tuple(v)
    rem = {}
    for m, c in q.t.items():
        if any(e < 0 or e != int(e) for a, e in m):
            return None
        rem[vecm(m)] = Fraction(c)
    for x in (max(rem), min(rem)):
        c = rem[x]
        if c <= 0 or any(e % 2 for e in x):
            return None
        for k in (c.numerator, c.denominator):
            if math.isqrt(k) ** 2 != k:
                return None
    lead = max(rem)
    c = rem[lead]
    lc = Fraction(math.isqrt(c.numerator), math.isqrt(c.denominator))
    lv = tuple(e // 2 for e in lead)
    root = {lv: lc}
    del rem[lead]
    while rem:
        m = max(rem)
        v = tuple(a - b for a, b in zip(m, lv))
        if any(e < 0 for e in v) or v in root or len(root) > 11:
            return None
        k = rem[m] / (2 * lc)
        for x, y in list(root.items()) + [(v, None)]:
            mm = tuple(a + b for a, b in zip(x, v))
            z = rem.get(mm, 0) - (2 * k * y if y is not None else k * k)
            if z:
                rem[mm] = z
            else:
                rem.pop(mm, None)
        root[v] = k
    return P({tuple((atoms[i], e) for i, e in enumerate(v) if e): qn(k) for v, k in root.items()})


def substitute(p, sub, memo=None):
    """Replace atoms by sub(atom) (None: keep), through the algebraic structure."""
    if memo is None:
        memo = {}

    def atom(i):
        if i in memo:
            return memo[i]
        at = T.atoms[i]
        r = sub(at)
        if r is None:
            if at.kind == "poly":
                x = substitute(at.args[0], sub, memo)
                r = of_atom(at) if x == at.args[0] else wrap(x)
            elif at.kind == "sqrt":
                x = substitute(at.args[0], sub, memo)
                r = of_atom(at) if x == at.args[0] else sqrt(x)
            elif at.kind == "abs":
                x = substitute(at.args[0], sub, memo)
                r = of_atom(at) if x == at.args[0] else absv(x)
            else:
                r = of_atom(at)
        memo[i] = r
        return r
    ch = False
    for i in p.atoms():
        if atom(i) != of_atom(T.atoms[i]):
            ch = True
    if not ch:
        return p
    out = ZERO
    for m, c in p.t.items():
        t = P({(): c})
        for a, e in m:
            x = atom(a)
            if not x.t and e < 0:
                return p
            t = mul(t, ipow(x, e), TERM_CAP)
        out = out + t
    return out


def unwrap1(p):
    """If p is c*m*poly(q) expand it when small."""
    try:
        return expand(p, TERM_CAP)
    except Blowup:
        return p


NONNEG = {"sqrt", "abs", "rank", "count"}
POSKIND = {"pi", "N"}


def absv(p):
    c = p.const()
    if c is not None:
        return const(abs(c))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        out = P({(): abs(c)})
        for a, e in m:
            at = T.atoms[a]
            b = of_atom(at)
            if at.kind in NONNEG or at.kind in POSKIND or (at.info or {}).get("nonneg") or e % 2 == 0:
                f = b
            elif at.kind == "sign" and (at.info or {}).get("nz"):
                f = ONE
            else:
                f = of_atom(T.get("abs", (b,)))
            out = mul(out, ipow(f, e), TERM_CAP)
        return out
    c, m, q = content(p)
    if even_nonneg(q):
        return mul(absv(P({m: c})), q, TERM_CAP)
    if m:
        return mul(absv(P({m: c})), of_atom(T.get("abs", (q,))), TERM_CAP)
    return of_atom(T.get("abs", (q,))).scale(abs(c))


def even_nonneg(p):
    """Syntactically a sum of squares with positive coefficients."""
    for m, c in p.t.items():
        if c < 0:
            return False
        for a, e in m:
            at = T.atoms[a]
            if e % 2 and not (at.kind in NONNEG or at.kind in POSKIND or (at.info or {}).get("nonneg")):
                if not (at.kind == "poly" and even_nonneg(at.args[0])):
                    return False
    return True


def func(kind, *args, info=None):
    return of_atom(T.get(kind, tuple(args), info))


# ---------------------------------------------------------------- printing
def show_atom(a):
    if a.info and "name" in a.info:
        return a.info["name"]
    if a.kind == "poly":
        return "(" + show(a.args[0]) + ")"
    return a.kind + "(" + ", ".join(show(x) if isinstance(x, P) else str(x) for x in a.args) + ")"


def show(p, limit=8):
    if not p.t:
        return "0"
    out = []
    for i, (m, c) in enumerate(sorted(p.t.items(), key=lambda mc: (len(mc[0]), mc[0]))):
        if i >= limit:
            out.append("...(%d terms)" % len(p.t))
            break
        f = "*".join(show_atom(T.atoms[a]) + ("" if e == 1 else "^%d" % e) for a, e in m)
        if not f:
            out.append(str(c))
        elif c == 1:
            out.append(f)
        elif c == -1:
            out.append("-" + f)
        else:
            out.append("%s*%s" % (c, f))
    return " + ".join(out)
