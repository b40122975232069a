"""Abstract domains evaluated on value numbers.

* Facts      -- per-path sign / bound facts learnt from branches (refinement)
* deriv      -- rate of change of a value along a one-parameter family of
                transformations of the inputs (scaling, translation, rotation,
                rescaling of a direction vector); the "unit of measure" domain
* parity     -- behaviour under negation of a direction vector
* inputs     -- dependence
"""
from fractions import Fraction
import math
import poly as V
from poly import P, ZERO, ONE, const, of_atom

NEG, ZER, POS = 1, 2, 4
ANY = 7
INF = float("inf")


class Infeasible(Exception):
    """The path contradicts itself."""


def flip(mask):
    return (mask & ZER) | (NEG if mask & POS else 0) | (POS if mask & NEG else 0)


def mulmask(a, b):
    r = 0
    for x in (NEG, ZER, POS):
        if not a & x:
            continue
        for y in (NEG, ZER, POS):
            if not b & y:
                continue
            if x == ZER or y == ZER:
                r |= ZER
            elif x == y:
                r |= POS
            else:
                r |= NEG
    return r


def addmask(a, b):
    r = 0
    for x in (NEG, ZER, POS):
        if not a & x:
            continue
        for y in (NEG, ZER, POS):
            if not b & y:
                continue
            if x == ZER:
                r |= y
            elif y == ZER:
                r |= x
            elif x == y:
                r |= x
            else:
                r |= ANY
    return r


_RAY = {}


def ray_key(p):
    """Equal for values that differ by a numeric factor."""
    if p in _RAY:
        return _RAY[p]
    k = None
    fs = V.fingerprints(p, 2, 40)
    if len(fs) == 2 and fs[0][1]:
        k = (fs[0][0], fs[1][0], fs[1][1] * pow(fs[0][1], -1, V.MOD) % V.MOD)
    _RAY[p] = k
    return k


class Facts:
    def __init__(self):
        self.sign = {}      # canonical P -> mask
        self.lo = {}        # atom id -> bound
        self.hi = {}
        self.nonnan = set()
        self.memo = {}      # opaque condition key -> bool
        self.eqs = []
        self.distinct_learn = []
        self.gen = 0
        self.cache = {}
        self.fpn = 0
        self.fpidx = {}

    # ------------------------------------------------------------ signs
    def _canon(self, p):
        lead = max(p.t)
        c = p.t[lead]
        if c == 1:
            return p, 1
        q = p.scale(V.qdiv(1, abs(c)))
        if c < 0:
            return -q, -1
        return q, 1

    def signs(self, p, depth=0):
        c = p.const()
        if c is not None:
            return POS if c > 0 else NEG if c < 0 else ZER
        key = (p, self.gen)
        if key in self.cache:
            return self.cache[key]
        m = self._signs(p, depth)
        if depth == 0 and m not in (POS, NEG, ZER):
            m &= self._lookup_same(p)
        self.cache[key] = m
        return m

    def _lookup_same(self, p):
        """Facts about a value with the same fingerprint (up to a numeric factor)."""
        if len(self.sign) != self.fpn:
            self.fpn = len(self.sign)
            self.fpidx = {}
            for q in self.sign:
                k = ray_key(q)
                if k is not None:
                    self.fpidx.setdefault(k, []).append(q)
        if not self.fpidx:
            return ANY
        k = ray_key(p)
        out = ANY
        for q in self.fpidx.get(k, ()) if k is not None else ():
            if q == p:
                continue
            c = V.small_ratio(p, q)
            if c:
                m = self.sign[q]
                out &= m if c > 0 else flip(m)
        return out

    def _lookup(self, p):
        k, s = self._canon(p)
        m = self.sign.get(k, ANY)
        return m if s > 0 else flip(m)

    def _signs(self, p, depth):
        mask = self._lookup(p)
        if depth > 6:
            return mask
        c, m, q = V.content(p)
        if len(p.t) == 1:
            k = POS if c > 0 else NEG
            for a, e in m:
                am = self.atom_signs(V.T.atoms[a], depth + 1)
                if e % 2 == 0:
                    am = (POS if am & (POS | NEG) else 0) | (am & ZER)
                if e < 0:
                    am &= ~ZER
                k = mulmask(k, am)
            mask &= k
        else:
            if m:
                k = POS if c > 0 else NEG
                for a, e in m:
                    am = self.atom_signs(V.T.atoms[a], depth + 1)
                    if e % 2 == 0:
                        am = (POS if am & (POS | NEG) else 0) | (am & ZER)
                    if e < 0:
                        am &= ~ZER
                    k = mulmask(k, am)
                mask &= mulmask(k, self.signs(q, depth + 1))
            elif c != 1:
                mask &= mulmask(POS if c > 0 else NEG, self.signs(q, depth + 1))
            # every term of one sign
            k = ZER
            for mm, cc in p.t.items():
                k = addmask(k, self.signs(P({mm: cc}), depth + 1)) if mm else addmask(k, POS if cc > 0 else NEG)
                if k == ANY:
                    break
            mask &= k
            if k in (POS | ZER, NEG | ZER) and mask & ZER:
                # zero only if every term is, which a known non-zero sum of some of them excludes
                ms = p.t.keys()
                for q, qm in self.sign.items():
                    if not qm & ZER and 1 < len(q.t) <= len(ms) and q.t.keys() <= ms:
                        mask &= ~ZER
                        break
            if mask == ANY or mask in (POS | ZER, NEG | ZER):
                # kept sums: expand
                if any(V.T.atoms[a].kind == "poly" for a in p.atoms()):
                    try:
                        e = V.expand(p, 600)
                        if e != p and e.t:
                            mask &= self.signs(e, depth + 2)
                        elif not e.t:
                            mask &= ZER
                    except V.Blowup:
                        pass
            if mask != POS and mask != NEG and mask != ZER:
                # a known-sign polynomial over kept denominators
                num = self._numerator(p)
                if num is not None:
                    nm, dm = num
                    mask &= mulmask(self.signs(nm, depth + 2), dm)
            if mask not in (POS, NEG, ZER):
                mask &= self._sos(p)
            if mask not in (POS, NEG, ZER) and len(p.t) == 2:
                mask &= self._against(p, depth)
        if mask not in (POS, NEG, ZER):
            lo, hi = self.bounds(p, depth + 1)
            if lo > 0:
                mask &= POS
            elif lo >= 0:
                mask &= POS | ZER
            if hi < 0:
                mask &= NEG
            elif hi <= 0:
                mask &= NEG | ZER
        return mask

    def _against(self, p, depth):
        """Two terms of opposite sign: compare their squares."""
        if not any(V.T.atoms[a].kind in ("sqrt", "abs") for a in p.atoms()):
            return ANY
        (m1, c1), (m2, c2) = p.t.items()
        t1, t2 = P({m1: c1}), P({m2: c2})
        s1, s2 = self.signs(t1, depth + 1), self.signs(t2, depth + 1)
        if not (s1 & NEG) and not (s2 & POS):
            flip_ = False
        elif not (s1 & POS) and not (s2 & NEG):
            flip_ = True
        else:
            return ANY
        try:
            q = V.expand(t1 * t1 - t2 * t2, 600)
        except V.Blowup:
            return ANY
        if len(q.t) > 60 or any(V.T.atoms[a].kind == "sqrt" for a in q.atoms()):
            return ANY
        m = self.signs(q, depth + 2)
        return flip(m) if flip_ else m

    def _sos(self, p):
        """Perfect square of a linear form a*x + b*y (e.g. (x-y)**2)."""
        sq = [(m, c) for m, c in p.t.items() if all(e % 2 == 0 for a, e in m)]
        if len(sq) < 2 or len(p.t) > 20:
            return ANY
        # group: p == sum over groups of (sum s_i m_i)^2 ; try one group
        roots = []
        for m, c in sq:
            if c < 0:
                return ANY
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n != c.numerator or d * d != c.denominator:
                return ANY
            roots.append((tuple((a, e // 2) for a, e in m), Fraction(n, d)))
        # connected components through cross terms
        rest = dict(p.t)
        for m, c in sq:
            del rest[m]
        sgn = {0: 1}
        used = set()
        comps = [[i] for i in range(len(roots))]
        edges = {}
        for i in range(len(roots)):
            for j in range(i + 1, len(roots)):
                mm = V.mono_mul(roots[i][0], roots[j][0])
                if mm in rest:
                    edges[(i, j)] = rest[mm]
                    used.add(mm)
        if set(rest) != used:
            return ANY
        sgn = {}
        for i in range(len(roots)):
            if i in sgn:
                continue
            sgn[i] = 1
            st = [i]
            while st:
                x = st.pop()
                for (a, b), c in edges.items():
                    if x in (a, b):
                        y = b if x == a else a
                        if abs(c) != 2 * roots[a][1] * roots[b][1]:
                            return ANY
                        s = sgn[x] * (1 if c > 0 else -1)
                        if y not in sgn:
                            sgn[y] = s
                            st.append(y)
                        elif sgn[y] != s:
                            return ANY
        # every pair inside a component must be joined
        comp = {}
        for i in range(len(roots)):
            comp[i] = i
        for (a, b) in edges:
            ra, rb = comp[a], comp[b]
            for k in comp:
                if comp[k] == rb:
                    comp[k] = ra
        for i in range(len(roots)):
            for j in range(i + 1, len(roots)):
                if comp[i] == comp[j] and (i, j) not in edges:
                    return ANY
        return POS | ZER

    def _numerator(self, p):
        """(numerator, sign of the denominator) when p has kept denominators."""
        low = {}
        for m in p.t:
            for a, e in m:
                if e < 0 and e < low.get(a, 0):
                    low[a] = e
        if not low or len(p.t) > 60:
            return None
        key = ("num", p)
        if key in self.cache:
            n = self.cache[key]
        else:
            f = ONE
            for a, e in low.items():
                f = V.mono_mul(()if f is ONE else f, ((a, -e),)) if False else f
            mm = tuple(sorted((a, -e) for a, e in low.items()))
            n = ZERO
            try:
                for m, c in p.t.items():
                    k = V.mono_mul(m, mm)
                    t = P({(): c})
                    rest = []
                    for a, e in k:
                        at = V.T.atoms[a]
                        if at.kind == "poly" and e > 0:
                            t = V.mul(t, V.ipow(at.args[0], e, 800), 800)
                        elif at.kind == "sqrt" and e >= 2:
                            t = V.mul(t, V.ipow(of_atom(at), e, 800), 800)
                        else:
                            rest.append((a, e))
                    n = n + V.mul(t, P({tuple(rest): Fraction(1)}), 800)
            except V.Blowup:
                n = None
            self.cache[key] = n
        if n is None or n == p:
            return None
        dm = POS
        for a, e in low.items():
            am = self.atom_signs(V.T.atoms[a], 3)
            if e % 2 == 0:
                am = POS
            am &= ~ZER
            dm = mulmask(dm, am)
        return n, dm

    def atom_signs(self, a, depth=0):
        ap = of_atom(a)
        mask = self.sign.get(ap, ANY)
        if depth > 7:
            return mask
        k = a.kind
        if k == "sqrt":
            s = self.signs(a.args[0], depth + 1)
            mask &= (ZER if s & ZER else 0) | (POS if s & POS else 0) or ANY
        elif k == "abs":
            s = self.signs(a.args[0], depth + 1)
            mask &= (ZER if s & ZER else 0) | (POS if s & (POS | NEG) else 0)
        elif k == "poly":
            mask &= self.signs(a.args[0], depth + 1)
        elif k == "sign":
            mask &= self.signs(a.args[0], depth + 1)
        elif k in V.POSKIND:
            mask &= POS
        elif k == "max":
            x = self.signs(a.args[0], depth + 1)
            y = self.signs(a.args[1], depth + 1)
            r = 0
            for i in (NEG, ZER, POS):
                for j in (NEG, ZER, POS):
                    if x & i and y & j:
                        r |= max(i, j)
            mask &= r
        elif k == "min":
            x = self.signs(a.args[0], depth + 1)
            y = self.signs(a.args[1], depth + 1)
            r = 0
            for i in (NEG, ZER, POS):
                for j in (NEG, ZER, POS):
                    if x & i and y & j:
                        r |= min(i, j)
            mask &= r
        elif k == "nsum":
            s = self.signs(a.args[0], depth + 1)
            if not s & NEG:
                mask &= POS | ZER
        elif k == "nmax" or k == "nmin":
            mask &= self.signs(a.args[0], depth + 1)
        elif a.info and a.info.get("nonneg"):
            mask &= POS | ZER
        if mask & ZER and a.info and a.info.get("nz"):
            mask &= ~ZER
        if mask not in (POS, NEG, ZER):
            lo, hi = self.atom_bounds(a, depth + 1)
            if lo > 0:
                mask &= POS
            elif lo >= 0:
                mask &= POS | ZER
            if hi < 0:
                mask &= NEG
            elif hi <= 0:
                mask &= NEG | ZER
        return mask

    # ------------------------------------------------------------ bounds
    def atom_bounds(self, a, depth=0):
        lo, hi = self.lo.get(a.id, -INF), self.hi.get(a.id, INF)
        k = a.kind
        l, h = -INF, INF
        if depth > 6:
            return lo, hi
        if k == "pi":
            l = h = math.pi
        elif k in ("cos", "sin", "sign"):
            l, h = -1, 1
        elif k == "acos":
            l, h = 0, math.pi
        elif k in ("asin", "atan"):
            l, h = -math.pi / 2, math.pi / 2
        elif k == "atan2":
            l, h = -math.pi, math.pi
        elif k == "sqrt":
            x, y = self.bounds(a.args[0], depth + 1)
            l = math.sqrt(x) if 0 < x < INF else 0
            h = math.sqrt(y) if 0 <= y < INF else INF
        elif k == "abs":
            x, y = self.bounds(a.args[0], depth + 1)
            l = 0
            if x > 0:
                l = x
            h = max(abs(x), abs(y))
        elif k == "poly":
            l, h = self.bounds(a.args[0], depth + 1)
        elif k == "max":
            x, y = self.bounds(a.args[0], depth + 1), self.bounds(a.args[1], depth + 1)
            l, h = max(x[0], y[0]), max(x[1], y[1])
        elif k == "min":
            x, y = self.bounds(a.args[0], depth + 1), self.bounds(a.args[1], depth + 1)
            l, h = min(x[0], y[0]), min(x[1], y[1])
        elif k in ("nmax", "nmin"):
            l, h = self.bounds(a.args[0], depth + 1)
        elif a.info:
            l = a.info.get("lo", -INF)
            h = a.info.get("hi", INF)
            if a.info.get("nonneg"):
                l = max(l, 0)
        m = self.sign.get(of_atom(a), ANY)
        if not m & NEG:
            l = max(l, 0)
        if not m & POS:
            h = min(h, 0)
        return max(lo, l), min(hi, h)

    def bounds(self, p, depth=0):
        c = p.const()
        if c is not None:
            c = float(c)
            return c, c
        if depth > 6 or len(p.t) > 40:
            return -INF, INF
        lo = hi = 0.0
        for m, c in p.t.items():
            l, h = 1.0, 1.0
            for a, e in m:
                x, y = self.atom_bounds(V.T.atoms[a], depth + 1)
                if e < 0:
                    if x > 0:
                        x, y = (1 / y if y < INF else 0.0), 1 / x
                    elif x >= 0:
                        x, y = (1 / y if 0 < y < INF else 0.0), INF
                    elif e % 2 == 0:
                        x, y = 0.0, INF
                    else:
                        x, y = -INF, INF
                    e = -e
                if e % 2 == 0 and x < 0:
                    mx = max(abs(x), abs(y))
                    x, y = 0.0, mx
                try:
                    x, y = x ** e, y ** e
                except OverflowError:
                    x, y = -INF, INF
                cands = [_m(l, x), _m(l, y), _m(h, x), _m(h, y)]
                l, h = min(cands), max(cands)
            c = float(c)
            l, h = _m(l, c), _m(h, c)
            if l > h:
                l, h = h, l
            lo += l
            hi += h
        if lo != lo:
            lo = -INF
        if hi != hi:
            hi = INF
        return lo, hi

    # ------------------------------------------------------------ learning
    def learn(self, p, mask, depth=0):
        c = p.const()
        if c is not None:
            s = POS if c > 0 else NEG if c < 0 else ZER
            if not s & mask:
                raise Infeasible()
            return
        old = self.signs(p)
        new = old & mask
        if new == 0:
            raise Infeasible()
        k, s = self._canon(p)
        cur = self.sign.get(k, ANY)
        nm = cur & (new if s > 0 else flip(new))
        if nm == 0:
            raise Infeasible()
        if nm != cur:
            self.sign[k] = nm
            self.gen += 1
        if depth > 8:
            return
        if nm == ZER:
            self.eqs.append(k)
        self._derive(p, new, depth)

    def _derive(self, p, mask, depth):
        c, m, q = V.content(p)
        if len(p.t) == 1:
            if not mask & ZER:
                for a, e in m:
                    if e > 0:
                        self.learn_atom(V.T.atoms[a], ANY & ~ZER, depth + 1)
            # single atom of odd exponent, others positive
            unk = []
            k = POS if c > 0 else NEG
            for a, e in m:
                am = self.atom_signs(V.T.atoms[a])
                if e % 2 == 0:
                    am = POS if not am & ZER else POS | ZER
                if am in (POS, NEG):
                    k = mulmask(k, am)
                else:
                    unk.append((a, e))
            if len(unk) == 1 and unk[0][1] % 2:
                self.learn_atom(V.T.atoms[unk[0][0]], mulmask(mask, k), depth + 1)
            elif len(unk) == 1 and mask == ZER:
                self.learn_atom(V.T.atoms[unk[0][0]], ZER, depth + 1)
            return
        # product content
        if m:
            k = POS if c > 0 else NEG
            for a, e in m:
                am = self.atom_signs(V.T.atoms[a])
                if e % 2 == 0:
                    am = POS if not am & ZER or e < 0 else POS | ZER
                if e < 0:
                    am &= ~ZER
                k = mulmask(k, am)
            if k in (POS, NEG):
                self.learn(q, mulmask(mask, k), depth + 1)
            elif not mask & ZER:
                self.learn(q, ANY & ~ZER, depth + 1)
                for a, e in m:
                    if e > 0:
                        self.learn_atom(V.T.atoms[a], ANY & ~ZER, depth + 1)
        # a + c : bounds on one atom
        if len(p.t) == 2 and () in p.t:
            (mm, cc), = [(x, y) for x, y in p.t.items() if x]
            k0 = p.t[()]
            if len(mm) == 1 and mm[0][1] == 1:
                at = V.T.atoms[mm[0][0]]
                thr = float(Fraction(-k0) / cc)
                pos = mask if cc > 0 else flip(mask)
                integer = at.info and at.info.get("int")
                if not pos & NEG:
                    b = thr if pos & ZER or not integer else math.floor(thr) + 1
                    if integer:
                        b = math.ceil(b)
                    self._set_lo(at, b)
                if not pos & POS:
                    b = thr if pos & ZER or not integer else math.ceil(thr) - 1
                    if integer:
                        b = math.floor(b)
                    self._set_hi(at, b)
                if integer and not pos & ZER:
                    lo, hi = self.atom_bounds(at)
                    if lo == thr:
                        self._set_lo(at, thr + 1)
                    if hi == thr:
                        self._set_hi(at, thr - 1)
                self._at_threshold(at, V.qdiv(-k0, cc), pos, depth)
        # numerators over kept denominators
        num = self._numerator(p)
        if num is not None:
            n, dm = num
            if n.t and n.const() is None:
                self.learn(n, mulmask(mask, dm), depth + 1)
        elif any(V.T.atoms[a].kind == "poly" for a in p.atoms()):
            try:
                e = V.expand(p, 600)
                if e != p and e.t:
                    self.learn(e, mask, depth + 1)
            except V.Blowup:
                pass
        if mask == ZER and V.even_nonneg(p):
            for mm, cc in p.t.items():
                if mm:
                    self.learn(P({mm: cc}), ZER, depth + 1)

    def _at_threshold(self, at, thr, pos, depth):
        """at compared with the constant thr: consequences for its argument."""
        if at.kind == "abs" and thr > 0:
            x = at.args[0]
            sq = x * x - const(thr * thr)
            if pos != ANY:
                self.learn(sq, pos, depth + 1)
            inner = x.single()
            if inner is not None and inner.kind == "clip" and not pos & ZER:
                lo, hi = inner.args[1].const(), inner.args[2].const()
                if lo == -thr and hi == thr:
                    y = inner.args[0]
                    self.learn(y * y - const(thr * thr), NEG, depth + 1)
        elif at.kind == "clip" and not pos & ZER:
            lo, hi = at.args[1].const(), at.args[2].const()
            y = at.args[0]
            if lo is not None and lo == thr:
                self.learn(y - const(thr), POS, depth + 1)
            elif hi is not None and hi == thr:
                self.learn(y - const(thr), NEG, depth + 1)
        elif at.kind == "sqrt" and thr >= 0:
            self.learn(at.args[0] - const(thr * thr), pos, depth + 1)
        elif at.kind == "rank" and at.info and not pos & NEG:
            lo, _ = self.atom_bounds(at)
            f = at.info.get("learn")
            if f and lo > -INF:
                f(self, int(lo), depth + 1)

    def _set_lo(self, at, b):
        if b > self.lo.get(at.id, -INF):
            self.lo[at.id] = b
            self.gen += 1
        lo, hi = self.atom_bounds(at)
        if lo > hi:
            raise Infeasible()

    def _set_hi(self, at, b):
        if b < self.hi.get(at.id, INF):
            self.hi[at.id] = b
            self.gen += 1
        lo, hi = self.atom_bounds(at)
        if lo > hi:
            raise Infeasible()

    def learn_atom(self, a, mask, depth):
        self.learn1(of_atom(a), a, mask, depth)

    def learn1(self, ap, a, mask, depth):
        old = self.atom_signs(a)
        new = old & mask
        if new == 0:
            raise Infeasible()
        cur = self.sign.get(ap, ANY)
        if cur & new != cur:
            self.sign[ap] = cur & new
            self.gen += 1
        if depth > 8:
            return
        if new == ZER:
            self.eqs.append(ap)
        k = a.kind
        if k == "sqrt":
            self.learn(a.args[0], new, depth + 1)
        elif k == "abs":
            self.learn(a.args[0], (ZER if new & ZER else 0) | ((POS | NEG) if new & POS else 0), depth + 1)
        elif k == "poly":
            self.learn(a.args[0], new, depth + 1)
        elif k == "sign":
            self.learn(a.args[0], new, depth + 1)
        elif k == "clip":
            lo, hi = a.args[1].const(), a.args[2].const()
            if lo is not None and hi is not None and lo < 0 < hi:
                self.learn(a.args[0], new, depth + 1)
        elif k == "max":
            z = self.signs(a.args[1])
            if z == ZER and new == POS:
                self.learn(a.args[0], POS, depth + 1)
        elif k == "nsum":
            pass
        elif k == "rank" and a.info and a.info.get("learn") and not new & ZER:
            a.info["learn"](self, 1, depth + 1)

    # ------------------------------------------------------------ NaN
    def settled(self, p):
        """p with |x| and sign(x) replaced where the sign of x is known (None: nothing to replace)."""
        if not any(V.T.atoms[a].kind in ("abs", "sign") for a in p.atoms()):
            return None

        def sub(a):
            if a.kind in ("abs", "sign"):
                s = self.signs(a.args[0])
                if s in (POS, POS | ZER):
                    return a.args[0] if a.kind == "abs" else (ONE if s == POS else None)
                if s in (NEG, NEG | ZER):
                    return -a.args[0] if a.kind == "abs" else (-ONE if s == NEG else None)
            return None
        q = V.substitute(p, sub)
        return q if q != p else None

    def maybe_nan(self, p):
        for a in p.atoms():
            at = V.T.atoms[a]
            if self.atom_nan(at):
                return True
        return False

    def atom_nan(self, at):
        if at.id in self.nonnan:
            return False
        if at.info and at.info.get("nan"):
            return True
        for x in at.args:
            if isinstance(x, P) and at.kind not in ("in",) and self.maybe_nan(x):
                return True
        return False

    def set_nonnan(self, p):
        for a in p.atoms():
            at = V.T.atoms[a]
            if self.atom_nan(at):
                self.nonnan.add(a)
                self.gen += 1


def _m(a, b):
    if a == 0 or b == 0:
        return 0.0
    return a * b


# ====================================================================== inputs
def inputs(p, memo=None):
    """Names of the input atoms a value depends on."""
    out = set()
    seen = set()
    st = list(p.atoms()) if isinstance(p, P) else []
    while st:
        i = st.pop()
        if i in seen:
            continue
        seen.add(i)
        a = V.T.atoms[i]
        if a.kind == "in":
            out.add(a.args[0])
        if a.info and "deps" in a.info:
            out |= a.info["deps"]
        for x in a.args:
            if isinstance(x, P):
                st.extend(x.atoms())
        if a.info and "extra" in a.info:
            for x in a.info["extra"]:
                st.extend(x.atoms())
    return out


def atoms_deep(p):
    seen = set()
    st = list(p.atoms())
    while st:
        i = st.pop()
        if i in seen:
            continue
        seen.add(i)
        a = V.T.atoms[i]
        for x in a.args:
            if isinstance(x, P):
                st.extend(x.atoms())
        if a.info and "extra" in a.info:
            for x in a.info["extra"]:
                st.extend(x.atoms())
    return [V.T.atoms[i] for i in seen]


# ====================================================================== deriv
class Unk(Exception):
    """No verdict."""


class Bad(Exception):
    """Definitely not invariant (e.g. rounding of a non-invariant value)."""

    def __init__(self, why):
        Exception.__init__(self, why)
        self.why = why


def deriv(p, g):
    """Derivative of the value number along generator g (a Gen)."""
    out = ZERO
    for m, c in p.t.items():
        for i, (a, e) in enumerate(m):
            da = deriv_atom(V.T.atoms[a], g)
            if not da.t:
                continue
            rest = m[:i] + (((a, e - 1),) if e != 1 else ()) + m[i + 1:]
            out = out + V.mul(P({rest: c * e}), da, V.TERM_CAP)
    return out


class Gen:
    """A one-parameter family: base(atom) -> P or None (0)."""

    def __init__(self, name, base):
        self.name = name
        self.base = base


def ratio(d, p):
    """k with d == k*p (k numeric), else None."""
    if not d.t:
        return 0
    if not p.t:
        return None
    return V.small_ratio(d, p)


def proportional(d, p):
    """d == h*p for a smooth h: True / False / None."""
    z = V.is_zero(d)
    if z:
        return True
    if z is None:
        return None
    if ratio(d, p) is not None:
        return True
    if len(p.t) == 1:
        return None if any(e < 0 for m in d.t for a, e in m) else _div_mono(d, p)
    try:
        num = V.expand(d)
        den = V.expand(p)
    except V.Blowup:
        return None
    c, m, q = V.content(den)
    # clear negative exponents
    c2, m2, q2 = V.content(num)
    if len(q.t) > 1 and V.exact_div(q2, q) is not None:
        return True
    if any(V.T.atoms[a].kind not in ("in",) for a in q.atoms() | q2.atoms()):
        return None
    return False


def _div_mono(d, p):
    (m, c), = p.t.items()
    for mm in d.t:
        dm = dict(mm)
        for a, e in m:
            if dm.get(a, 0) < 1:
                at = V.T.atoms[a]
                if at.kind == "in":
                    return False
                return None
    return True


def deriv_atom(a, g):
    c = a.Dc.get(g.name)
    if c is None:
        try:
            c = _deriv_atom(a, g)
        except Unk as e:
            c = e
        except Bad as e:
            c = e
        except V.Blowup:
            c = Unk("too large")
        a.Dc[g.name] = c
    if isinstance(c, Exception):
        raise c
    return c


def _deriv_atom(a, g):
    k = a.kind
    b = g.base(a)
    if b is not None:
        return b
    if k in ("in", "pi", "N"):
        return ZERO
    if a.info and "D" in a.info:
        return a.info["D"](a, g)
    if k == "poly":
        d = deriv(a.args[0], g)
        r = ratio(d, a.args[0])
        if r is not None:
            return of_atom(a).scale(r)
        return d
    if k == "sqrt":
        d = deriv(a.args[0], g)
        if V.is_zero(d):
            return ZERO
        r = ratio(d, a.args[0])
        if r is not None:
            return of_atom(a).scale(V.qdiv(r, 2))
        return V.mul(d, P({((a.id, -1),): Fraction(1, 2)}), V.TERM_CAP)
    if k == "abs":
        d = deriv(a.args[0], g)
        if V.is_zero(d):
            return ZERO
        r = ratio(d, a.args[0])
        if r is not None:
            return of_atom(a).scale(r)
        return V.mul(d, of_atom(V.T.get("sign", (a.args[0],))), V.TERM_CAP)
    if k == "sign":
        d = deriv(a.args[0], g)
        pr = proportional(d, a.args[0])
        if pr:
            return ZERO
        if pr is False:
            raise Bad("sign of a quantity that the transformation changes")
        raise Unk("sign")
    if k in ("max", "min"):
        x, y = a.args
        dx, dy = deriv(x, g), deriv(y, g)
        rx, ry = (ratio(dx, x) if x.t else None), (ratio(dy, y) if y.t else None)
        if V.is_zero(dx) and V.is_zero(dy):
            return ZERO
        if not x.t and ry is not None:
            return of_atom(a).scale(ry)
        if not y.t and rx is not None:
            return of_atom(a).scale(rx)
        if rx is not None and rx == ry:
            return of_atom(a).scale(rx)
        if V.is_zero(dx - dy):
            return dx
        if rx is not None and ry is not None and rx != ry:
            raise Bad("min/max of quantities of different kinds")
        raise Unk(k)
    if k == "clip":
        ds = [deriv(x, g) for x in a.args]
        if all(V.is_zero(d) for d in ds):
            return ZERO
        rs = {ratio(d, x) for d, x in zip(ds, a.args) if x.t}
        if len(rs) == 1 and None not in rs:
            return of_atom(a).scale(rs.pop())
        if None not in rs:
            raise Bad("clipping at a bound of a different kind")
        raise Unk(k)
    if k in ("acos", "asin", "atan", "cos", "sin", "tan", "exp", "log"):
        d = deriv(a.args[0], g)
        z = V.is_zero(d)
        if z:
            return ZERO
        if k == "cos":
            return V.mul(d, -of_atom(V.T.get("sin", a.args)), V.TERM_CAP)
        if k == "sin":
            return V.mul(d, of_atom(V.T.get("cos", a.args)), V.TERM_CAP)
        if z is False:
            if ratio(d, a.args[0]) is not None:
                raise Bad("%s of a quantity that the transformation changes" % k)
        raise Unk(k)
    if k == "atan2":
        y, x = a.args
        dy, dx = deriv(y, g), deriv(x, g)
        n = V.mul(x, dy, V.TERM_CAP) - V.mul(y, dx, V.TERM_CAP)
        z = V.is_zero(n)
        if z:
            return ZERO
        if z is None:
            raise Unk(k)
        return V.div(n, x * x + y * y)
    if k in ("round", "floor", "ceil", "trunc", "mod", "floordiv"):
        for x in a.args:
            if isinstance(x, P):
                z = V.is_zero(deriv(x, g))
                if z is False:
                    raise Bad("rounding of a quantity that the transformation changes")
                if z is None:
                    raise Unk(k)
        return ZERO
    if k == "pow":
        d0, d1 = deriv(a.args[0], g), deriv(a.args[1], g)
        if V.is_zero(d0) and V.is_zero(d1):
            return ZERO
        if V.is_zero(d1):
            r = ratio(d0, a.args[0])
            if r is not None:
                return V.mul(of_atom(a), a.args[1], V.TERM_CAP).scale(r)
        raise Unk(k)
    if k == "nsum":
        return nsum(deriv(a.args[0], g), a.info["axis"])
    if k in ("nmax", "nmin"):
        x = a.args[0]
        d = deriv(x, g)
        r = ratio(d, x)
        if r is not None:
            return of_atom(a).scale(r)
        if a.info["axis"] not in d.rows():
            return d
        raise Unk(k)
    if k == "nargm":
        x = a.args[0]
        d = deriv(x, g)
        if ratio(d, x) is not None or a.info["axis"] not in d.rows():
            return ZERO
        raise Unk(k)
    if k == "ren":
        base, tag = a.info["base"], a.args[1]
        return rename(deriv_atom(base, g), tag, a.info["pred"])
    if k == "pick":
        if not V.is_zero(deriv(a.args[0], g)):
            raise Unk(k)
        ds = [deriv(x, g) for x in a.args[1:]]
        if all(V.is_zero(d) for d in ds):
            return ZERO
        rs = {ratio(d, x) for d, x in zip(ds, a.args[1:]) if x.t}
        if len(rs) == 1 and None not in rs:
            return of_atom(a).scale(rs.pop())
        if all(V.is_zero(d - ds[0]) for d in ds[1:]):
            return ds[0]
        return of_atom(V.T.get("pick", (a.args[0],) + tuple(ds)))
    # any other operation: invariant if its arguments are
    args = [x for x in a.args if isinstance(x, P)] + list((a.info or {}).get("extra", ()))
    for x in args:
        if not V.is_zero(deriv(x, g)):
            raise Unk(k)
    if k == "opaque" and not args:
        raise Unk(k)
    return ZERO


def rename(p, tag, pred):
    """Rename atoms (a particular row, a permuted copy, ...)."""
    out = ZERO
    for m, c in p.t.items():
        t = P({(): c})
        for a, e in m:
            at = V.T.atoms[a]
            if pred(at):
                if at.kind == "poly":
                    x = rename(at.args[0], tag, pred)
                    x = V.wrap(x)
                elif at.kind in ("sqrt",):
                    x = V.sqrt(rename(at.args[0], tag, pred))
                elif at.kind == "abs":
                    x = V.absv(rename(at.args[0], tag, pred))
                else:
                    n = V.T.get("ren", (at.id, tag), key=("ren", at.id, tag))
                    if n.info is None:
                        inf = dict(at.info or {})
                        inf.update(base=at, pred=pred, name="%s[%s]" % (V.show_atom(at), tag))
                        inf.pop("D", None)
                        n.info = inf
                        if tag[0] == "perm":
                            n.rows = at.rows
                        n.info["extra"] = [of_atom(at)]
                    x = of_atom(n)
            else:
                x = of_atom(at)
            t = V.mul(t, V.ipow(x, e), V.TERM_CAP)
        out = out + t
    return out


def unrename(p, tag):
    """Undo a renaming (used for quantities that do not depend on it)."""
    out = ZERO
    for m, c in p.t.items():
        t = P({(): c})
        for a, e in m:
            at = V.T.atoms[a]
            if at.kind == "ren" and at.args[1] == tag:
                x = of_atom(at.info["base"])
            elif at.kind == "poly":
                x = V.wrap(unrename(at.args[0], tag))
            elif at.kind == "sqrt":
                x = V.sqrt(unrename(at.args[0], tag))
            elif at.kind == "abs":
                x = V.absv(unrename(at.args[0], tag))
            else:
                x = of_atom(at)
            t = V.mul(t, V.ipow(x, e), V.TERM_CAP)
        out = out + t
    return out


def count_atom(axis):
    if isinstance(axis, int):
        return const(axis)
    a = V.T.get("N", (axis,))
    if a.info is None:
        a.info = {"name": axis, "lo": 1, "int": True, "nonneg": True, "axis": axis}
    return of_atom(a)


def each_row(inner, axis):
    """A monomial in the distinct rows times their number, as the same monomial in the rows themselves."""
    src = V.T.atoms[int(axis[1:])].info["src"]
    if not isinstance(src[0][0], str):
        return None
    out, counted = ONE, False
    for a, e in inner:
        at = V.T.atoms[a]
        if at.kind == "counts of unique" and e == 1 and not counted:
            counted = True
        elif at.kind == "uniq" and at.info["axis"] == axis and e > 0 and int(e) == e:
            for _ in range(int(e)):
                out = V.mul(out, src[1][at.info["j"]], V.TERM_CAP)
        else:
            return None
    return out if counted else None


def nsum(p, axis):
    """Sum of a generic row over the symbolic axis."""
    out = ZERO
    for m, c in p.t.items():
        inner, outer = [], []
        for a, e in m:
            (inner if axis in V.T.atoms[a].rows else outer).append((a, e))
        if not inner:
            x = count_atom(axis)
        else:
            ip = P({tuple(inner): Fraction(1)})
            # a permutation of the rows does not change the sum
            un = None
            if all(V.T.atoms[a].kind == "ren" and V.T.atoms[a].args[1][0] == "perm" for a, _ in inner):
                tags = {V.T.atoms[a].args[1] for a, _ in inner}
                if len(tags) == 1:
                    un = unrename(ip, tags.pop())
            if un is None and isinstance(axis, str) and axis[0] == "U":
                un = each_row(inner, axis)
                axis2 = V.T.atoms[int(axis[1:])].info["src"][0][0]
            else:
                axis2 = axis
            if un is not None:
                x = nsum(un, axis2)
            else:
                at = V.T.get("nsum", (ip, axis))
                if at.info is None:
                    at.info = {"axis": axis}
                at.rows = ip.rows() - {axis}
                x = of_atom(at)
        out = out + V.mul(P({tuple(outer): c}), x, V.TERM_CAP)
    return out


def reduce_axis(kind, p, axis):
    if axis not in p.rows():
        return p
    at = V.T.get(kind, (p, axis))
    if at.info is None:
        at.info = {"axis": axis}
    at.rows = p.rows() - {axis}
    return of_atom(at)


# ====================================================================== parity
def parity(p, g):
    """+1 even, -1 odd, None unknown/mixed; raises Bad if definitely mixed.
    g(atom) -> -1 for atoms that change sign."""
    r = None
    for m in p.t:
        s = 1
        for a, e in m:
            if e % 2:
                s *= parity_atom(V.T.atoms[a], g)
        if r is None:
            r = s
        elif r != s:
            raise Bad("mixed parity")
    return 1 if r is None else r


def parity_atom(a, g):
    k = a.kind
    s = g(a)
    if s is not None:
        return s
    if k in ("in", "pi", "N"):
        return 1
    if k == "poly":
        return parity(a.args[0], g)
    if k == "abs":
        parity(a.args[0], g)
        return 1
    if k == "sqrt":
        if parity(a.args[0], g) == 1:
            return 1
        raise Bad("sqrt of odd")
    if k in ("sign", "asin", "atan", "sin", "tan", "nsum"):
        return parity(a.args[0], g)
    if k == "cos":
        parity(a.args[0], g)
        return 1
    if k == "clip":
        s = parity(a.args[0], g)
        if s == 1:
            return 1
        lo, hi = a.args[1].const(), a.args[2].const()
        if lo is not None and hi is not None and lo == -hi:
            return -1
        raise Bad("asymmetric clip")
    if k == "ren":
        return parity_atom(a.info["base"], g)
    for x in list(a.args) + list((a.info or {}).get("extra", ())):
        if isinstance(x, P):
            try:
                if parity(x, g) != 1:
                    raise Unk(k)
            except Bad:
                raise Unk(k)
    return 1
