"""Exact feasibility of a path whose decisions are linear in independent quantities (Fourier-Motzkin)."""
import poly as V
from poly import of_atom
import domains as D
from judge import leaves

FLIP = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}


def literals(c, val):
    """The conjunction of comparisons a decided condition stands for, or None."""
    if c.kind == "not":
        return literals(c.args[0], not val)
    if c.kind == "const":
        return []
    if c.kind == "cmp":
        op, q = c.args
        return [(op if val else FLIP[op], q)]
    if (c.kind == "and") == val and c.kind in ("and", "or"):
        out = []
        for x in c.args[0]:
            y = literals(x, val)
            if y is None:
                return None
            out += y
        return out
    return None


def variables(lits):
    """Independent quantities of the literals with their ranges, or None."""
    ids = {i for _, q in lits for i in q.atoms()}
    seen = set()
    out = {}
    for i in sorted(ids):
        a = V.T.atoms[i]
        if a.kind == "abs":
            continue
        have = {x.id for x in D.atoms_deep(of_atom(a)) if x.kind == "in"}
        if have & seen or not have:
            return None
        seen |= have
        if a.kind == "in":
            info = a.info or {}
            out[i] = "pos" if info.get("kind") == "len" else "any"
        elif a.kind == "sqrt" and quadratic(a.args[0]):
            out[i] = "nonneg"
        else:
            return None
    return out


def quadratic(q):
    """A quadratic form without constant in inputs: its root takes every nonnegative value."""
    return bool(q.t) and all(sum(k for _, k in m) == 2 and all(V.T.atoms[i].kind == "in" and k > 0 for i, k in m) for m in q.t)


def rows(lits):
    """Linear rows ({atom: coefficient}, constant, op) or None."""
    out = []
    for op, q in lits:
        r, c = {}, 0
        for m, k in q.t.items():
            if not m:
                c = k
            elif len(m) == 1 and m[0][1] == 1:
                r[m[0][0]] = k
            else:
                return None
        out.append((r, c, op))
    return out


def unabs(lits):
    """All cases of the absolute values in the literals."""
    for _, q in lits:
        for i in q.atoms():
            a = V.T.atoms[i]
            if a.kind == "abs":
                for s in (1, -1):
                    e = a.args[0].scale(s)
                    sub = lambda x, i=i, e=e: e if x.id == i else None
                    yield from unabs([(o, V.substitute(p, sub)) for o, p in lits] + [(">=", e)])
                return
    yield lits


def split(lits):
    """Cases of the disequalities."""
    for j, (op, q) in enumerate(lits):
        if op == "!=":
            for o in ("<", ">"):
                yield from split(lits[:j] + [(o, q)] + lits[j + 1:])
            return
    yield lits


def solvable(rs):
    """Is the system of rows r + c op 0 satisfiable in the reals?"""
    sys = []
    for r, c, op in rs:
        r = {k: v for k, v in r.items() if v}
        if op in ("<", "<="):
            sys.append((r, c, op == "<"))
        elif op in (">", ">="):
            sys.append(({k: -v for k, v in r.items()}, -c, op == ">"))
        else:
            sys.append((r, c, False))
            sys.append(({k: -v for k, v in r.items()}, -c, False))
    while True:
        vs = {k for r, _, _ in sys for k in r}
        for r, c, strict in sys:
            if not r and (c > 0 or c == 0 and strict):
                return False
        if not vs:
            return True
        x = min(vs)
        up = [s for s in sys if s[0].get(x, 0) > 0]
        lo = [s for s in sys if s[0].get(x, 0) < 0]
        new = [s for s in sys if x not in s[0]]
        for a in up:
            for b in lo:
                ka, kb = a[0][x], -b[0][x]
                r = {}
                for k in set(a[0]) | set(b[0]):
                    v = a[0].get(k, 0) * kb + b[0].get(k, 0) * ka
                    if v and k != x:
                        r[k] = v
                new.append((r, a[1] * kb + b[1] * ka, a[2] or b[2]))
        if len(new) > 400:
            return None
        sys = new


def feasible(p):
    """True: the decisions of the path hold together for some operands; False: for none; None: not settled."""
    lits = []
    for e in p.events_after("branch"):
        x = literals(e.data["cond"], e.data["val"])
        if x is None:
            if e.data["free"]:
                return None
            continue
        lits += x
    vs = None
    unknown = False
    for case in unabs(lits):
        vs = variables(case)
        if vs is None:
            unknown = True
            continue
        extra = [(">" if k == "pos" else ">=", of_atom(V.T.atoms[i])) for i, k in vs.items() if k != "any"]
        for c in split(case + extra):
            rs = rows(c)
            if rs is None:
                unknown = True
                continue
            s = solvable(rs)
            if s:
                return True
            if s is None:
                unknown = True
    return None if unknown else False
