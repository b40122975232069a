"""Path exploration of one analysis scenario.

A scenario is a Python function that builds abstract operands and applies one
public operation of the analysed package to them.  Every branch the abstract
interpreter cannot settle is explored both ways; the result is the list of
abstract paths with their outcome, the facts collected and the events seen.
"""
import os
import sys
import time
import poly as V
from poly import P, ZERO, ONE, const, of_atom
import domains as D
from values import *
import interp as I
import models as M

sys.setrecursionlimit(12000)

ROOT = os.environ.get("SA_REPO", "/repo")
SRC = os.path.join(ROOT, "src")


class Skip(Exception):
    """The scenario does not apply on this path (a precondition failed)."""


class Path:
    __slots__ = ("kind", "value", "exc", "events", "facts", "tape", "site", "why", "ops", "stack", "mark", "extra")

    def __repr__(self):
        if self.kind == "return":
            return "return %r" % (self.value,)
        if self.kind == "raise":
            return "raise %s(%s) at %s" % (self.exc.name, self.exc.msg, I.fmt_site(self.site) if self.site else "?")
        return "%s: %s" % (self.kind, self.why)

    def events_after(self, kind=None):
        for e in self.events[self.mark:]:
            if kind is None or e.kind == kind:
                yield e


class World:
    """The parsed program with one interpreter."""

    def __init__(self, root=None):
        self.src = root or SRC
        self.program = I.Program(self.src)
        self.models = M.Models()
        self.it = I.Interp(self.program, self.models)
        self.paths = 0
        self.scen = 0
        self.undecided = []
        self.truncated = []
        self.visited = set()

    def anchor(self):
        """Every module of the package parses and loads."""
        self.fresh()
        self.it.reset_path([])

    def fresh(self):
        """Forget all value numbers (between scenarios)."""
        V.reset()
        D._RAY.clear()
        blocked = self.it.blocked
        self.it.modules = {}
        self.it.wrapcache = {}
        self.it.frozen_native = {}
        self.it.dirty = False
        self.it.facts = I.Facts()
        self.it.blocked = blocked

    def cls(self, name):
        return self.find("objects." + name)

    def find(self, dotted):
        parts = dotted.split(".")
        pk = self.program.package
        for i in range(len(parts), 0, -1):
            m = self.it.module(".".join([pk] + parts[:i]))
            if m is not None:
                v = m
                for p in parts[i:]:
                    v = self.it.getattr(v, p)
                return v
        raise KeyError(dotted)

    def explore(self, scenario, budget=400, secs=60, name="", fresh=True):
        """scenario(it, world, path) -> value.  Returns the list of Path."""
        if fresh:
            self.fresh()
        it = self.it
        out = []
        todo = [[]]
        t0 = time.process_time()
        n = 0
        self.scen += 1
        while todo:
            if n >= budget or time.process_time() - t0 > secs:
                self.truncated.append((name, n, len(todo)))
                break
            prefix = todo.pop()
            n += 1
            it.reset_path(prefix)
            it.mark = None
            p = Path()
            p.exc = p.value = p.why = p.site = None
            p.ops = {}
            p.extra = {}
            p.stack = ()
            p.mark = 0
            try:
                p.value = scenario(it, self, p)
                p.kind = "return"
            except D.Infeasible:
                p.kind = "infeasible"
            except Skip as e:
                p.kind = "skip"
                p.why = str(e)
            except PyExc as e:
                p.kind = "raise" if p.extra.get("marked") else "skip"
                p.exc = e
                p.site = e.site
                p.why = "%s: %s" % (e.name, e.msg)
            except Undecided as e:
                p.kind = "undecided"
                p.why = str(e)
            except (D.Unk, D.Bad) as e:
                p.kind = "undecided"
                p.why = "domain: %s" % e
            except V.Blowup:
                p.kind = "undecided"
                p.why = "value number too large"
            except I.Budget as e:
                p.kind = "undecided"
                p.why = "step budget"
            except RecursionError:
                p.kind = "undecided"
                p.why = "recursion"
            except (I.Return, I.Break, I.Continue):
                p.kind = "undecided"
                p.why = "control flow"
            except I.SymGen:
                p.kind = "undecided"
                p.why = "symbolic generator"
            if p.kind in ("undecided",) and it.site:
                p.site = it.site
            p.events = it.events
            p.facts = it.facts
            p.tape = it.tape
            for i in range(len(it.tape) - 1, len(prefix) - 1, -1):
                c, k, why, site = it.tape[i]
                for alt in range(1, k):
                    todo.append([x for x in it.tape[:i]] + [(alt, k, why, site)])
            if p.kind == "infeasible":
                continue
            if p.kind == "undecided":
                self.undecided.append((name, p.why, I.fmt_site(p.site) if p.site else "?"))
            out.append(p)
        self.paths += n
        self.visited |= {"%s (%s)" % (os.path.relpath(x[0], self.src) if os.path.isabs(str(x[0])) else x[0], x[2])
                         for x in it.visited}
        it.visited.clear()
        return out


def mark(it, p, *ops):
    """The operands exist: from here on the operation is analysed."""
    for label, v in ops:
        it.freeze(v, label, set())
        p.ops[label] = v
    p.mark = len(it.events)
    p.extra["marked"] = True


# ---------------------------------------------------------------------- inputs
def inp(name, nan=False, integer=False, **info):
    a = V.T.get("in", (name,))
    if a.info is None:
        a.info = dict(info)
        a.info["name"] = name
        if nan:
            a.info["nan"] = True
        if integer:
            a.info["int"] = True
    return of_atom(a)


def vec(name, d, kind, dt="f", t="nd", **info):
    """Coordinates name.0 ... of a point ('pt'), length vector ('vec') or direction ('dir')."""
    cells = [inp("%s.%d" % (name, i), kind=kind, idx=i, of=name, integer=(dt == "i"), **info) for i in range(d)]
    r = Arr((d,), cells, t, dt)
    r.buf.label = name
    return r


def pts(name, n, d, kind="pt", dt="f"):
    """n points (n an int, or a symbolic length given as a string)."""
    if isinstance(n, int):
        cells = [inp("%s%d.%d" % (name, r, i), kind=kind, idx=i, of="%s%d" % (name, r), integer=(dt == "i"))
                 for r in range(n) for i in range(d)]
        a = Arr((n, d), cells, "nd", dt)
    else:
        cells = []
        for i in range(d):
            c = inp("%s[i].%d" % (name, i), kind=kind, idx=i, of=name, integer=(dt == "i"))
            at = V.T.atoms[next(iter(c.atoms()))]
            at.rows = frozenset({n})
            c._rows = None
            cells.append(c)
        a = Arr((n, d), cells, "nd", dt)
    a.buf.label = name
    return a


def real(name, kind="len", dt="f", **info):
    return Arr((), [inp(name, kind=kind, integer=(dt == "i"), **info)], "py", dt)


def as_form(a, form, it=None, world=None, cls="Point"):
    """The same coordinates as a list, tuple, array or object."""
    if form == "nd":
        return a
    if form in ("list", "tuple"):
        seq = list if form == "list" else tuple
        if a.ndim == 1:
            return seq(Arr((), [c], "py", a.dt) for c in a.cells)
        d = a.shape[1]
        if isinstance(a.shape[0], str):
            return USeq(seq(Arr((), [c], "py", a.dt) for c in a.cells), a.shape[0], form)
        return seq(seq(Arr((), [c], "py", a.dt) for c in a.cells[i * d:(i + 1) * d]) for i in range(a.shape[0]))
    if form == "obj":
        return it.call(world.cls(cls), [a], {})
    raise KeyError(form)


# ---------------------------------------------------------------------- transformations
def gen_scale():
    def base(a):
        if a.kind != "in":
            return None
        k = (a.info or {}).get("kind")
        if k in ("pt", "vec", "len"):
            return of_atom(a)
        return ZERO
    return D.Gen("scale", base)


def gen_translate(j):
    def base(a):
        if a.kind != "in":
            return None
        i = a.info or {}
        if i.get("kind") == "pt":
            return ONE if i.get("idx") == j else ZERO
        return ZERO
    return D.Gen("translate%d" % j, base)


def gen_rotate(j, k):
    def base(a):
        if a.kind != "in":
            return None
        i = a.info or {}
        if i.get("kind") in ("pt", "vec", "dir"):
            if i["idx"] == j:
                return -sib(a, k)
            if i["idx"] == k:
                return sib(a, j)
        return ZERO

    return D.Gen("rotate%d%d" % (j, k), base)


def sib(a, idx):
    n = a.args[0]
    s = n.rsplit(".", 1)[0] + ".%d" % idx
    b = V.T.get("in", (s,))
    return of_atom(b)


def gen_direction(of):
    """Change of the length of the direction vector `of`."""
    def base(a):
        if a.kind != "in":
            return None
        i = a.info or {}
        if i.get("of") == of:
            return of_atom(a)
        return ZERO
    return D.Gen("length of " + of, base)


def flip_of(of):
    """Parity under reversal of the direction vector `of`."""
    def g(a):
        if a.kind != "in":
            return None
        return -1 if (a.info or {}).get("of") == of else 1
    return g
