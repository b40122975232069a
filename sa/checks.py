"""The properties and the rules that decide them."""
import os
import sys
import re
from suite import *
from judge import *
import judge


class Check:
    level = "other"
    task_secs = 60
    budget = 300
    secs = 50
    assumptions = []
    explanation = ""
    rule = ""

    def tasks(self, thorough):
        raise NotImplementedError

    def run(self, w, task, r):
        raise NotImplementedError

    def explore(self, w, task, r, **k):
        ps = w.explore(scen(task, **k), budget=self.budget, secs=self.secs, name=label(task))
        if w.truncated and w.truncated[-1][0] == label(task):
            r.leave(label(task), "path budget")
            w.truncated.pop()
        for p in ps:
            r.count(**{"paths_" + p.kind: 1})
            if p.kind == "undecided":
                r.leave(label(task), "path undecided: %s at %s" % (p.why, site(p.site)))
        return ps


CHECKS = {}


def check(cls):
    CHECKS[cls.__name__] = cls()
    return cls


def site(s):
    return I.fmt_site(s) if s else "?"


def func(s):
    """file:function of a site (stable under line shifts)."""
    m = re.match(r"(.*?):\d+ \((.*)\)", site(s))
    return "%s:%s" % (m.group(1), m.group(2)) if m else site(s)


def where(p, name="?"):
    """file:line (function) of the operation a path is about."""
    if p.kind == "raise" and p.exc is not None and p.exc.site:
        return site(p.exc.site)
    f = p.extra.get("func")
    if isinstance(f, Bound):
        f = f.func
    f = getattr(f, "fn", f)
    if isinstance(f, FuncV) and f.module is not None and f.node is not None:
        try:
            q = f.module.path
            return "%s:%d (%s)" % (os.path.relpath(q, SRC) if os.path.isabs(q) else q, f.node.lineno, f.name)
        except AttributeError:
            pass
    return name


BASE_ASSUME = [
    "Numpy, scipy and matplotlib operations behave as documented; each is modelled by its effect on value numbers.",
    "Value numbers are compared in exact real arithmetic; floating-point rounding is outside these rules.",
    "Reflection the interpreter does not model leaves the obligation open instead of deciding it.",
]


# ---------------------------------------------------------------------- effects
@check
class C02(Check):
    secs = 30
    rule = ("No path of a public operation writes to an array buffer, list, dict or attribute that is reachable "
            "from an operand.")
    explanation = ("Effect analysis: every public operation, constructor, operator and plot method is interpreted "
                   "abstractly on every feasible path; all memory reachable from the operands is labelled before "
                   "the call, and every store (item assignment, in-place operator, out=, ndarray/list/dict mutators, "
                   "setattr, np.copyto ...) through any alias or view of labelled memory is an obligation.")
    assumptions = BASE_ASSUME

    def tasks(self, thorough):
        return op_tasks() + ctor_tasks() + case_tasks() + plot_tasks() + draw_tasks() + ctor_forms()

    def run(self, w, task, r):
        k = {}
        if len(task) > 3:
            k["form"] = task[3]
        ps = self.explore(w, task, r, **k)
        for p in ps:
            bad = False
            for e in p.events_after():
                if e.kind == "write" and not e.data["label"].startswith(I.STATE):
                    bad = True
                    r.breach("operand-write", task[1], site(e.site), "%s writes to memory of %s (%s)" % (
                        label(task), e.data["label"], e.data["how"]), stack(e))
                elif e.kind == "setattr" and not str(e.data["label"]).startswith(I.STATE):
                    if e.data["old"] is None or e.data["old"] is e.data["new"]:
                        continue      # hidden state is judged by C04
                    bad = True
                    r.breach("operand-setattr", task[1], site(e.site), "%s assigns .%s of %s" % (
                        label(task), e.data["attr"], e.data["label"]), stack(e))
            if not bad and p.kind in ("return", "raise"):
                r.hold()


PART_ACCESS = {"Triangle.point(A)", "Triangle.point(B)", "Triangle.point(C)", "Triangle.multiple(length)(abc)"}


@check
class C03(Check):
    secs = 30
    rule = ("No array, list or object reachable from a result or from a new object is reachable from an operand or from "
            "module, class or default-argument state.")
    explanation = ("May-share-memory analysis: every public operation, constructor (from arrays, lists and objects), operator and "
                   "conversion is interpreted abstractly on every feasible path; all memory that exists before the call is "
                   "labelled; views, slices, asarray, reshape and attribute copies keep the label, copies and arithmetic drop it. "
                   "A labelled buffer reachable from the result is a breach.")
    assumptions = BASE_ASSUME + ["The vertex accessor of a triangle and the attributes of an object are its own parts."]

    def tasks(self, thorough):
        ts = [t for t in op_tasks() + ctor_tasks() + case_tasks() if t[1] not in PART_ACCESS and not t[1].startswith("repr")]
        forms = [t + (f,) for t in op_tasks() if t[1] not in PART_ACCESS and "heavy" not in op_of(t).flags
                 and any(k in ("pt", "vec", "dir", "pts") for k in op_of(t).args) for f in ("obj",)]
        return ts + forms + ctor_forms()

    def run(self, w, task, r):
        k = {"form": task[3]} if len(task) > 3 else {}
        for p in self.explore(w, task, r, **k):
            if p.kind != "return":
                continue
            got = shared(p.value, "the result", set())
            if got:
                name, lab = got
                r.breach("shared-memory", task[1], where(p, task[1]), "%s: %s shares memory with %s" % (
                    label(task), name, lab), branchlog(p))
            else:
                r.hold()


def shared(v, name, seen, depth=0):
    """(part of the result, label of the earlier memory it shares), or None."""
    if id(v) in seen or depth > 8:
        return None
    seen.add(id(v))
    if isinstance(v, Arr):
        if v.shape == () and v.t in ("py", "np"):
            return None
        if v.buf.frozen is not None:
            return name, v.buf.frozen
        parts = (v.attrs or {}).items()
    elif isinstance(v, Obj):
        if v.frozen is not None:
            return name, v.frozen
        parts = v.attrs.items()
    elif isinstance(v, dict):
        parts = list(v.items())
    elif isinstance(v, (list, tuple)):
        parts = [("[%d]" % i, x) for i, x in enumerate(v)]
    elif isinstance(v, USeq):
        parts = [("[i]", v.elem)]
    else:
        return None
    for k, x in parts:
        k = str(k)
        got = shared(x, name + (k if k.startswith("[") else "." + k), seen, depth + 1)
        if got:
            return got
    return None


@check
class C17(Check):
    secs = 25
    rule = "The object an alternative constructor or a copying method returns is an instance of the class it is called on, for an open subclass."
    explanation = ("Type analysis with an open subclass: an empty subclass of every public class is added to the class hierarchy, and "
                   "every class method that builds an object is called on it on every feasible path; the abstract result must be of "
                   "the subclass.")
    assumptions = BASE_ASSUME

    def tasks(self, thorough):
        out = []
        for o in spec.OPS:
            if o.static and o.name.startswith("objects."):
                for d in o.dims:
                    out.append(("op", op_key(o), d))
                    if o.name in ("objects.Line.best_fit", "objects.Plane.best_fit"):
                        out.append(("op", op_key(o), d, "return_error"))
            elif o.name.split(".")[-1] in ("round", "set_dimension"):
                out += [("op", op_key(o), d) for d in o.dims]
        return out

    def run(self, w, task, r):
        o, d = op_of(task), task[2]
        name = o.name.split(".")[1]
        sub = ClassV("Sub" + name, [w.cls(name)], {}, w.cls(name).module, None)
        k = {"cls": {name: sub}}
        if len(task) > 3:
            k["extra"] = {"return_error": True}
        for p in self.explore(w, task, r, **k):
            if p.kind != "return":
                continue
            v = p.value[0] if isinstance(p.value, tuple) and p.value else p.value
            c = v.t if isinstance(v, Arr) else v.cls if isinstance(v, Obj) else None
            if isinstance(v, UnkV):
                r.leave(label(task), "result unknown")
            elif isinstance(c, ClassV) and c.isa(sub):
                r.hold()
            else:
                r.breach("class", task[1], where(p, task[1]), "%s called on a subclass returns %s" % (
                    label(task), "a " + c.name if isinstance(c, ClassV) else str(v)[:60]), branchlog(p))


def stack(e):
    return ["in " + str(x) for x in reversed(e.stack[-6:])] if getattr(e, "stack", None) else []


def ctor_forms():
    return [("ctor", n, d, f) for n in spec.CTORS for d in spec.CTOR_DIMS[n][-1:] for f in ("list", "obj")]


@check
class C04(Check):
    secs = 30
    rule = ("No path of a public operation reads or writes hidden state: caches, globals, class or module attributes, "
            "mutable defaults, randomness, clock, identity, files, or attributes added to an operand.")
    explanation = ("Effect analysis: every public operation, constructor, operator and plot method is interpreted "
                   "abstractly on every feasible path; module- and class-level mutable objects and default arguments "
                   "are labelled as state; every write to them, every memoising decorator, every nondeterministic "
                   "source and every new attribute on an operand is an obligation.")
    assumptions = BASE_ASSUME

    def tasks(self, thorough):
        return op_tasks() + ctor_tasks() + case_tasks() + plot_tasks() + draw_tasks()

    def run(self, w, task, r):
        ps = self.explore(w, task, r)
        for p in ps:
            bad = False
            for e in (p.events if True else ()):
                m = None
                if e.kind == "cache":
                    m = "a memoised result (%s) outlives the call" % e.data.get("what")
                elif e.kind == "global_write":
                    m = "writes %s (%s)" % (e.data.get("name"), e.data.get("where"))
                elif e.kind == "nondet":
                    m = "depends on %s" % e.data.get("what")
                elif e.kind == "io":
                    m = "performs input/output"
                elif e.kind == "write" and e.data["label"].startswith(I.STATE):
                    m = "writes to %s (%s)" % (e.data["label"], e.data["how"])
                elif e.kind == "setattr" and e.data["old"] is None and not str(e.data["label"]).startswith(I.STATE):
                    m = "stores the new attribute .%s on %s" % (e.data["attr"], e.data["label"])
                elif e.kind == "setattr" and str(e.data["label"]).startswith(I.STATE):
                    m = "assigns .%s of %s" % (e.data["attr"], e.data["label"])
                if m:
                    bad = True
                    r.breach("hidden-state", task[1], site(e.site), "%s %s" % (label(task), m), stack(e))
            if not bad and p.kind in ("return", "raise"):
                r.hold()


# ---------------------------------------------------------------------- equivariance
def fp(p):
    a = V.fingerprints(p, 2)
    return tuple(v for _, v in a) if len(a) == 2 else ("poly", p)


def under(p, facts):
    """Rewrite |x| and sign(x) where the path settles the sign of x."""
    def sub(a):
        k = a.kind
        if k in ("abs", "sign"):
            s = facts.signs(a.args[0])
            if s in (D.POS, D.POS | D.ZER):
                return a.args[0] if k == "abs" else (ONE if s == D.POS else None)
            if s in (D.NEG, D.NEG | D.ZER):
                return -a.args[0] if k == "abs" else (-ONE if s == D.NEG else None)
        return None
    return V.substitute(p, sub)


def outcome(it, o, p, d, sub=None):
    """A canonical description of what a path computes (None: not comparable)."""
    if p.kind == "raise":
        return ("raise", p.exc.name)
    if p.kind != "return":
        return None
    v = p.value
    try:
        ss = slots(it, o.result, v, d)
    except Shape:
        return None
    if ss is None:
        if v is None or isinstance(v, (bool, str)):
            return ("const", v)
        return None
    out = []
    for n, role, wt, data in ss:
        flat = data[0] + data[1] if isinstance(data, tuple) else data
        flat = [under(c, p.facts) for c in flat]
        if sub:
            flat = [V.substitute(c, sub) for c in flat]
        out.append(tuple(fp(c) for c in flat))
    if o.result == "(pt,pt)":
        out = sorted(out, key=repr)
    return ("value", tuple(out))


def same_both_sides(it, o, d, ps, p, at):
    """Do the two sides of a decision compute the same?"""
    ch = [x[0] for x in p.tape]
    mine, other = set(), set()
    for q in ps:
        c = [x[0] for x in q.tape]
        if len(c) > at and c[:at] == ch[:at]:
            if q.kind in ("skip",):
                continue
            (mine if c[at] == ch[at] else other).add(outcome(it, o, q, d))
    if None in mine or None in other:
        return None
    return mine == other and len(mine) == 1


class Equivariance(Check):
    motion = None
    strict = False
    assumptions = BASE_ASSUME + [
        "Comparisons with a small absolute tolerance decide only whether a degenerate case is rejected or what a "
        "predicate answers; the answers of predicates near their tolerance are not compared.",
    ]

    def tasks(self, thorough):
        return op_tasks(skip=("heavy",) if not thorough else ())

    def exempt(self, o):
        return is_tolerance

    def run(self, w, task, r):
        o, d = op_of(task), task[2]
        ps = self.explore(w, task, r)
        self.judge(w, o, d, ps, task, r, motions(self.motion, d))

    def judge(self, w, o, d, ps, task, r, mos):
        it = w.it
        for mo in mos:
            if not self.applies(o, mo):
                continue
            for p in ps:
                if p.kind == "return":
                    self.value(w, o, d, ps, p, task, r, mo)
                if p.kind in ("return", "raise"):
                    self.conditions(w, o, d, ps, p, task, r, mo)
                if p.kind == "return":
                    self.answer(w, p, task, r, mo)

    def applies(self, o, mo):
        return True

    def value(self, w, o, d, ps, p, task, r, mo):
        try:
            ss = slots(w.it, o.result, p.value, d)
        except Shape as e:
            r.leave(label(task), "result is %s" % e)
            return
        for s in ss or ():
            s = simplify(s, p.facts)
            v = follows(mo, s)
            if v is True:
                r.hold()
            elif v is False:
                r.breach(self.motion + "-value", task[1], where(p, task[1]), self.words(task, mo, s), branchlog(p))
            else:
                if not self.random(w, o, d, ps, p, task, r, mo):
                    r.leave(label(task), "derivative of the result%s unknown" % s[0])

    def words(self, task, mo, s):
        return "%s: the returned %s%s does not follow a %s of the input" % (
            label(task), role_name(s[1]), s[0], mo.gen.name)

    def conditions(self, w, o, d, ps, p, task, r, mo):
        for e in p.events_after("branch"):
            if not e.data["free"]:
                continue
            c = e.data["cond"]
            v = cond_follows(mo.gen, c, lambda x: False)
            if v is True:
                r.hold()
                continue
            if self.strict and any(fixed_scale(x, mo.gen) for x in leaves(c)):
                r.breach(self.motion + "-tolerance", task[1], site(e.site),
                         "%s: the decision `%s` compares a quantity that has a unit with a fixed number" % (
                             label(task), str(c)[:120]), branchlog(p))
                continue
            # the decision may move: then both sides must agree, or one side only rejects
            if o.result in ("bool", "str", "int", "any") and is_tol_cond(c):
                r.hold()
                continue
            s = same_both_sides(w.it, o, d, ps, p, e.data["at"])
            if s:
                r.hold()
            elif v is False and s is False:
                if is_tol_cond(c) and tolerates(w.it, o, d, ps, p, e.data["at"], c):
                    r.hold()
                    continue
                r.breach(self.motion + "-branch", task[1], site(e.site),
                         "%s: the decision `%s` is changed by a %s of the input and the two sides differ" % (
                             label(task), str(c)[:120], mo.gen.name))
            elif not self.random(w, o, d, ps, p, task, r, mo):
                r.leave(label(task), "decision %s at %s" % (str(c)[:80], site(e.site)))

    def answer(self, w, p, task, r, mo):
        """A comparison that is the result itself."""
        for c in answers(p.value):
            v = cond_follows(mo.gen, c, lambda x: False)
            if v is True:
                r.hold()
            elif self.strict and any(fixed_scale(x, mo.gen) for x in leaves(c)):
                r.breach(self.motion + "-tolerance", task[1], where(p, task[1]), "%s: the answer `%s` compares a quantity that has a unit "
                         "with a fixed number" % (label(task), str(c)[:120]), branchlog(p))
            elif v is False and not is_tol_cond(c):
                r.breach(self.motion + "-value", task[1], where(p, task[1]), "%s: the answer `%s` is changed by a %s of the input" % (
                    label(task), str(c)[:120], mo.gen.name), branchlog(p))
            elif is_tol_cond(c):
                r.hold()
            else:
                at = region.changes_answer(p, c, mo)
                if at:
                    r.breach(self.motion + "-value", task[1], where(p, task[1]), "%s: the answer `%s` is changed by a %s of the input, "
                             "for example at %s" % (label(task), str(c)[:120], mo.gen.name, at), branchlog(p))
                else:
                    r.leave(label(task), "answer %s" % str(c)[:80])

    def random(self, w, o, d, ps, p, task, r, mo):
        """What the derivative leaves open: points of the path and where the motion takes them."""
        k = ("moved", mo.gen.name)
        if k not in p.extra:
            def slots_of(q):
                try:
                    ss = slots(w.it, o.result, q.value, d)
                except Shape:
                    return None
                if ss is None:
                    return ("const", q.value) if q.value is None or isinstance(q.value, (bool, str)) else None
                return list(ss)
            p.extra[k] = region.breaks_motion(ps, p, mo, slots_of, o.result == "(pt,pt)")
        if p.extra[k]:
            r.breach(self.motion + "-value", task[1], where(p, task[1]), "%s: the result does not follow a %s of the input, for "
                     "example at %s" % (label(task), mo.gen.name, p.extra[k]), branchlog(p))
        return p.extra[k]


def answers(v):
    if isinstance(v, Cond):
        return [v]
    if isinstance(v, Arr):
        return [c for c in v.cells if isinstance(c, Cond)]
    if isinstance(v, (tuple, list)):
        return [c for x in v for c in answers(x)]
    return []


def fixed_scale(x, g):
    """A comparison of a quantity that scales with a constant that is not zero."""
    if x.kind == "isclose":
        a, b, rel, ab = x.args
        if ab.const() is None or ab.const() == 0:
            return False
        xs = [y for y in (a, b) if y.t]
    elif x.kind == "cmp":
        k = x.args[1].t.get((), 0)
        if k == 0:
            return False
        xs = [x.args[1] - const(k)]
    else:
        return False
    try:
        rs = [D.ratio(D.deriv(y, g), y) for y in xs]
    except (D.Bad, D.Unk, V.Blowup):
        return False
    return bool(rs) and all(q is not None and q != 0 for q in rs)


def is_tol_cond(c):
    return all(x.kind == "const" or is_tolerance(x) for x in leaves(c))


def tolerates(it, o, d, ps, p, at, cond):
    """One side of a tolerance decision only rejects, or returns nothing the other side does not."""
    ch = [x[0] for x in p.tape]
    mine, other = set(), set()
    for q in ps:
        c = [x[0] for x in q.tape]
        if len(c) > at and c[:at] == ch[:at] and q.kind == "return":
            (mine if c[at] == ch[at] else other).add(outcome(it, o, q, d))
    if None in mine or None in other:
        return True
    if mine <= other or other <= mine:
        return True
    # the two sides agree in the limit the tolerance stands for
    sub = zero_set(cond)
    if sub is None:
        return False
    mine, other = set(), set()
    for q in ps:
        c = [x[0] for x in q.tape]
        if len(c) > at and c[:at] == ch[:at] and q.kind == "return":
            (mine if c[at] == ch[at] else other).add(outcome(it, o, q, d, sub))
    return mine <= other or other <= mine


def zero_set(c):
    """A substitution that puts the inputs on the limit set of a tolerance test."""
    ls = [x for x in leaves(c) if x.kind == "isclose"]
    if len(ls) != 1:
        return None
    return solve(ls[0].args[0] - ls[0].args[1])


def solve(e):
    """A substitution for one input under which e vanishes (None: not found)."""
    if not e.t:
        return lambda a: None
    cc, m, q = V.content(V.unwrap1(e)) if e.t else (0, (), e)
    try:
        q = V.expand(q)
    except V.Blowup:
        return None
    if q.const() is not None and len(m) == 1 and V.T.atoms[m[0][0]].kind == "in":
        return lambda a, i=m[0][0]: V.ZERO if a.id == i else None
    for i in sorted(q.atoms()):
        at = V.T.atoms[i]
        if at.kind != "in":
            continue
        if any(at.args[0] in D.inputs(of_atom(V.T.atoms[j])) for j in q.atoms() if j != i):
            continue
        lin, rest = {}, {}
        deg = set()
        for mm, k in q.t.items():
            dm = dict(mm)
            x = dm.pop(i, 0)
            deg.add(x)
            (lin if x else rest)[tuple(sorted(dm.items()))] = k
        deg.discard(0)
        if deg not in ({1}, {2}):
            continue
        val = V.div(-P(rest), P(lin))
        if deg == {2}:
            if not val.t:
                continue
            val = V.sqrt(val)
        return lambda a, i=i, val=val: val if a.id == i else None
    return None


def role_name(r):
    return {"S": "scalar", "P": "point", "V": "vector", "L": "line", "H": "plane"}[r]


def branchlog(p):
    return ["%s: %s is %s" % (site(e.site), str(e.data["cond"])[:100], e.data["val"])
            for e in p.events_after("branch") if e.data["free"]]


def simplify(s, facts):
    n, role, wt, data = s
    f = lambda xs: [under(x, facts) for x in xs]
    return (n, role, wt, (f(data[0]), f(data[1])) if isinstance(data, tuple) else f(data))


@check
class C09(Equivariance):
    motion = "scale"
    strict = True
    rule = "Along a scaling of all lengths every result follows its own dimension on every path and no decision changes."
    explanation = ("Dimensional homogeneity by value numbering: each result of each public operation is a value number "
                   "over the input coordinates; its derivative along the scaling of all lengths must be k times itself "
                   "(k the dimension of the result), on every abstract path, and every branch condition that separates "
                   "different results must be unchanged.")

    def applies(self, o, mo):
        return "noscale" not in o.flags


@check
class C11(Equivariance):
    motion = "translate"
    rule = "Along a translation of all points, points translate and everything else is unchanged, on every path."
    explanation = ("Translation equivariance by value numbering: the derivative of every result of every public operation "
                   "along the translation of all input points must be the translation (points) or zero (all else).")

    def applies(self, o, mo):
        return "origin" not in o.flags


@check
class C12(Equivariance):
    motion = "rotate"
    rule = "Along a rotation, points and vectors rotate and scalars are unchanged, on every path."
    explanation = ("Rotation equivariance by value numbering: the derivative of every result of every public operation along "
                   "each rotation generator of the input must be that generator applied to the result.")

    def tasks(self, thorough):
        # the numerical search of Cylinder.best_fit starts from fixed directions: C36 says what it finds
        return op_tasks(skip=("heavy", "search") if not thorough else ("search",))

    def applies(self, o, mo):
        return "axes" not in o.flags


@check
class C10(Equivariance):
    motion = "length"
    strict = True
    rule = ("Along a change of the length of a direction, normal or axis operand, every result is unchanged on every path; "
            "reversing it changes at most the sign of signed results.")
    explanation = ("Invariance under the length of direction-like operands by value numbering: the derivative of every result "
                   "along the length of each direction operand must vanish (lines and planes: describe the same set).")

    def tasks(self, thorough):
        return op_tasks(only=lambda o: o.free)

    def run(self, w, task, r):
        o, d = op_of(task), task[2]
        ps = self.explore(w, task, r)
        self.judge(w, o, d, ps, task, r, [Motion("length", gen_direction(l), of=l) for l in o.free])


# ---------------------------------------------------------------------- postconditions
import posts
import region


def vanish(ps, subs=()):
    out = True
    for x in ps:
        for f in subs:
            x = V.substitute(x, f)
        z = V.is_zero(x)
        if z is False:
            return False
        if z is None:
            out = None
    return out


def limits(p):
    """Equations the path assumes (exactly or within a tolerance), solved in order.
    Returns (substitutions, complete)."""
    subs, complete = [], True
    eqs = []
    for e in p.events_after("branch"):
        eqs += limit_eqs(e.data["cond"], e.data["val"], p.facts)
    for i, at in enumerate(list(V.T.atoms)):
        if at is not None and at.kind == "in" and p.facts.signs(of_atom(at)) == D.ZER:
            eqs.append(of_atom(at))
    for e in eqs:
        if e is None:
            complete = False
            continue
        for f in subs:
            e = V.substitute(e, f)
        if V.is_zero(e):
            continue
        f = solve(e)
        if f is None:
            complete = False
        else:
            subs.append(f)
    return subs, complete


def limit_eqs(c, val, facts):
    k = c.kind
    if k == "not":
        return limit_eqs(c.args[0], not val, facts)
    if k == "isclose":
        return [c.args[0] - c.args[1]] if val and not loose(c) else []
    if k == "cmp":
        op, q = c.args
        at = [V.T.atoms[i] for i in q.atoms()]
        if len(at) == 1 and at[0].kind == "rank":
            vecs = at[0].info.get("vecs")
            lo, hi = facts.atom_bounds(at[0])
            if vecs and vecs[0] and hi < min(len(vecs), len(vecs[0])):
                hi = int(hi)
                if hi == 2 and len(vecs) == 3:
                    return [posts.det3(*vecs)]
                return [None]
            return []
        if (op == "==" and val) or (op == "!=" and not val) or q.t and facts.signs(q) == D.ZER:
            return [q]
        return []
    if k == "and":
        if val:
            return [y for x in c.args[0] for y in limit_eqs(x, True, facts)]
        return []
    if k == "or":
        if not val:
            return [y for x in c.args[0] for y in limit_eqs(x, False, facts)]
        return [None] if any(limit_eqs(x, True, facts) for x in c.args[0]) else []
    if k in ("nall", "nany"):
        return limit_eqs(c.args[0], val, facts) if (k == "nall") == val else []
    return []


def boundary_ok(p, eqs):
    """The equations hold on the boundary of one of the path's inequalities (a clamp)."""
    for e in p.events_after("branch"):
        for x in leaves(e.data["cond"]):
            if x.kind == "cmp":
                f = solve(x.args[1])
                if f is not None and vanish(eqs, [f]):
                    return True
    return False


CLEAN = {"in", "poly", "sqrt", "abs", "sign", "nsum", "N", "pi", "acos", "asin", "atan", "atan2", "clip", "max", "min",
         "sin", "cos", "nmax", "nmin"}


def clean(ps, known=()):
    """Only atoms whose relations the identity test knows."""
    return all(a.kind in CLEAN or a.kind in known for x in ps for a in D.atoms_deep(x))


def flat(x):
    if isinstance(x, V.P):
        yield x
    elif isinstance(x, (tuple, list)):
        for y in x:
            yield from flat(y)


class Posts(Check):
    names = ()
    assumptions = BASE_ASSUME + [
        "Equations are checked in the interior of clamps: max(x, 0) and clip(x, lo, hi) stand for x.",
        "On a path guarded by a tolerance the equation is checked in the limit the tolerance stands for.",
    ]

    def tasks(self, thorough):
        return [t for t in op_tasks() if self.key(t) in posts.POSTS and self.wants(OPMAP[t[1]])]

    def key(self, t):
        return spec.post_key(OPMAP[t[1]])

    def wants(self, o):
        n = spec.post_key(o)
        return any(re.search(x + "$", n) for x in self.names)

    def run(self, w, task, r):
        o, d = op_of(task), task[2]
        ps = self.explore(w, task, r)
        good = 0
        for p in ps:
            if p.kind != "return":
                continue
            good += 1
            lim = None
            for fn in posts.POSTS[self.key(task)]:
                try:
                    eqs = fn(w.it, p.value, posts.In(d), o)
                except Shape as e:
                    r.leave(label(task), "result is %s" % e)
                    continue
                if not eqs:
                    r.leave(label(task), "the result has an unexpected form")
                for name, body in eqs:
                    self.equation(w, o, d, task, p, name, body, r)
                self.precision(o, task, p, eqs, r)
        if not good:
            r.leave(label(task), "no returning path")

    def precision(self, o, task, p, eqs, r):
        """A result that is rounded, or computed in a narrower type, is off by more than rounding errors."""
        if "round" in o.flags:
            return
        for e in p.events_after("lowprec"):
            r.breach("narrowed", func(e.site), site(e.site), "%s: values are cast to %s" % (label(task), e.data["dtype"]), branchlog(p))
        ps = [b for _, body in eqs for b in flat(body)]
        cut = {a for x in ps for a in D.atoms_deep(x) if a.kind == "round" and a.args[1].const() is not None}
        for e in p.events_after("round") if cut else ():
            if e.data["digits"].const() is not None:
                r.breach("rounded", func(e.site), site(e.site), "%s: the result is rounded to %s digits" % (
                    label(task), e.data["digits"]), branchlog(p))

    def equation(self, w, o, d, task, p, name, body, r):
        tidy = lambda xs: [posts.unmax(under(x, p.facts)) for x in xs]
        try:
            if name == "nonneg":
                s = p.facts.signs(body)
                if not s & D.NEG:
                    r.hold()
                elif s == D.NEG or can_flip(body):
                    r.breach("postcondition", task[1], where(p, task[1]), "%s: the result can be negative" % label(task),
                             branchlog(p))
                elif region.wrong(p, lambda pt: region.clear_sign(pt, body) == -1):
                    r.breach("postcondition", task[1], where(p, task[1]), "%s: the result is negative at sampled points" % label(task),
                             branchlog(p))
                else:
                    r.leave(label(task), "sign of the result")
                return
            if isinstance(body, tuple) and body[0] == "notzero":
                z = vanish(body[1])
                if z is True and not limits(p)[0] and limits(p)[1]:
                    r.breach("postcondition", task[1], where(p, task[1]), "%s: both points are the same" % label(task),
                             branchlog(p))
                    return
                at = region.same_point(p, body[1], body[2]) if body[2] and (z is not False or limits(p)[0]) else None
                if at:
                    r.breach("postcondition", task[1], where(p, task[1]), "%s: both points are the same, for example at %s" % (
                        label(task), at), branchlog(p))
                else:
                    r.hold()
                return
            if isinstance(body, tuple) and body[0] == "sign":
                return self.sign(p, task, body[1], body[2], r)
            if isinstance(body, tuple) and body[0] == "ratio+":
                k = V.small_ratio(posts.unmax(body[1]), body[2])
                if k is None:
                    s = p.facts.signs(V.div(body[1], body[2]))
                    k = 1 if s == D.POS else -1 if s == D.NEG else None
                at = region.wrong(p, lambda pt: (region.clear_sign(pt, body[1]) or 0) * (region.clear_sign(pt, body[2]) or 0) < 0) \
                    if k is None else None
                if at:
                    r.breach("postcondition", task[1], where(p, task[1]), "%s: opposite sense, for example at %s" % (label(task), at))
                elif k is None:
                    r.leave(label(task), name)
                elif k > 0:
                    r.hold()
                else:
                    r.breach("postcondition", task[1], where(p, task[1]), "%s: opposite sense" % label(task))
                return
            if isinstance(body, tuple) and body[0] == "within":
                at = region.wrong(p, lambda pt: any(region.clear_sign(pt, x) == -1 for x in body[1]), secs=1.0)
                if at:
                    r.breach("postcondition", task[1], where(p, task[1]), "%s: not true that %s, for example at %s" % (
                        label(task), name, at), branchlog(p))
                else:
                    r.hold()
                return
            if isinstance(body, tuple) and body[0] == "sampled":
                at = None if vanish(body[1]) is True else region.differs(p, [body[1]])
                if at:
                    r.breach("postcondition", task[1], self.where(p, o), "%s: not satisfied: %s (for example at %s)" % (
                        label(task), name, at), branchlog(p))
                elif vanish(body[1]) is True:
                    r.hold()
                else:
                    r.leave(label(task), name + " (no counterexample at sampled points)")
                return
            alts = list(body[1]) if isinstance(body, tuple) and body[0] == "alt" else [body]
            v = False
            subs = None
            for a in alts:
                z = vanish(a)
                if z is not True:
                    z = vanish(tidy(a))
                if z is not True:
                    if subs is None:
                        subs, complete = limits(p)
                    if subs or not complete:
                        z2 = vanish(tidy(a), subs) if subs else False
                        if z2 is True:
                            z = True
                        elif not complete:
                            z = None
                        elif z2 is None:
                            z = None
                if z is False and (not clean(a) or boundary_ok(p, tidy(a))):
                    z = None
                if z is True:
                    v = True
                    break
                if z is None:
                    v = None
            if v is True:
                r.hold()
            elif v is False:
                r.breach("postcondition", task[1], self.where(p, o), "%s: not satisfied: %s" % (
                    label(task), name), branchlog(p))
            else:
                at = region.differs(p, alts)
                if at:
                    r.breach("postcondition", task[1], self.where(p, o), "%s: not satisfied: %s (for example at %s)" % (
                        label(task), name, at), branchlog(p))
                else:
                    r.leave(label(task), name)
        except ZeroDivisionError:
            r.leave(label(task), name)

    def where(self, p, o):
        return where(p, o.name)

    def sign(self, p, task, x, e, r):
        c = x.const()
        s = p.facts.signs(under(e, p.facts))
        if c is not None:
            want = {D.POS: 1, D.NEG: -1, D.ZER: 0}.get(s)
            if want is None:
                self.side(p, task, x, e, r, "side under an unsettled sign")
            elif want == c:
                r.hold()
            else:
                r.breach("postcondition", task[1], where(p, task[1]), "%s: the wrong side" % label(task), branchlog(p))
            return
        if len(x.t) == 1:
            (m, k), = x.t.items()
            if len(m) == 1 and m[0][1] == 1 and V.T.atoms[m[0][0]].kind == "sign":
                y = V.T.atoms[m[0][0]].args[0]
                q = V.small_ratio(y, e)
                if q is None:
                    q = {D.POS: 1, D.NEG: -1}.get(p.facts.signs(V.div(y, e)))
                if q is not None:
                    if (q > 0) == (k > 0) and abs(k) == 1:
                        r.hold()
                    else:
                        r.breach("postcondition", task[1], where(p, task[1]), "%s: the wrong side" % label(task))
                    return
        self.side(p, task, x, e, r, "side of an unexpected form")

    def side(self, p, task, x, e, r, why):
        at = region.wrong_sign(p, x, e)
        if at:
            r.breach("postcondition", task[1], where(p, task[1]), "%s: the wrong side, for example at %s" % (label(task), at), branchlog(p))
        else:
            r.leave(label(task), why)


def can_flip(x):
    """Negating one operand's coordinates negates x."""
    names = {n.rsplit(".", 1)[0] for n in D.inputs(x)}
    for n in names:
        try:
            if D.parity(x, flip_of(n)) == -1:
                return True
        except (D.Bad, D.Unk):
            pass
    return False


@check
class C30(Posts):
    names = ("project_point", "project_points", "project_vector", "project_line")
    rule = "Every projection lies on its object and its offset is perpendicular, as an identity between value numbers."
    explanation = ("Value-number identities: on every abstract path of every projection the returned coordinates satisfy "
                   "the equations that define the projection.")


@check
class C31(Posts):
    names = ("intersect_line", "intersect_plane", "intersect_circle", "intersect_line_segment", "intersect_line#finite")
    rule = "Every intersection satisfies the equations of both operands, as an identity between value numbers."
    explanation = ("Value-number identities: on every abstract path of every intersection the returned coordinates satisfy "
                   "the equations of both operands.")


@check
class C32(Posts):
    names = (r"distance_\w+", r"angle\w*", r"angle_\w+", "cosine_similarity", r"side_\w+", "scalar_projection", "norm", "unit",
             "cross", r"transform_\w+", "sum_squares", "length", "normalize_distance", "mean_center")
    rule = "Every distance, angle, side and coordinate equals its definition, as an identity between value numbers."
    explanation = ("Value-number identities: on every abstract path the returned scalar equals the geometric definition.")


@check
class C33(Posts):
    names = (r"area\w*", r"area_signed#\d", r"volume\w*", "circumference", "surface_area", "lateral_surface_area", "perimeter",
             "centroid", "orthocenter", "altitude", "Triangle.line", "Triangle.normal", "Triangle.point", "Triangle.multiple")
    rule = "Every area, volume, length and triangle centre equals its closed form, as an identity between value numbers."
    explanation = ("Value-number identities: on every abstract path the returned measure equals its closed form.")


@check
class C34(Posts):
    names = (r"from_\w+", r"from_\w+#flat", r"to_\w+", r"to_mesh#\w+", "cartesian", "best_fit")
    rule = "Every object built from data satisfies the data, as an identity between value numbers."
    explanation = ("Value-number identities: on every abstract path the constructed object contains the data it is built from.")


import fits


@check
class C36(Check):
    budget = 16
    secs = 45
    task_secs = 200
    explanation = ("Random interpretation of value numbers: the abstract paths of every best_fit are explored with the numerical solver uninterpreted; at random "
                   "points of each returning path's region the value numbers of the result are compared with the definition of the fit.")
    rule = ("At every sampled point of every returning path the fitted object is the one its definition gives: centroid and direction of greatest or least variance, "
            "algebraic circle fit, root mean square distance.")
    assumptions = BASE_ASSUME + [
        "The singular value decomposition, the linear least-squares solution and the minimum stand for the exact solution of the system they are given; "
        "the minimising direction of a cylinder fit is arbitrary.",
        "Point sets whose spectrum has nearly equal values are not sampled: the fit is not determined there.",
    ]

    def tasks(self, thorough):
        return list(fits.TASKS)

    def run(self, w, task, r):
        d = task[2]
        ps = w.explore(scen(("op", task[1], d)), budget=self.budget, secs=self.secs, name=label(task))
        if w.truncated and w.truncated[-1][0] == label(task):
            w.truncated.pop()
            r.count(bounded=1)
        good = 0
        for p in ps:
            r.count(**{"paths_" + p.kind: 1})
            if p.kind == "undecided":
                r.leave(label(task), "path undecided: %s at %s" % (p.why, site(p.site)))
            if p.kind != "return":
                continue
            good += 1
            for e in p.events_after("cutoff"):
                r.breach("cutoff", func(e.site), site(e.site), "%s: singular values below %g of the largest are dropped from the solution" % (
                    label(task), e.data["value"]), branchlog(p))
            if region.narrow(p):
                r.count(paths_of_equality=1)
                continue
            try:
                duties = fits.duties(w.it, task[1], p.value, d, p)
            except Shape as e:
                r.leave(label(task), "result is %s" % e)
                continue
            for t, (ok, bad, at) in fits.check(p, d, duties, 20 if self.secs < 100 else 60).items():
                if bad >= 2:
                    r.breach("fit", task[1], where(p, task[1]), "%s: not true that %s, for example at %s" % (label(task), t, at), branchlog(p))
                elif not bad and ok >= 2:
                    r.hold()
                    r.count(points=ok)
                else:
                    r.leave(label(task), "%s: %d points agree, %d do not" % (t, ok, bad))
        if not good:
            r.leave(label(task), "no returning path")


# ---------------------------------------------------------------------- pairs of calls
import pairs
import linear


class PairCheck(Check):
    strict = False
    secs = 25
    known = ()
    group = ()

    def tasks(self, thorough):
        return [("pair", n, d) for n, pr in pairs.PAIRS.items() if pr.group in self.group for d in pr.dims]

    def run(self, w, task, r):
        if task[0] != "pair":
            return self.other(w, task, r)
        pr = pairs.PAIRS[task[1]]
        d = task[2]
        ps = w.explore(pairs.scen(pr, d), budget=self.budget, secs=self.secs, name=label(task))
        self.judge_pair(w, pr.name, pr.rel, d, ps, task, r)

    def judge_pair(self, w, name, rel, d, ps, task, r, rule="agreement", types=False):
        if w.truncated and w.truncated[-1][0] == label(task):
            r.leave(label(task), "path budget")
            w.truncated.pop()
        done = 0
        partial = rel.endswith("/2")
        rel = rel.split("/")[0]
        for p in ps:
            r.count(**{"paths_" + p.kind: 1})
            if p.kind == "undecided":
                r.leave(label(task), "path undecided: %s at %s" % (p.why, site(p.site)))
            if p.kind != "return":
                continue
            a, b = p.value
            second = [e for e in p.events[p.extra["mid"]:] if e.kind == "branch" and e.data["free"]]
            soft = [e for e in second if not hard(e.data["cond"])]
            done += 1
            if partial and a.kind == "return" and b.kind == "raise" and b.value.name == "ValueError":
                continue                              # the second call is documented not to exist there
            if a.kind != b.kind or (a.kind == "raise" and a.value.name != b.value.name):
                if second and (soft or a.kind != b.kind):
                    # one of the calls took a decision the other did not: both must be
                    # able to agree in the limit the tolerance stands for
                    if self.strict and linear.feasible(p) is not None:
                        if linear.feasible(p):
                            x = a if a.kind == "raise" else b
                            r.breach(rule, task[1], site(x.value.site), "%s: one call raises %s, the other %s" % (
                                label(task), x.value.name, "returns" if a.kind != b.kind else "raises " + b.value.name), branchlog(p))
                        else:
                            r.hold()
                        continue
                    at = region.reachable(p)
                    if at:
                        x = a if a.kind == "raise" else b
                        r.breach(rule, task[1], site(x.value.site), "%s: one call raises %s, the other %s, for example at %s" % (
                            label(task), x.value.name, "returns" if a.kind != b.kind else "raises " + b.value.name, at), branchlog(p))
                        continue
                    r.leave(label(task), "rejection depends on separate decisions: %s" % "; ".join(
                        str(e.data["cond"])[:60] for e in second[:2]))
                    continue
                x = a if a.kind == "raise" else b
                r.breach(rule, task[1], site(x.value.site), "%s: one call raises %s, the other %s" % (
                    label(task), x.value.name, "returns" if a.kind != b.kind else "raises " + b.value.name), branchlog(p))
                continue
            if a.kind == "raise":
                r.hold()
                continue
            tidy = lambda x: posts.unmax(under(x, p.facts))
            try:
                if rel == "same":
                    z, m = pairs.same(w.it, a.value, b.value, tidy, types)
                else:
                    z, m = pairs.compare(w.it, a.value, b.value, rel, tidy, d)
            except Shape as e:
                z, m = None, str(e)
            if z is True:
                r.hold()
                continue
            if z is False:
                subs, complete = limits(p)
                if subs or not complete:
                    def tidy2(x):
                        x = tidy(x)
                        for f in subs:
                            x = V.substitute(x, f)
                        return x
                    try:
                        if rel == "same":
                            z2, m2 = pairs.same(w.it, a.value, b.value, tidy2, types)
                        else:
                            z2, m2 = pairs.compare(w.it, a.value, b.value, rel, tidy2, d)
                    except ZeroDivisionError:
                        z2 = None
                    if z2 is True:
                        r.hold()
                        continue
                    if z2 is None or not complete:
                        z = None
            if z is False and (soft or not clean(polys_of(a.value) + polys_of(b.value), self.known)):
                z = None
            if z is False:
                r.breach(rule, task[1], self.site_of(p, w), "%s does not hold: %s" % (label(task), m), branchlog(p))
                continue
            diffs = pairs.differences(w.it, a.value, b.value, rel, d)
            at = region.differs(p, diffs) if diffs else None
            if at:
                r.breach(rule, task[1], self.site_of(p, w), "%s does not hold, for example at %s" % (label(task), at), branchlog(p))
            else:
                r.leave(label(task), m)
        if not done:
            r.leave(label(task), "no path reaches both calls")

    def site_of(self, p, w):
        return where(p)


def hard(c):
    return all(x.kind in ("cmp", "const") and not is_tolerance(x) for x in leaves(c))


def polys_of(v):
    if isinstance(v, Arr):
        return [c for c in v.cells if isinstance(c, P)]
    if isinstance(v, (tuple, list)):
        return [c for x in v for c in polys_of(x)]
    if isinstance(v, Obj):
        return [c for x in v.attrs.values() for c in polys_of(x)]
    return []


@check
class C24(PairCheck):
    group = ("batch",)
    rule = "Each row of a batch result has the same value number as the scalar operation on that row; sibling operations agree."
    explanation = ("Product exploration: two operations that must agree are interpreted on the same abstract operands along one "
                   "path, so that every decision of the second is taken under the facts of the first, and the value numbers "
                   "of their results are compared.")
    assumptions = BASE_ASSUME


@check
class C29(PairCheck):
    group = ("symmetry", "reversal")
    strict = True
    rule = "Exchanging the operands or reversing a direction gives the same value number (or its negative where signed)."
    explanation = C24.explanation
    assumptions = BASE_ASSUME


# ---------------------------------------------------------------------- families with a known outcome
import expect
import expect2, unequal


class Families(Check):
    group = ()
    assumptions = BASE_ASSUME + [
        "A family is decided when every abstract path agrees, or when the path that disagrees took no decision "
        "that the family leaves open.",
    ]

    def tasks(self, thorough):
        return [("fam", n, d) for n, f in expect.FAMS.items() if f.group in self.group for d in f.dims]

    def run(self, w, task, r):
        fm = expect.FAMS[task[1]]
        ps = w.explore(expect.scen_fam(fm, task[2]), budget=self.budget, secs=self.secs, name=label(task))
        self.judge_family(w, fm, ps, task, r)

    def judge_family(self, w, fm, ps, task, r):
        want = fm.want
        live = [p for p in ps if p.kind in ("return", "raise")]
        good, bad = [], []
        for p in ps:
            r.count(**{"paths_" + p.kind: 1})
            if p.kind == "undecided":
                r.leave(label(task), "path undecided: %s at %s" % (p.why, site(p.site)))
        for p in live:
            if isinstance(want, bool) and p.kind == "return" and not isinstance(truth(w.it, p.value, p.facts), (bool, int, str)):
                r.leave(label(task), "answer unsettled: %s" % str(p.value.cells[0] if isinstance(p.value, Arr) else p.value)[:90])
                continue
            (good if self.meets(w, want, p) else bad).append(p)
        if not good and not bad:
            r.leave(label(task), "no path: %s" % "; ".join(sorted({str(p.why) for p in ps})))
            return
        r.hold(len(good))
        for p in bad:
            soft = [e for e in p.events_after("branch") if e.data["free"]]
            close = [e for e in soft if near(e.data["cond"], e.data["val"], p.facts)]
            wide = [e for e in close if any(loose(x) for x in leaves(e.data["cond"]))]
            if close and not wide:
                r.count(paths_within_tolerance=1)
                continue
            if wide:
                r.breach("outcome", task[1], where(p), "%s: the answer of distinct inputs is settled by a tolerance far wider "
                         "than rounding: %s" % (label(task), str(wide[0].data["cond"])[:90]), branchlog(p))
                continue
            if good and not all(generic(e, p.facts) for e in soft):
                at = region.reachable(p)
                if not at and any(region.within(e) for e in soft):
                    r.count(paths_within_tolerance=1)
                    continue
                if not at:
                    r.leave(label(task), "depends on %s" % "; ".join(str(e.data["cond"])[:300] for e in soft[-2:]))
                    continue
            got = "raises %s (%s)" % (p.exc.name, p.exc.msg) if p.kind == "raise" else "returns %s" % str(p.value)[:80]
            r.breach("outcome", task[1], where(p), "%s: expected %s, but it %s" % (
                label(task), "an error (%s)" % want if isinstance(want, str) else want, got), branchlog(p))

    def meets(self, w, want, p):
        if isinstance(want, tuple) and want[0] == "is":
            return p.kind == "return" and type(p.value) is type(want[1]) and p.value == want[1]
        if isinstance(want, str) or isinstance(want, tuple):
            return p.kind == "raise" and p.exc.name in ((want,) if isinstance(want, str) else want)
        return p.kind == "return" and truth(w.it, p.value, p.facts) is want


def generic(e, facts):
    """A tolerance or rank decision taken the way inputs in general position take it."""
    c, val = e.data["cond"], e.data["val"]
    for x in leaves(c):
        if x.kind == "isclose":
            d = x.args[0] - x.args[1]
            if V.is_zero(d) is not False or not clean([d]) or piecewise(d):
                return False
        elif x.kind == "cmp":
            if not all(V.T.atoms[i].kind == "rank" for i in x.args[1].atoms()):
                return False
        elif x.kind != "const":
            return False
    return degenerate_condition(c, val, facts) is False


def piecewise(p):
    """A value which is one thing here and another there (a maximum may well be one of its arguments)."""
    return any(a.kind in ("max", "min", "clip", "abs", "sign") for a in D.atoms_deep(p))


def loose(x):
    """A tolerance written into the code that rounding errors cannot justify."""
    if x.kind != "isclose":
        return False
    rel, ab = x.args[2].const(), x.args[3].const()
    return (rel is not None and rel > 1e-5) or (ab is not None and ab > 1e-6)


def near(c, val, facts):
    """The decision takes values to be equal that the family keeps apart."""
    k = c.kind
    if k == "not":
        return near(c.args[0], not val, facts)
    if k == "isclose":
        return val and not facts.signs(c.args[0] - c.args[1]) & D.ZER
    if k == "and":
        return val and any(near(x, True, facts) for x in c.args[0])
    if k == "or":
        return val and all(near(x, True, facts) for x in c.args[0])
    if k in ("nall", "nany"):
        return near(c.args[0], val, facts)
    return False


def truth(it, v, facts):
    if isinstance(v, bool):
        return v
    if isinstance(v, Arr) and v.shape == () and v.dt == "b":
        v = v.cells[0]
    if isinstance(v, Cond):
        it.facts = facts
        return it.known(v)
    return v


@check
class C01(Families):
    explanation = 'Families with a known outcome: each documented kind of invalid input (wrong number of axes, empty, NaN or infinite entry, ragged rows, zero direction, negative/zero/NaN radius, unequal dimensions, coinciding or collinear points ...) is built as a symbolic operand whose coordinates are free except for the defect; the constructor is interpreted on every feasible path and a path that returns an object, or raises something other than ValueError, is a breach.'
    group = ("ctor",)
    rule = "Every constructor rejects every family of invalid input with a ValueError on every path."


@check
class C05(Families):
    explanation = 'Families with a known outcome: operands are built symbolically in the degenerate configuration (parallel, coplanar, collinear, zero, disjoint ...) for free coordinates; every feasible path of the operation must raise ValueError. Paths that exist only within the tolerance of a comparison are not judged.'
    group = ("degenerate", "zero")
    rule = "Every operation rejects every family of degenerate input with the documented error on every path."


# ---------------------------------------------------------------------- acceptance
OPEN_REJECT = {"Line.intersect_line", "LineSegment.intersect_line_segment", "Circle.intersect_circle", "Circle.intersect_line",
               "Sphere.intersect_line", "Cylinder.intersect_line", "Cylinder.intersect_line#finite",
               "Vector.angle_signed_3d"}


def degenerate_condition(c, val, facts):
    """Does the decision confine the input to a set without interior (up to a tolerance)?"""
    k = c.kind
    if k == "not":
        return degenerate_condition(c.args[0], not val, facts)
    if k == "isclose":
        return val
    if k == "cmp":
        op, q = c.args
        if any(V.T.atoms[i].kind == "rank" for i in q.atoms()):
            at = [V.T.atoms[i] for i in q.atoms() if V.T.atoms[i].kind == "rank"][0]
            lo, hi = facts.atom_bounds(at)
            top = (at.info or {}).get("hi")
            return top is None or not isinstance(hi, (int, float)) or hi < top
        if (op == "==" and val) or (op == "!=" and not val):
            return True
        if facts.signs(q) == D.ZER:
            return True
        if any(V.T.atoms[i].kind == "N" for i in q.atoms()):
            return False
        if is_tolerance_atom(q):
            return True
        return False
    if k == "and":
        if val:
            return any(degenerate_condition(x, True, facts) for x in c.args[0])
        return all(degenerate_condition(x, False, facts) for x in c.args[0])
    if k == "or":
        if not val:
            return any(degenerate_condition(x, False, facts) for x in c.args[0])
        return all(degenerate_condition(x, True, facts) for x in c.args[0])
    if k in ("nall", "nany"):
        return degenerate_condition(c.args[0], val, facts)
    return None


def is_tolerance_atom(q):
    """|x| compared with a small constant."""
    c = abs(float(q.t.get((), 0)))
    return 0 < c <= 1e-3


MIN_POINTS = {"Circle.best_fit": 3, "Sphere.best_fit": 4, "Cylinder.best_fit": 6, "Plane.best_fit": 3, "Line.best_fit": 2,
              "measurement.area_signed": 3}


def too_few(p, key):
    """The path has fewer points than the operation needs."""
    at = V.T.get("N", ("N",))
    lo, hi = p.facts.atom_bounds(at)
    need = max([n for k, n in MIN_POINTS.items() if re.match(re.escape(k) + r"(\W|$)", key)] or [1])
    return hi is not None and hi < need


@check
class C08(Check):
    gen = gen_scale()
    explanation = 'Every rejecting path of every public operation is enumerated; the facts on the path must contain an equality, a passed tolerance test or a rank deficiency between quantities of the operands. A path that rejects under inequalities only (an open region of valid inputs) is a breach.'
    rule = ("An operation rejects its operands only on a path that confines them to a degenerate set (an equality, a tolerance "
            "test or a rank deficiency holds), unless it is documented to fail on whole regions.")
    assumptions = BASE_ASSUME

    def tasks(self, thorough):
        return op_tasks(skip=("heavy",)) + ctor_tasks() + case_tasks() + plot_tasks()

    def run(self, w, task, r):
        ps = self.explore(w, task, r)
        op = task[0] == "op"
        key = spec.post_key(OPMAP[task[1]]) if op else str(task[1])
        free = any(re.match(re.escape(k) + r"(\W|$)", key) for k in OPEN_REJECT)
        if not any(p.kind in ("return", "undecided") for p in ps) and any(p.kind == "raise" for p in ps):
            p = [q for q in ps if q.kind == "raise"][0]
            r.breach("never-returns", task[1], site(p.exc.site), "%s raises %s on every path: %s" % (
                label(task), p.exc.name, p.exc.msg))
            return
        for p in ps:
            if p.kind == "return":
                r.hold()
            if p.kind != "raise":
                continue
            es = list(p.events_after("branch"))
            ds = [degenerate_condition(e.data["cond"], e.data["val"], p.facts) for e in es]
            why = [e for e, x in zip(es, ds) if x]
            if why and all(any(fixed_scale(x, self.gen) for x in leaves(e.data["cond"])) for e in why):
                r.breach("fixed-tolerance", task[1], site(why[-1].site), "%s raises %s where `%s`, which compares a quantity that has a "
                         "unit with a fixed number: valid operands of small size are rejected" % (
                             label(task), p.exc.name, str(why[-1].data["cond"])[:120]), branchlog(p))
            elif why or too_few(p, key):
                r.hold()
            elif None in ds:
                r.leave(label(task), "rejection under %s" % "; ".join(branchlog(p)[-1:]))
            elif free:
                r.hold()
            else:
                r.breach("rejects-valid", task[1], site(p.exc.site), "%s raises %s (%s) on a whole region of valid input" % (
                    label(task), p.exc.name, p.exc.msg), branchlog(p))


@check
class C18(Families):
    explanation = 'Exception-flow analysis: every exception that escapes a public operation on a feasible path, for valid operands and for every invalid or degenerate family, is an obligation on its class (ValueError family, or TypeError for arguments of a foreign type).'
    group = ("ctor", "degenerate", "zero", "foreign", "member", "segments", "axes")
    rule = "No exception other than ValueError or TypeError leaves a public operation on any path."
    ok = {"ValueError", "TypeError", "AxisError"}     # numpy's AxisError is a ValueError

    def tasks(self, thorough):
        return (op_tasks(skip=("heavy",)) + ctor_tasks() + case_tasks() + plot_tasks() + Families.tasks(self, thorough))

    def run(self, w, task, r):
        if task[0] == "fam":
            fm = expect.FAMS[task[1]]
            ps = w.explore(expect.scen_fam(fm, task[2]), budget=self.budget, secs=self.secs, name=label(task))
            if fm.group == "foreign":
                return self.judge_family(w, fm, ps, task, r)
        else:
            ps = self.explore(w, task, r)
        for p in ps:
            if p.kind == "return":
                r.hold()
            if p.kind != "raise":
                continue
            if p.exc.name in self.ok:
                r.hold()
            else:
                r.breach("exception", task[1], site(p.exc.site), "%s can raise %s: %s" % (label(task), p.exc.name, p.exc.msg),
                         branchlog(p))


# ---------------------------------------------------------------------- types of results
class Wrong(Exception):
    pass


def type_of(it, w, kind, v, d, dim_of=None):
    """Raise Wrong if a result is not of its documented type."""
    if kind.startswith("("):
        ks = kind[1:-1].split(",")
        if isinstance(v, UnkV):
            raise Shape("unknown")
        if not isinstance(v, tuple) or len(v) != len(ks):
            raise Wrong("not a tuple of %d" % len(ks))
        for k, x in zip(ks, v):
            type_of(it, w, k, x, d)
        return
    base, _, wt = kind.partition("^")
    if isinstance(v, (UnkV, OpaqueObj)):
        raise Shape("unknown")
    want = {"pt": "Point", "vec": "Vector", "unit": "Vector", "pts": "Points", "pts*": "Points", "vecs": "Points",
            "ratios": "Points"}.get(base)
    objs = {"line": "Line", "linefoot": "Line", "plane": "Plane", "circle": "Circle", "sphere": "Sphere",
            "cylinder": "Cylinder"}.get(base)
    if want:
        if not isinstance(v, Arr) or not isinstance(v.t, ClassV):
            raise Wrong("%s instead of a %s" % (kind_word(v), want))
        if not any(c is w.cls(want) for c in mro_of(v.t)):
            raise Wrong("a %s instead of a %s" % (v.t.name, want))
        nd = 2 if want == "Points" else 1
        if v.ndim != nd:
            raise Wrong("%d-dimensional array" % v.ndim)
        check_dimension(it, v, v.shape[-1], want)
        n = 3 if (kind == "vec^2") else d
        if v.shape[-1] != n:
            raise Wrong("%s coordinates instead of %s" % (v.shape[-1], n))
        return
    if objs:
        if not isinstance(v, Obj):
            raise Wrong("%s instead of a %s" % (kind_word(v), objs))
        if not any(c is w.cls(objs) for c in mro_of(v.cls)):
            raise Wrong("a %s instead of a %s" % (v.cls.name, objs))
        check_dimension(it, v, d, objs)
        for a, k in {"Line": (("point", "pt"), ("direction", "vec")), "Plane": (("point", "pt"), ("normal", "vec")),
                     "Circle": (("point", "pt"),), "Sphere": (("point", "pt"),),
                     "Cylinder": (("point", "pt"), ("vector", "vec"))}[objs]:
            try:
                x = it.getattr(v, a)
            except PyExc:
                raise Wrong("no attribute ." + a)
            try:
                type_of(it, w, k, x, d)
            except Wrong as e:
                raise Wrong(".%s is %s" % (a, e))
        return
    if base in ("len", "angle", "ratio"):
        if isinstance(v, bool) or not isinstance(v, (int, float, Arr)):
            raise Wrong("%s instead of a number" % kind_word(v))
        if isinstance(v, Arr):
            if v.shape != () or v.t not in ("np", "py"):
                raise Wrong("%s instead of a number" % kind_word(v))
            if v.dt not in ("f", "i"):
                raise Wrong("dtype %s" % v.dt)
        return
    if base == "lens":
        if not isinstance(v, Arr) or v.ndim != 1:
            raise Wrong("%s instead of one number per point" % kind_word(v))
        return
    if base == "bool":
        if isinstance(v, bool) or isinstance(v, Arr) and v.shape == () and v.dt == "b":
            return
        raise Wrong("%s instead of a bool" % kind_word(v))
    if base == "int":
        if isinstance(v, bool):
            raise Wrong("a bool instead of an int")
        if isinstance(v, int) or isinstance(v, Arr) and v.shape == () and v.dt == "i":
            return
        raise Wrong("%s instead of an int" % kind_word(v))
    if base == "str":
        if isinstance(v, str):
            return
        raise Wrong("%s instead of a str" % kind_word(v))
    if base == "mesh":
        if not isinstance(v, tuple) or len(v) != 3 or not all(isinstance(x, Arr) and x.ndim == 2 for x in v):
            raise Wrong("not three 2D grids")
        return
    raise Shape("nothing specified for %s" % kind)


def kind_word(v):
    if v is None:
        return "None"
    if isinstance(v, Arr):
        return "a %s with shape %s" % (v.t.name if isinstance(v.t, ClassV) else {"nd": "plain array", "np": "numpy scalar", "py": "number"}.get(v.t, v.t), v.shape)
    if isinstance(v, Obj):
        return "a " + v.cls.name
    return type(v).__name__


def mro_of(c):
    return c.mro


def check_dimension(it, v, n, what):
    try:
        x = it.getattr(v, "dimension")
    except PyExc:
        raise Wrong("a %s without a dimension" % what)
    if isinstance(x, Arr) and x.shape == () and isinstance(x.cells[0], P) and x.cells[0].const() is not None:
        x = int(x.cells[0].const())
    if isinstance(x, int) and x != n:
        raise Wrong("a %s of %d coordinates whose dimension is %d" % (what, n, x))


EXTRA_TYPES = {
    "Point.round": "self", "Vector.round": "self", "Points.round": "self",
    "Point.to_array": "nd", "Vector.to_array": "nd", "Points.to_array": "nd",
    "Point.set_dimension": "self", "Vector.set_dimension": "self", "Points.set_dimension": "self",
    "Vector.different_direction": "vec", "Line.from_slope": "line", "Points.unique": "pts",
}
CASE_TYPES = {
    "Vector + Vector": "vec", "Vector - Vector": "vec", "2 * Vector": "vec", "Vector / 2": "vec",
    "Point + Vector": "pt", "Point - Point": "pt", "Points - point": "pts",
}


@check
class C13(Check):
    explanation = 'The abstract result of every returning path is compared with the documented result type: class, shape and dtype of arrays, Python type of scalars, components of tuples and lists, and the dimension attribute of each object against the length of its coordinates.'
    rule = "Every result is of its documented type and its dimension attribute equals its number of coordinates."
    assumptions = BASE_ASSUME

    def tasks(self, thorough):
        return op_tasks(skip=("heavy",)) + ctor_tasks() + [t for t in case_tasks() if t[1] in CASE_TYPES]

    def run(self, w, task, r):
        d = task[2]
        ps = self.explore(w, task, r)
        for p in ps:
            if p.kind != "return":
                continue
            try:
                self.one(w, task, p, d)
                r.hold()
            except Wrong as e:
                r.breach("type", task[1], where(p, task[1]), "%s returns %s" % (label(task), e), branchlog(p)[-3:])
            except Shape as e:
                r.leave(label(task), str(e))

    def one(self, w, task, p, d):
        v = p.value
        if task[0] == "ctor":
            c = w.cls(task[1])
            t = v.t if isinstance(v, Arr) else getattr(v, "cls", None)
            if t is not c:
                raise Wrong("%s instead of a %s" % (kind_word(v), task[1]))
            return check_dimension(w.it, v, d, task[1])
        if task[0] == "case":
            return type_of(w.it, w, CASE_TYPES[task[1]], v, d)
        o = OPMAP[task[1]]
        k = EXTRA_TYPES.get(spec.post_key(o), o.result)
        if k == "self":
            c = w.cls(o.recv if o.recv in ("Point", "Points") else "Vector")
            if not isinstance(v, Arr):
                raise Wrong("%s instead of a %s" % (kind_word(v), c.name))
            if v.t is not c:
                raise Wrong("%s instead of a %s" % (kind_word(v), c.name))
            return check_dimension(w.it, v, v.shape[-1], c.name)
        if k == "nd":
            if not isinstance(v, Arr) or v.t != "nd":
                raise Wrong("%s instead of a plain array" % kind_word(v))
            return
        if k == "any" or k == "ptsset":
            raise Shape("nothing specified")
        type_of(w.it, w, k, v, d)


@check
class C20(Families):
    rule = 'Every segment result agrees with the endpoints on every path, for free positions along the segment.'
    explanation = 'Families with a known outcome: points and segments are constructed at a parametric position (between the ends, beyond either end, crossing, missing, parallel); on every feasible path the operation must answer as the position dictates.'
    group = ("segments",)

    def tasks(self, thorough):
        return [("fam", n, d) for n, f in expect.FAMS.items() if f.group in self.group or n.startswith("LineSegment") for d in f.dims]


@check
class C21(Families):
    explanation = 'Families with a known outcome: members are constructed as base + parameter * direction and non-members by adding a free non-zero offset; the predicate is interpreted on every feasible path and must answer accordingly. Paths that exist only within the tolerance of a comparison are not judged.'
    group = ("member",)
    rule = "Every predicate answers yes on every path for inputs constructed to satisfy it, and no for inputs constructed not to."


# ---------------------------------------------------------------------- forms and number types of operands
FORMABLE = {"pt", "vec", "dir", "pts", "p3", "p4", "p5", "p7", "P6", "[dir,dir]", "lims"}


def twice(task, left, right):
    """The same call on the same coordinates in two forms, on one path."""
    def s(it, w, p):
        p.extra["lists"] = []
        it.the_world = w
        a = run_form(it, w, p, task, left)
        p.extra["mid"] = len(it.events)
        f = p.extra.get("func")
        b = run_form(it, w, p, task, right)
        p.extra["func"] = f or p.extra.get("func")
        return (a, b)
    return s


def run_form(it, w, p, task, opts):
    try:
        v = scen(task, **opts)(it, w, p)
        return pairs.Out("return", v)
    except PyExc as e:
        if not p.extra.get("marked"):
            raise
        return pairs.Out("raise", e)


class Forms(PairCheck):
    types = True
    narrow = False
    variants = ()

    def kinds(self, t):
        return OPMAP[t[1]].args if t[0] == "op" else spec.CTORS[t[1]] if t[0] == "ctor" else CASES[t[1]][0]

    def run(self, w, task, r):
        base, (name, left, right) = task[:3], [v for v in self.variants if v[0] == task[3]][0]
        ps = w.explore(twice(base, left, right), budget=self.budget, secs=self.secs, name=label(task))
        self.judge_pair(w, name, "same", task[2], ps, (task[0], "%s given %s" % (task[1], name), task[2]), r,
                        rule=self.rulename, types=self.types)
        if self.narrow:
            for p in ps:
                for e in (x for x in p.events if x.kind == "lowprec"):
                    if p.kind == "return":
                        r.breach("narrowed", func(e.site), site(e.site), "%s: values are cast to %s" % (
                            label(task), e.data["dtype"]), branchlog(p))


@check
class C14(Forms):
    rulename = "form"
    secs = 30
    variants = (("lists", {"form": "list"}, {"form": "nd"}), ("tuples", {"form": "tuple"}, {"form": "nd"}),
                ("objects", {"form": "obj"}, {"form": "nd"}))
    rule = ("On every path a call with lists, tuples or objects has the same outcome, of the same class and value number, as with "
            "arrays of the same coordinates.")
    explanation = ("Product exploration of the two calls on one abstract path: every decision of the second call is taken under the "
                   "facts of the first; outcomes (value numbers, classes, exceptions) must coincide.")
    assumptions = BASE_ASSUME

    def tasks(self, thorough):
        ts = [t for t in op_tasks(skip=("heavy", "search")) + ctor_tasks() + case_tasks() if set(self.kinds(t)) & FORMABLE]
        return [t + (v[0],) for t in ts for v in self.variants]


@check
class C22(Forms):
    rulename = "integer"
    narrow = True
    known = ("trunc", "floor")
    types = True
    secs = 30
    variants = (("integers", {"dt": "i"}, {"dt": "f"}), ("integers first", {"dt": "if"}, {"dt": "f"}),
                ("integers second", {"dt": "fi"}, {"dt": "f"}))
    rule = "On every path a call with integer coordinates has the same outcome as with equal float coordinates; nothing is truncated."
    explanation = ("Product exploration: the call is interpreted with integer arrays (stores into them truncate, integer powers and "
                   "divisions follow numpy's integer rules) and with float arrays of the same unknowns; outcomes must coincide.")
    assumptions = BASE_ASSUME

    def tasks(self, thorough):
        ts = op_tasks(skip=("heavy", "search")) + ctor_tasks() + case_tasks()
        return [t + (v[0],) for t in ts for v in self.variants if v[0] == "integers" or len(self.kinds(t)) + (t[0] == "op") > 1]


# ---------------------------------------------------------------------- optional matplotlib
class Declared(frozenset):
    """Every distribution except the standard library, NumPy and SciPy is absent."""
    KEEP = {"numpy", "scipy", "skspatial"} | set(sys.stdlib_module_names)

    def __contains__(self, name):
        return name not in self.KEEP


@check
class C15(Check):
    explanation = ("The package is interpreted in a world where importing anything but the standard library, NumPy and SciPy raises "
                   "ModuleNotFoundError: every module is loaded, and every public operation, constructor, operator and plot method "
                   "is explored on all paths; each path's exception is an obligation.")
    rule = ("With matplotlib absent every module except the plotting module loads, no path of a non-plotting operation raises "
            "ImportError, and a plot method or the plotting module raises nothing else.")
    assumptions = BASE_ASSUME

    def tasks(self, thorough):
        return ([("module", m, 0) for m in self.modules()] + op_tasks(skip=("heavy",)) + ctor_tasks() + case_tasks() + plot_tasks())

    def modules(self):
        import interp
        return sorted(interp.Program(SRC).trees)

    def run(self, w, task, r):
        w.it.blocked = Declared()
        try:
            if task[0] == "module":
                ps = w.explore(lambda it, w, p: self.load(it, w, p, task[1]), budget=20, secs=self.secs, name=task[1])
            else:
                ps = self.explore(w, task, r)
        finally:
            w.it.blocked = frozenset()
        plots = task[0] == "plot" or task[1].endswith(".plotting")
        for p in ps:
            if p.kind == "skip" and p.exc is not None and p.exc.name in ("ImportError", "ModuleNotFoundError"):
                p.kind = "raise"
            if p.kind == "return":
                r.hold()
            elif p.kind == "undecided":
                r.leave(label(task), p.why)
            elif p.kind == "raise":
                imp = p.exc.name in ("ImportError", "ModuleNotFoundError")
                if imp and not plots:
                    r.breach("needs-matplotlib", task[1], site(p.exc.site), "%s raises %s (%s) without matplotlib" % (
                        label(task), p.exc.name, p.exc.msg), branchlog(p))
                elif plots and not imp and not (p.exc.name == "ValueError" and any(degenerate_condition(
                        e.data["cond"], e.data["val"], p.facts) for e in p.events_after("branch"))):
                    r.breach("wrong-error", task[1], site(p.exc.site), "%s raises %s (%s) instead of ImportError without matplotlib" % (
                        label(task), p.exc.name, p.exc.msg), branchlog(p))
                else:
                    r.hold()

    def load(self, it, w, p, name):
        p.extra["marked"] = True
        m = it.module(name)
        if m is None:
            raise Missing(name)
        return None


# ---------------------------------------------------------------------- drawing
import drawing


@check
class C16(Check):
    explanation = ("Every plot method (with and without its options), plotter() and plot_2d/plot_3d is interpreted on all paths with symbolic "
                   "objects; the axes object records each call made on it.  Obligations per path: every drawing call is on the given axes, no "
                   "figure is created and no pyplot state is touched (new axes exactly once in plot_2d/plot_3d), every drawing call receives the "
                   "caller's keywords, and the arguments of the calls have the value numbers of the object's coordinates.")
    rule = "Only the given axes are drawn on; each drawing receives the caller's keywords and the object's own coordinates."
    assumptions = BASE_ASSUME

    def tasks(self, thorough):
        out = []
        for n, t in drawing.TASKS.items():
            out.append(("method", n, t[1]))
            out.append(("plotter", n, t[1]))
        out += [("new", n, d) for d in (2, 3) for n in (0, 1, 2)]
        out += [("dim", k, d) for k, d in (("Point", 1), ("Point", 4), ("VecL", 4), ("Points", 1), ("Line", 4), ("Plane", 2))]
        return out

    def run(self, w, task, r):
        kind, name, d = task
        if kind == "new":
            s = drawing.scen_new(d, name)
            lab = "plot_%dd of %d plotters" % (d, name)
        elif kind == "dim":
            s = drawing.scen_wrong_dim(name, d)
            lab = "plotter of a %s [%dD]" % (name, d)
        else:
            s = drawing.scen_plot(name, kind == "plotter")
            lab = "%s%s" % (name, " by plotter()" if kind == "plotter" else "")
        ps = w.explore(s, budget=self.budget, secs=self.secs, name=lab)
        for p in ps:
            if p.kind == "undecided":
                r.leave(lab, "path undecided: %s at %s" % (p.why, site(p.site)))
                continue
            bad = lambda rule, msg: r.breach(rule, lab, where(p, lab), "%s: %s" % (lab, msg), branchlog(p))
            if kind == "dim":
                if p.kind == "raise" and p.exc.name == "ValueError":
                    r.hold()
                elif p.kind in ("return", "raise"):
                    bad("dimension", "an object that cannot be drawn is not rejected with a ValueError")
                continue
            if p.kind == "raise":
                if p.exc.name == "ValueError" and any(degenerate_condition(e.data["cond"], e.data["val"], p.facts)
                                                     for e in p.events_after("branch")):
                    r.hold()
                else:
                    bad("fails", "raises %s: %s" % (p.exc.name, p.exc.msg))
                continue
            if p.kind != "return":
                continue
            ev = p.events[p.extra.get("start", p.mark):p.extra.get("end", len(p.events))]
            figs = [e for e in ev if e.kind == "figure"]
            glob = [e for e in ev if e.kind == "pltcall"]
            for e in glob:
                bad("global", "calls %s, which changes global pyplot state" % e.data["path"])
            if kind == "new":
                res = p.extra["result"]
                if len(figs) != 1:
                    bad("figure", "%d figures are created" % len(figs))
                if not isinstance(res, tuple) or len(res) != 2:
                    bad("result", "does not return the figure and the axes")
                    continue
                ax = res[1]
                if getattr(ax, "kind", None) != ("ax3d" if d == 3 else "ax2d") or getattr(res[0], "kind", None) != "fig":
                    r.leave(lab, "result not recognised")
                    continue
            else:
                ax = p.extra["ax"]
                for e in figs:
                    bad("figure", "creates a figure (%s)" % e.data["how"])
            calls = [e for e in ev if e.kind == "axcall"]
            draws = [e for e in calls if e.data["method"] in drawing.DRAW]
            for e in calls:
                if e.data["ax"] is not ax:
                    bad("axes", "%s is called on other axes" % e.data["method"])
            if not glob and not figs:
                r.hold()
            got = []
            odd = None
            for e in draws:
                try:
                    sh = drawing.read(e)
                except (drawing.Odd, Shape, KeyError) as x:
                    odd = str(x)
                    continue
                got.append((sh, e))
                lost = [k for k, v in drawing.MARK.items() if sh[2].get(k) != v]
                if lost:
                    r.breach("keywords", lab, site(e.site), "%s: keyword %s does not reach %s" % (lab, lost[0], e.data["method"]),
                             branchlog(p))
                else:
                    r.hold()
            if odd is not None:
                r.leave(lab, "drawing call of a form not read: " + odd)
                continue
            want = list(p.value)
            if kind != "new":       # points may be drawn in one call or several
                want = [("points", [q]) for x in want if x[0] == "points" for q in x[1]] + [x for x in want if x[0] != "points"]
                got = [((g[0][0], [q], g[0][2]), g[1]) for g in got if g[0][0] == "points" for q in g[0][1]] + [
                    g for g in got if g[0][0] != "points"]
            if not draws and want:
                bad("nothing", "nothing is drawn")
                continue
            if len(want) != len(got):
                bad("count", "%d drawings instead of %d" % (len(got), len(want)))
                continue
            left = list(got)
            ordered = kind == "new"
            unknown = None
            for x in want:
                cand = left[:1] if ordered else left
                ms = [(drawing.match(x, (g[0][0], g[0][1])), g) for g in cand]
                hit = [g for m, g in ms if m is True]
                if hit:
                    left.remove(hit[0])
                    r.hold()
                elif any(m is None for m, g in ms) or not all(clean(y) for g in left for y in g[0][1]):
                    unknown = x[0]
                    break
                else:
                    bad("data", "the %s drawn is not the object's" % x[0])
                    break
            if unknown:
                r.leave(lab, "data of the %s not decided" % unknown)


# ---------------------------------------------------------------------- tolerances and options
CLOSE_ALL = ["Point.is_close", "Vector.is_close", "Points.is_close", "Vector.is_zero", "Vector.is_perpendicular", "Vector.is_parallel",
             "Vector.different_direction", "Line.is_close", "Line.contains_point", "Line.intersect_line", "LineSegment.contains_point",
             "Plane.is_close", "Plane.contains_point", "Plane.from_vectors", "Plane.project_line", "Plane.intersect_line",
             "Plane.intersect_plane", "Circle.contains_point", "Sphere.contains_point", "Triangle.classify", "Triangle.is_right"]
CLOSE_SOME = ["LineSegment.intersect_line_segment", "Triangle.orthocenter"]
RANK_ALL = ["Line.is_coplanar", "Line.best_fit", "Plane.best_fit", "Plane.from_points", "Circle.from_points", "Points.affine_rank",
            "Points.are_concurrent", "Points.are_collinear", "Points.are_coplanar"]


def tolerances(names):
    kw = {}
    for n in names:
        v = inp("T." + n, kind="num", of="T")
        kw[n] = Arr((), [v], "py", "f")
    return kw


@check
class C06(PairCheck):
    group = ("option",)
    secs = 30
    explanation = ("Keyword dataflow: every operation that documents tolerances is interpreted with symbolic tolerances; each comparison "
                   "(math.isclose, numpy.isclose, matrix_rank) recorded on a path must carry exactly the caller's value numbers. "
                   "Options are decided by product exploration: a call with the option agrees with what the option is documented to select.")
    rule = ("Every comparison reached by an operation that documents a tolerance carries the caller's tolerance on every path; "
            "options select what they are documented to.")
    assumptions = BASE_ASSUME

    def tasks(self, thorough):
        out = PairCheck.tasks(self, thorough)
        for names, kws, mode in ((CLOSE_ALL, ("rel_tol", "abs_tol"), "all"), (CLOSE_SOME, ("rel_tol", "abs_tol"), "some"),
                                 (RANK_ALL, ("tol",), "all")):
            for t in op_tasks():
                if spec.post_key(OPMAP[t[1]]) in names:
                    for k in [(q,) for q in kws] + ([kws] if len(kws) > 1 else []):
                        out.append(("tol", t[1], t[2], k, mode))
        for n in ("Cylinder.intersect_line", "Cylinder.intersect_line#finite"):
            out.append(("digits", n, 3))
        for n in ("Line.best_fit", "Plane.best_fit"):
            out.append(("svd", n, 3))
        for n in ("Line", "Plane"):
            for d in spec.CTOR_DIMS[n]:
                out.append(("tol", n, d, ("rel_tol", "abs_tol"), "all"))
        return out

    def svd(self, w, name, r):
        lab = "%s(full_matrices=...) [3D]" % name
        for v in (True, False):
            ps = w.explore(lambda it, w, p: apply(it, w, p, OPMAP[name], 3, extra={"full_matrices": v}), budget=self.budget,
                           secs=self.secs, name=lab)
            for p in ps:
                if p.kind == "undecided":
                    r.leave(lab, "path undecided: %s" % p.why)
                elif p.kind == "raise" and p.exc.name == "TypeError":
                    r.breach("rejected", name, site(p.exc.site), "%s: the documented keyword is rejected" % lab, branchlog(p))
                for e in p.events_after("svd"):
                    if e.data["full"] is v:
                        r.hold()
                    else:
                        r.breach("dropped", name, site(e.site), "%s: full_matrices does not reach the decomposition" % lab, branchlog(p))

    def digits(self, w, name, r):
        for n in (7, 0):
            self.digit(w, name, r, n)

    def digit(self, w, name, r, n):
        o = [q for q in spec.OPS if spec.post_key(q) == name][0]
        lab = "%s(n_digits=%d) [3D]" % (name, n)
        ps = w.explore(lambda it, w, p: apply(it, w, p, o, 3, extra={"n_digits": n}), budget=self.budget, secs=self.secs, name=lab)
        used = 0
        for p in ps:
            if p.kind == "undecided":
                r.leave(lab, "path undecided: %s" % p.why)
            if p.kind not in ("return", "raise"):
                continue
            for e in p.events_after("round"):
                if e.data["digits"].const() == n:
                    used += 1
                    r.hold()
                else:
                    r.breach("dropped", name, site(e.site), "%s: rounds to %s digits" % (lab, e.data["digits"]), branchlog(p))
        if not used and not r.open and not r.broken:
            r.breach("unused", name, name, "%s: nothing is rounded on any path" % lab)

    def other(self, w, task, r):
        if task[0] == "digits":
            return self.digits(w, task[1], r)
        if task[0] == "svd":
            return self.svd(w, task[1], r)
        _, name, d, names, mode = task
        lab = "%s(%s) [%dD]" % (name, ", ".join(names), d)

        def s(it, w, p):
            kw = tolerances(names)
            for v in kw.values():
                it.assume(it.cmpc(">=", v.c), True)
            p.extra["kw"] = kw
            if name in OPMAP:
                return apply(it, w, p, OPMAP[name], d, extra=kw)
            return ctor(it, w, p, name, d, kw=kw)
        ps = w.explore(s, budget=self.budget, secs=self.secs, name=lab)
        if w.truncated and w.truncated[-1][0] == lab:
            r.leave(lab, "path budget")
            w.truncated.pop()
        kind = "rank" if names == ("tol",) else "isclose"
        used = total = 0
        for p in ps:
            if p.kind == "undecided":
                r.leave(lab, "path undecided: %s at %s" % (p.why, site(p.site)))
                total += 1
            if p.kind == "raise" and p.exc.name == "TypeError":
                r.breach("rejected", name, site(p.exc.site), "%s: the documented keyword is rejected: %s" % (lab, p.exc.msg), branchlog(p))
                continue
            if p.kind not in ("return", "raise"):
                continue
            total += 1
            kw = {k: v.c for k, v in p.extra["kw"].items()}
            # validity checks of objects built on the way have tolerances of their own
            evs = [e for e in p.events_after(kind) if name not in OPMAP or not any(f[2] == "__init__" for f in e.stack)]
            good = 0
            lost = []
            for e in evs:
                if kind == "rank":
                    have = {"tol": e.data["tol"]}
                else:
                    have = {"rel_tol": e.data["rel"], "abs_tol": e.data["abs"]}
                miss = [k for k in names if have[k] is None or have[k] != kw[k] and p.facts.signs(have[k] - kw[k]) != D.ZER]
                if miss:
                    lost.append((miss[0], e))
                else:
                    good += 1
            own = any(a.info and a.info.get("of") == "T" for e in p.events_after("branch") for x in leaves(e.data["cond"])
                      if x.kind == "cmp" for a in D.atoms_deep(x.args[1]))
            if good or own:
                used += 1
            if lost and (mode == "all" or not good):
                k, e = lost[0]
                r.breach("dropped", name, site(e.site), "%s: %s does not reach this comparison" % (lab, k), branchlog(p))
            elif evs:
                r.hold(len(evs))
        if total and not used and not any(b["construct"] == name for b in r.broken) and not any(o[0] == lab for o in r.open):
            r.breach("unused", name, name, "%s: no comparison on any path uses %s" % (lab, ", ".join(names)))


# ---------------------------------------------------------------------- partial functions
import partial
from poly import qdiv


def even_sum(p):
    """A sum of even powers with positive coefficients (or a nonnegative atom)."""
    for m, c in p.t.items():
        if c < 0:
            return False
        for a, e in m:
            at = V.T.atoms[a]
            if e % 2 and at.kind not in V.NONNEG and at.kind not in ("sqrt", "abs", "N", "norm", "pi") and not (
                    at.info or {}).get("nonneg") and not (at.info or {}).get("kind") == "len":
                return False
    return True


def inputs(p):
    return {a.id if hasattr(a, "id") else id(a) for a in D.atoms_deep(p) if a.kind == "in"}


def guards(p, before, arg):
    """A free decision before the event that involves every unknown of the argument (or a rank)."""
    need = inputs(arg)
    for e in p.events[p.mark:before]:
        if e.kind != "branch" or not e.data["free"]:
            continue
        for x in leaves(e.data["cond"]):
            for q in x.polys():
                if need <= inputs(q) or any(V.T.atoms[i].kind not in ("in", "sqrt") and not inputs(of_atom(V.T.atoms[i]))
                                            for i in q.atoms()):
                    return True
    return False


def decides(p, before, arg):
    """A free decision before the event on the argument itself, up to a factor and an offset."""
    for e in p.events[p.mark:before]:
        if e.kind != "branch" or not e.data["free"]:
            continue
        for x in leaves(e.data["cond"]):
            if x.kind == "cmp" and affine(x.args[1], arg):
                return True
    return False


def affine(q, arg):
    m = next((m for m in arg.t if m), None)
    if m is None or not q.t.get(m):
        return False
    return (q - arg.scale(qdiv(q.t[m], arg.t[m]))).const() is not None


@check
class C07(Check):
    explanation = ("Guard analysis of partial functions.  Every square root, inverse sine or cosine and division met on any abstract path "
                   "is an obligation on its argument: in the domain by the facts of the path, and robustly against rounding: inverse cosines "
                   "of a clipped value (or of one coordinate over the norm), roots of a value that is structurally a sum of squares, "
                   "clipped at zero, or guarded by a decision on the path; divisors are never a norm that no fact or decision keeps from zero.")
    rule = ("No path takes acos/asin of an unclipped quotient, sqrt of an unguarded difference, or divides by an unguarded norm.")
    assumptions = BASE_ASSUME + ["Overflow and underflow are outside this rule."]

    def tasks(self, thorough):
        return op_tasks(skip=("heavy", "search")) + ctor_tasks() + case_tasks() + plot_tasks()

    def run(self, w, task, r):
        ps = self.explore(w, task, r)
        src = partial.Where(w.program)
        lab = label(task)
        for p in ps:
            for i, e in enumerate(p.events):
                if i < p.mark or e.kind not in ("acos", "sqrt", "div"):
                    continue
                if e.kind == "acos":
                    self.arc(p, i, e, lab, r, src)
                elif e.kind == "sqrt":
                    self.root(p, i, e, lab, r, src)
                else:
                    self.quotient(p, i, e, lab, r)

    def arc(self, p, i, e, lab, r, src):
        x = e.data["arg"]
        s = x.single()
        lo, hi = e.data["lo"], e.data["hi"]
        if x.const() is not None or s is not None and s.kind in ("clip", "max", "min") and lo >= -1 and hi <= 1:
            return r.hold()
        if V.is_zero(x * x - ONE):
            return r.hold()
        if len(x.t) == 1:
            (m, c), = x.t.items()
            den = [(a, k) for a, k in m if V.T.atoms[a].kind == "sqrt" and k == -1]
            if den:
                rad = V.T.atoms[den[0][0]].args[0]
                num = x * of_atom(V.T.atoms[den[0][0]])
                if even_sum(rad - num * num):
                    return r.hold()
        for ev in p.events[p.mark:i]:
            if ev.kind == "branch" and any(y.kind == "cmp" and ((y.args[1] - x).const() is not None or (y.args[1] + x).const() is not None)
                                           for y in leaves(ev.data["cond"])):
                return r.hold()
        while s is not None and s.kind in ("clip", "max", "min"):
            inner = [a for a in s.args if isinstance(a, V.P) and a.const() is None]
            if len(inner) != 1:
                break
            x, s = inner[0], inner[0].single()
        if len(x.t) < 2 or not clean([x]):
            return r.leave(lab, "inverse cosine of %s" % str(x)[:60])
        ex, f = src.call(e.site, {"acos", "arccos", "asin", "arcsin"}) or ((), None)
        if f is not None and src.in_try(f, e.site[1]):
            return r.leave(lab, "inverse cosine inside try")
        r.breach("unclipped", func(e.site), site(e.site), "%s takes %s of a quotient that is not clipped to [-1, 1]" % (
            lab, e.data["how"]), branchlog(p))

    def root(self, p, i, e, lab, r, src):
        x = e.data["arg"]
        if e.data["how"] in ("norm", "numpy.linalg.norm") or x.const() is not None and x.const() >= 0 or even_sum(x):
            return r.hold()
        s = x.single()
        if s is not None and s.kind in ("max", "clip", "abs", "nmax") and not e.data["neg"]:
            return r.hold()
        exprs, f = src.call(e.site, {"sqrt"}) or ((), None)
        signs = {partial.sign(q, f) for q in exprs}
        if signs == {"nonneg"}:
            return r.hold()
        if decides(p, i, x):
            if not e.data["neg"]:
                return r.hold()
            if clean([x]):
                return r.breach("weak-guard", func(e.site), site(e.site), "%s takes the root of a value that the decision on it lets be negative" % lab,
                                branchlog(p))
        if not exprs:
            return r.hold() if not e.data["neg"] else r.leave(lab, "root of %s" % str(x)[:60])
        if "difference" not in signs or f is not None and src.in_try(f, e.site[1]) or not clean([x]):
            return r.leave(lab, "root of %s" % str(x)[:60])
        if not e.data["neg"]:
            return r.hold()
        r.breach("unguarded-root", func(e.site), site(e.site), "%s takes the root of a difference that nothing keeps from being negative" % lab,
                 branchlog(p))

    def quotient(self, p, i, e, lab, r):
        x = e.data["den"]
        if not e.data["zero"]:
            return r.hold()
        for rad in self.factors(x):
            if rad.const() is not None or guards(p, i, rad) or not clean([rad]) or self.touched(p, i, rad):
                continue
            if even_sum(rad) and rad.t.get((), 0) == 0:
                return r.breach("zero-divisor", func(e.site), site(e.site), "%s divides by a norm that no decision keeps from zero" % lab,
                                branchlog(p))
            if len(rad.t) > 1 and len(set(re.findall(r"(?<![\w.])([a-z]\w*)[.\[]", str(rad)))) > 1:
                return r.breach("zero-divisor", func(e.site), site(e.site), "%s divides by a difference that no decision keeps from zero" % lab,
                                branchlog(p))
            at = rad.single()
            if at is not None and at.kind == "in":
                if self.only_nonzero(p, rad):
                    return r.hold()
                return r.breach("zero-divisor", func(e.site), site(e.site), "%s divides by a coordinate that no decision keeps from zero" % lab,
                                branchlog(p))
        r.leave(lab, "divisor %s" % str(x)[:60])

    def only_nonzero(self, p, x):
        """A sum known not to vanish has no other term left on this path."""
        for q, m in p.facts.sign.items():
            if m & D.ZER or not even_sum(q) or q.t.get((), 0):
                continue
            left = [mm for mm in q.t if not any(p.facts.atom_signs(V.T.atoms[a]) == D.ZER for a, _ in mm)]
            if left and all(mm and mm[0][0] in x.atoms() for mm in left):
                return True
        return False

    def factors(self, x):
        if len(x.t) != 1:
            return [x]
        (m, _), = x.t.items()
        out = []
        for a, k in m:
            at = V.T.atoms[a]
            inner = [q for q in at.args if isinstance(q, V.P)] if at.kind in ("sqrt", "abs", "nmax") else []
            out += self.factors(inner[0]) if inner else [of_atom(at)]
        return out

    def touched(self, p, i, rad):
        """A free decision before the event on some unknown of the divisor (or on a rank)."""
        have = inputs(rad)
        for ev in p.events[p.mark:i]:
            if ev.kind == "branch" and ev.data["free"]:
                for x in leaves(ev.data["cond"]):
                    if not x.polys() or any(have & inputs(q) or q.const() is None and not inputs(q) for q in x.polys()):
                        return True
        return False


# ---------------------------------------------------------------------- versions
import compat


@check
class C35(Check):
    explanation = ("Version lint over the syntax tree of every module: syntax (parsed for the oldest Python that requires-python allows), annotations "
                   "evaluated at import, standard-library and NumPy names, methods and keyword arguments are looked up in tables of the version that "
                   "brought or removed them; code inside a version test, a hasattr test, a TYPE_CHECKING block or a try is exempt.")
    rule = "No module uses syntax, a name, a method or a keyword argument that some supported Python or NumPy lacks."
    assumptions = ["The tables list what changed between Python 3.8 and 3.14 and NumPy 1.20 and 2.3 for the modules a geometry library uses.",
                   "The receiver of a method call is not tracked: a new str or int method name counts wherever it is called on a value."]

    def tasks(self, thorough):
        import interp
        return [("module", m, 0) for m in sorted(interp.Program(SRC).trees)]

    def run(self, w, task, r):
        path, tree, _ = w.program.trees[task[1]]
        low = 8
        for d in (os.path.dirname(SRC), SRC):
            try:
                with open(os.path.join(d, "pyproject.toml"), encoding="utf-8") as f:
                    low = compat.floor(f.read()) or low
                break
            except OSError:
                pass
        with open(os.path.join(SRC, path), encoding="utf-8") as f:
            s = compat.scan(tree, f.read(), low)
        r.count(uses_looked_up=s.seen)
        for line, where_, what in s.found:
            r.breach("version", "%s:%s" % (path, where_), "%s:%d (%s)" % (path, line, where_), "%s uses %s" % (task[1], what), "")
        for _ in range(s.seen - len(s.found) + 1):
            r.hold()
