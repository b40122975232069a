"""Path-sensitive, interprocedural abstract interpreter for the library's source.

It walks the syntax trees of /repo/src/skspatial; nothing of the library is
imported or executed.  Branches whose outcome the domains do not determine are
followed both ways.
"""
import ast
import builtins as pybuiltins
import os
import poly as V
from poly import P, ZERO, ONE, const, of_atom
from domains import Facts, Infeasible, NEG, ZER, POS, ANY
import domains as D
from values import *

NATIVE = (int, float, str, bytes, type(None), bool, complex)


STATE = ("module state", "default argument", "class state", "closure state")


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Budget(Exception):
    pass


class Env:
    __slots__ = ("vars", "parent", "module", "func", "globals_", "nonlocals", "first", "owner", "is_class")

    def __init__(self, parent, module, func=None):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.func = func
        self.globals_ = ()
        self.nonlocals = ()
        self.first = None
        self.owner = None
        self.is_class = False


class Event:
    __slots__ = ("kind", "site", "data", "stack")

    def __init__(self, kind, site, data, stack):
        self.kind = kind
        self.site = site
        self.data = data
        self.stack = stack

    def __repr__(self):
        return "%s@%s %r" % (self.kind, fmt_site(self.site), self.data)


def special_of(p):
    """The special value a number is: a single nan or infinity times a constant."""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) == 1 and m[0][1] == 1 and V.T.atoms[m[0][0]].kind == "special":
            return V.T.atoms[m[0][0]].args[0]
    return None


def fmt_site(s):
    if not s:
        return "?"
    return "%s:%d (%s)" % (s[0], s[1], s[2])


class Program:
    """The parsed sources."""

    def __init__(self, root, package="skspatial"):
        self.root = root
        self.package = package
        self.trees = {}
        base = os.path.join(root, package)
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x != "__pycache__")
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                    ispkg = rel.endswith(".__init__")
                    if ispkg:
                        rel = rel[:-9]
                    with open(p, encoding="utf-8") as fh:
                        src = fh.read()
                    tree = ast.parse(src, p)
                    self.trees[rel] = (os.path.relpath(p, root), tree, ispkg)

    def functions(self):
        out = []
        for m, (path, tree, _) in self.trees.items():
            for n in ast.walk(tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    out.append((path, n.name, n.lineno))
        return out


class Interp:
    MAX_DEPTH = 70
    MAX_STEPS = 400000

    def __init__(self, program, models):
        self.program = program
        self.models = models
        self.modules = {}
        self.visited = set()       # (path, lineno, name) of functions entered
        self.calls = 0
        self.callsites = set()
        self.dirty = False         # module state was written: reload
        self.wrapcache = {}
        self.frozen_native = {}        # id -> (label, list/dict/set)
        self.blocked = frozenset()     # distributions that are not installed
        self.reset_path([])

    def check_blocked(self, name):
        if name.split(".")[0] in self.blocked:
            raise self.err("ModuleNotFoundError", "No module named '%s'" % name.split(".")[0])

    # ------------------------------------------------------------ paths
    def reset_path(self, prefix):
        self.prefix = list(prefix)
        self.tape = []
        self.facts = Facts()
        self.events = []
        self.stack = []
        self.site = None
        self.steps = 0
        self.fresh = 0
        self.marked = None
        self.handled = []
        self.branch_log = []
        if self.dirty:
            self.modules = {}
            self.dirty = False
        self.memo_inst = {}
        self.frozen_native = {k: v for k, v in self.frozen_native.items() if v[0].startswith(STATE)}

    def choose(self, n, why=""):
        i = len(self.tape)
        if i < len(self.prefix):
            c = self.prefix[i][0]
        else:
            c = 0
        self.tape.append((c, n, why, self.site))
        return c

    def freshatom(self, kind="opaque", deps=(), name=None, **info):
        self.fresh += 1
        key = (kind, "fresh", self.fresh, len(self.tape), tuple(x[0] for x in self.tape))
        a = V.T.get(kind, (), key=key)
        if a.info is None:
            a.info = dict(info)
            a.info["name"] = name or "%s#%d" % (kind, self.fresh)
            ex = [d for d in deps if isinstance(d, P)]
            if ex:
                a.info["extra"] = ex
                r = frozenset()
                for e in ex:
                    r |= e.rows()
                a.rows = r
        return of_atom(a)

    def event(self, kind, **data):
        self.events.append(Event(kind, self.site, data, tuple(self.stack)))

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name not in self.program.trees:
            return None
        # parents first
        if "." in name:
            self.module(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        path, tree, _ = self.program.trees[name]
        m = ModV(name, path, tree)
        m.env = Env(None, m)
        m.env.vars["__name__"] = name
        m.env.vars["__file__"] = path
        self.modules[name] = m
        st, si = self.stack, self.site
        self.stack = []
        try:
            self.exec_body(tree.body, m.env)
        finally:
            self.stack, self.site = st, si
        m.loaded = True
        if "." in name:
            par, leaf = name.rsplit(".", 1)
            if par in self.modules:
                self.modules[par].env.vars.setdefault(leaf, m)
        for k, v in list(m.env.vars.items()):
            self.freeze(v, "module state %s.%s" % (name, k), set(), shallow_funcs=True)
        return m

    def freeze(self, v, label, seen, shallow_funcs=False, depth=0):
        """Mark everything reachable from v as existing before the analysed call."""
        if id(v) in seen or depth > 12:
            return
        seen.add(id(v))
        if isinstance(v, Arr):
            if v.buf.frozen is None:
                v.buf.frozen = label
            if v.frozen is None:
                v.frozen = label
            if v.attrs:
                for k, x in v.attrs.items():
                    self.freeze(x, label + "." + k, seen, shallow_funcs, depth + 1)
        elif isinstance(v, Obj):
            if v.frozen is None:
                v.frozen = label
            for k, x in v.attrs.items():
                self.freeze(x, label + "." + k, seen, shallow_funcs, depth + 1)
        elif isinstance(v, (list, dict, set)):
            self.frozen_native[id(v)] = (label, v)
            for i, x in enumerate(v.values() if isinstance(v, dict) else v):
                self.freeze(x, "%s[%d]" % (label, i), seen, shallow_funcs, depth + 1)
        elif isinstance(v, tuple):
            for i, x in enumerate(v):
                self.freeze(x, "%s[%d]" % (label, i), seen, shallow_funcs, depth + 1)
        elif isinstance(v, USeq):
            self.freeze(v.elem, label + "[i]", seen, shallow_funcs, depth + 1)
        elif isinstance(v, FuncV):
            for d in v.defaults + list(v.kwdefaults.values()):
                self.freeze(d, "default argument of " + v.name, seen, shallow_funcs, depth + 1)
            e = v.env
            while e is not None and e.func is not None:
                for k, x in list(e.vars.items()):
                    if isinstance(x, (list, dict, set, Arr, Obj)):
                        self.freeze(x, "closure state %s of %s" % (k, v.name), seen, shallow_funcs, depth + 1)
                e = e.parent
        elif isinstance(v, Wrapped):
            self.freeze(v.func, label, seen, shallow_funcs, depth + 1)
        elif isinstance(v, ClassV):
            v.frozen = label
            for k, x in v.ns.items():
                self.freeze(x, "class state %s.%s" % (v.name, k), seen, shallow_funcs, depth + 1)

    # ------------------------------------------------------------ errors
    def err(self, name, msg=""):
        return PyExc(name, msg, self.site)

    # ------------------------------------------------------------ truth
    def truth(self, v):
        """Concrete Python truth of a value, branching if necessary."""
        if isinstance(v, (bool, int, float, str, type(None), tuple, list, dict, set, bytes)):
            return bool(v)
        return self.decide(self.cond_of(v))

    def cond_of(self, v):
        if isinstance(v, Cond):
            return v
        if isinstance(v, Arr):
            if not v.is_scalar():
                n = 1
                for s in v.shape:
                    n = n * s if isinstance(s, int) else None
                    if n is None:
                        break
                if n != 1:
                    if n == 0:
                        return FALSE
                    raise self.err("ValueError", "truth value of an array is ambiguous")
            c = v.cells[0]
            if isinstance(c, Cond):
                return c
            return self.cmpc("!=", c)
        if isinstance(v, UnkV):
            return Cond("unk", "u%d" % id(v))
        if isinstance(v, USeq):
            return TRUE
        if isinstance(v, (bool, int, float, str, type(None), tuple, list, dict)):
            return TRUE if v else FALSE
        if isinstance(v, Obj):
            f, o = v.cls.lookup("__bool__")
            if f is None:
                f, o = v.cls.lookup("__len__")
            if f is not None:
                return self.cond_of(self.call(Bound(f, v), [], {}))
            return TRUE
        return TRUE

    def cmpc(self, op, p):
        """Condition  p op 0  (constant-folded)."""
        c = p.const()
        if c is not None:
            r = {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[op]
            return TRUE if r else FALSE
        return Cond("cmp", op, p)

    MASK = {"<": NEG, "<=": NEG | ZER, ">": POS, ">=": POS | ZER, "==": ZER, "!=": NEG | POS}

    def known(self, c):
        """True / False / None."""
        k = c.kind
        if k == "const":
            return c.args[0]
        if k == "cmp":
            op, p = c.args
            m = self.MASK[op]
            nan = self.facts.maybe_nan(p)
            s = self.facts.signs(p)
            if s & m == 0:
                if nan and op == "!=":
                    return None
                return False
            if s & ~m & ANY == 0 and (not nan or op == "!="):
                return True
            z = None
            if op in ("==", "!=") or s & ZER:
                z = V.is_zero(p)
                if z:
                    return bool(m & ZER) if not nan else None
            r = self.facts.memo.get(c.key)
            if r is None and not nan:
                q = self.facts.settled(p)
                if q is not None:
                    s = self.facts.signs(q)
                    if s & m == 0:
                        return False
                    if s & ~m & ANY == 0:
                        return True
            return r
        if k == "not":
            r = self.known(c.args[0])
            return None if r is None else not r
        if k in ("and", "or"):
            rs = [self.known(x) for x in c.args[0]]
            if k == "and":
                if False in rs:
                    return False
                if None not in rs:
                    return True
            else:
                if True in rs:
                    return True
                if None not in rs:
                    return False
            return self.facts.memo.get(c.key)
        if k in ("finite", "isnan", "isinf"):
            if not self.facts.maybe_nan(c.args[0]):
                return k == "finite"
            x = special_of(c.args[0])
            if x is not None:
                return {"finite": False, "isnan": x == "nan", "isinf": x == "inf"}[k]
            return self.facts.memo.get(c.key)
        if k == "nall" or k == "nany":
            r = self.known(c.args[0])
            if r is not None:
                return r
            return self.facts.memo.get(c.key)
        if k == "isclose":
            a, b, rel, ab = c.args
            d = a - b
            z = V.is_zero(d)
            if z and not self.facts.maybe_nan(a):
                return True
            if not z and self.finite_pair(a, b):
                r = self.same_size(a, b, rel, ab)
                if r is not None:
                    return r
            abz = ab.const() == 0
            if abz and not b.t:
                s = self.facts.signs(a)
                if s == ZER:
                    return True
                if not s & ZER:
                    return False
            if abz and not a.t:
                s = self.facts.signs(b)
                if not s & ZER:
                    return False
            r = self.facts.memo.get(c.key)
            if r is None:
                r = self.facts.memo.get(self.closekey(c))
            return r
        return self.facts.memo.get(c.key)

    def finite_pair(self, a, b):
        return not self.facts.maybe_nan(a) and not self.facts.maybe_nan(b)

    def same_size(self, a, b, rel, ab):
        """isclose(a, b) when |a| = |b| (None: unsettled)."""
        a2, b2 = self.facts.settled(a), self.facts.settled(b)
        a = a if a2 is None else a2
        b = b if b2 is None else b2
        if a2 is not None or b2 is not None:
            if V.is_zero(a - b):
                return True
        ca, cb = a.const(), b.const()
        if ca is not None and cb is not None:
            cr, cab = rel.const(), ab.const()
            if cr is not None and cab is not None:
                return abs(ca - cb) <= max(cr * max(abs(ca), abs(cb)), cab)
        if not a.t or not b.t:
            return None
        try:
            if not V.is_zero(a * a - b * b):
                return None
        except V.Blowup:
            return None
        sa, sb = self.facts.signs(a), self.facts.signs(b)
        if not sa & NEG and not sb & NEG or not sa & POS and not sb & POS:
            return True
        if sa in (POS, NEG) and sb in (POS, NEG) and (ca or cb):
            k = abs(ca or cb)
            cr, cab = rel.const(), ab.const()
            if cr is not None and cab is not None:
                return 2 * k <= max(cr * k, cab)
        return None

    def closekey(self, c):
        """The same comparison up to fingerprints and a common sign."""
        a, b, rel, ab = c.args
        if V.ambiguous(a - b):
            return None
        fa, fb = V.fingerprints(a, 2), V.fingerprints(b, 2)
        if len(fa) < 2 or len(fb) < 2:
            return None
        pts = [x[0] for x in fa + fb]
        va, vb = [x[1] for x in fa], [x[1] for x in fb]
        lead = va[0] or vb[0]
        if lead > V.MOD // 2:
            va, vb = [-x % V.MOD for x in va], [-x % V.MOD for x in vb]
        return ("close", tuple(pts), tuple(va), tuple(vb), rel, ab)

    def assume(self, c, val):
        k = c.kind
        if k == "const":
            if c.args[0] != val:
                raise Infeasible()
            return
        kn = self.known(c)
        if kn is not None and kn != val:
            raise Infeasible()
        self.facts.memo[c.key] = val
        if k == "cmp":
            op, p = c.args
            m = self.MASK[op]
            if not val:
                m = ~m & ANY
            if val and op != "!=":
                self.facts.set_nonnan(p)
            self.facts.learn(p, m)
        elif k == "not":
            self.assume(c.args[0], not val)
        elif k == "and":
            if val:
                for x in c.args[0]:
                    self.assume(x, True)
            else:
                rest = [x for x in c.args[0] if self.known(x) is not True]
                if len(rest) == 1:
                    self.assume(rest[0], False)
                elif not rest:
                    raise Infeasible()
        elif k == "or":
            if not val:
                for x in c.args[0]:
                    self.assume(x, False)
            else:
                rest = [x for x in c.args[0] if self.known(x) is not False]
                if len(rest) == 1:
                    self.assume(rest[0], True)
                elif not rest:
                    raise Infeasible()
        elif k == "finite":
            if val:
                self.facts.set_nonnan(c.args[0])
        elif k == "nall":
            if val:
                self.assume(c.args[0], True)
        elif k == "nany":
            if not val:
                self.assume(c.args[0], False)
        elif k == "isclose":
            a, b, rel, ab = c.args
            if not val:
                self.facts.learn(a - b, ANY & ~ZER)
            else:
                if ab.const() == 0 and not b.t:
                    self.facts.learn(a, ZER)
                elif ab.const() == 0 and not a.t:
                    self.facts.learn(b, ZER)

    def decide(self, c):
        if c.kind == "not":
            return not self.decide(c.args[0])
        k = self.known(c)
        if k is None:
            pol = None
            i = self.choose(2, c)
            k = (i == 0)
            self.assume(c, k)
            self.event("branch", cond=c, val=k, free=True, at=len(self.tape) - 1)
        else:
            if c.kind != "const":
                self.event("branch", cond=c, val=k, free=False)
        return k

    # ------------------------------------------------------------ statements
    def exec_body(self, body, env):
        for s in body:
            self.exec(s, env)

    def setsite(self, node, env):
        f = env.func
        e = env
        while f is None and e is not None and e.parent is not None:
            e = e.parent
            f = e.func
        self.site = (env.module.path, node.lineno, f.name if f is not None else "<module>")

    def exec(self, s, env):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Undecided("step budget")
        self.setsite(s, env)
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Undecided("statement " + type(s).__name__)
        return m(s, env)

    def x_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def x_Pass(self, s, env):
        pass

    def x_Import(self, s, env):
        for a in s.names:
            top = a.name.split(".")[0]
            self.event("import", name=a.name)
            if a.name.split(".")[0] == self.program.package:
                m = self.module(a.name)
                if m is None:
                    raise self.err("ModuleNotFoundError", a.name)
                self.bind(a.asname or top, m if a.asname else self.module(top), env)
            else:
                self.check_blocked(a.name)
                self.bind(a.asname or top, Ext(a.name if a.asname else top), env)

    def x_ImportFrom(self, s, env):
        mod = s.module or ""
        if s.level:
            base = env.module.name
            ispkg = self.program.trees[base][2]
            parts = base.split(".")
            drop = s.level - (1 if ispkg else 0)
            if drop:
                parts = parts[:-drop]
            mod = ".".join(parts + ([mod] if mod else []))
        if mod == "__future__":
            return
        self.event("import", name=mod)
        if mod.split(".")[0] == self.program.package:
            m = self.module(mod)
            if m is None:
                raise self.err("ModuleNotFoundError", mod)
            for a in s.names:
                if a.name == "*":
                    for k, v in m.env.vars.items():
                        if not k.startswith("_"):
                            self.bind(k, v, env)
                    continue
                if a.name in m.env.vars:
                    v = m.env.vars[a.name]
                else:
                    v = self.module(mod + "." + a.name)
                    if v is None:
                        raise self.err("ImportError", "cannot import name %s" % a.name)
                self.bind(a.asname or a.name, v, env)
        else:
            self.check_blocked(mod)
            for a in s.names:
                self.bind(a.asname or a.name, self.ext_attr(mod, a.name), env)

    def ext_attr(self, mod, name):
        return self.models.ext(self, mod + "." + name)

    def bind(self, name, v, env):
        if name in env.globals_:
            self.event("global_write", name=name, where="global %s" % name)
            self.dirty = True
            env.module.env.vars[name] = v
            return
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.vars and not e.is_class:
                    e.vars[name] = v
                    return
                e = e.parent
        env.vars[name] = v

    def x_FunctionDef(self, s, env):
        f = self.make_func(s, env, s.name)
        v = f
        for d in reversed(s.decorator_list):
            dec = self.ev(d, env)
            v = self.call(dec, [v], {})
        self.bind(s.name, v, env)

    def make_func(self, node, env, name):
        f = FuncV(node, env, env.module, name)
        a = node.args
        f.defaults = [self.ev(d, env) for d in a.defaults]
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                f.kwdefaults[k.arg] = self.ev(d, env)
        if env.is_class:
            f.owner = None   # set when the class is created
        body = node.body if isinstance(node.body, list) else [node.body]
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    f.is_gen = True
        return f

    def x_ClassDef(self, s, env):
        bases = []
        for b in s.bases:
            v = self.ev(b, env)
            if isinstance(v, Ext) and v.path in ("typing.Generic", "builtins.object", "abc.ABC", "typing.Protocol"):
                continue
            if isinstance(v, (ClassV, Ext, ExcV)):
                bases.append(v)
            elif isinstance(v, Builtin) and v.name == "object":
                continue
            elif isinstance(v, Builtin) and getattr(v, "exc", None):
                bases.append(ExcV(v.name))
            else:
                bases.append(Ext("unknown.base"))
        e = Env(env, env.module)
        e.is_class = True
        self.exec_body(s.body, e)
        c = ClassV(s.name, bases, e.vars, env.module, s)
        for v in e.vars.values():
            f = v.func if isinstance(v, Wrapped) else v
            if isinstance(f, FuncV) and f.owner is None:
                f.owner = c
            # decorated functions keep a reference to the undecorated one
            self._own(f, c, 0)
        v = c
        for d in reversed(s.decorator_list):
            dec = self.ev(d, env)
            v = self.call(dec, [v], {})
        self.bind(s.name, v, env)

    def _own(self, f, c, depth):
        if depth > 4 or not isinstance(f, FuncV):
            return
        if f.env is not None and f.env.func is not None:
            for x in f.env.vars.values():
                if isinstance(x, FuncV) and x.owner is None:
                    x.owner = c
                    self._own(x, c, depth + 1)

    def x_Return(self, s, env):
        raise Return(self.ev(s.value, env) if s.value is not None else None)

    def x_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)
        elif env.is_class and isinstance(s.target, ast.Name):
            env.vars.setdefault("__annotations__", {})[s.target.id] = True
        if s.value is not None and env.is_class and isinstance(s.target, ast.Name):
            env.vars.setdefault("__annotations__", {})[s.target.id] = True

    def x_AugAssign(self, s, env):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, env)
            v = self.augop(op, cur, self.ev(s.value, env))
            self.bind(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr(o, t.attr)
            v = self.augop(op, cur, self.ev(s.value, env))
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            cur = self.getitem(o, k)
            v = self.augop(op, cur, self.ev(s.value, env))
            self.setitem(o, k, v)
        else:
            raise Undecided("augassign")

    def augop(self, op, cur, v):
        if isinstance(cur, Arr) and cur.shape != ():
            r = self.models.binop(self, op, cur, v)
            if not isinstance(r, Arr):
                return r
            self.models.store_all(self, cur, r, how="in-place %s" % op)
            return cur
        if isinstance(cur, list) and op == "Add":
            self.mutate_native(cur, "+=")
            cur.extend(self.iterate(v))
            return cur
        return self.models.binop(self, op, cur, v)

    def mutate_native(self, x, how):
        fz = self.frozen_native.get(id(x))
        if fz is not None and fz[1] is x:
            self.event("write", label=fz[0], how=how)
            if fz[0].startswith(STATE):
                self.dirty = True

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.unpack(v, len(t.elts), star[0] if star else None)
            for e, x in zip(t.elts, items):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev(t.slice, env), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Undecided("assignment target")

    def unpack(self, v, n, star):
        if isinstance(v, UnkV):
            return [UnkV("unpack")] * n
        items = self.iterate(v)
        if isinstance(items, USeq):
            raise Undecided("unpacking a sequence of symbolic length")
        if star is None:
            if len(items) != n:
                raise self.err("ValueError", "unpack: expected %d values, got %d" % (n, len(items)))
            return items
        k = n - star - 1
        if len(items) < n - 1:
            raise self.err("ValueError", "unpack")
        return items[:star] + [list(items[star:len(items) - k])] + items[len(items) - k:]

    def x_If(self, s, env):
        if self.truth(self.ev(s.test, env)):
            self.exec_body(s.body, env)
        else:
            self.exec_body(s.orelse, env)

    def x_While(self, s, env):
        for _ in range(200):
            self.setsite(s, env)
            if not self.truth(self.ev(s.test, env)):
                self.exec_body(s.orelse, env)
                return
            try:
                self.exec_body(s.body, env)
            except Break:
                return
            except Continue:
                continue
        raise Undecided("loop bound")

    def x_For(self, s, env):
        items = self.iterate(self.ev(s.iter, env))
        if isinstance(items, USeq):
            self.sym_loop(s, items, env)
            return
        for x in items:
            self.assign(s.target, x, env)
            try:
                self.exec_body(s.body, env)
            except Break:
                return
            except Continue:
                continue
        self.exec_body(s.orelse, env)

    open_axes = ()

    def each(self, axis):
        """A statement is run for the generic row of an axis; two generic rows of one axis would be confused."""
        if axis in self.open_axes:
            raise Undecided("nested loops over the same rows")
        if not self.open_axes:
            self.open_axes = []
        self.open_axes.append(axis)

    def sym_loop(self, s, items, env):
        """A loop over a symbolic number of rows: summarise accumulators."""
        assigned = set()
        for b in s.body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    assigned.add(n.id)
        tgt = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        lists = {}
        for k, v in env.vars.items():
            if isinstance(v, list) and k not in tgt:
                lists[k] = (v, len(v))
        pre = {}
        place = {}
        for k in assigned - tgt:
            if k in env.vars:
                v = env.vars[k]
                pre[k] = v
                a = self.models.asnum(self, v) if isinstance(v, (int, float, Arr)) and not isinstance(v, bool) else None
                if a is None or any(isinstance(c, Cond) for c in a.cells):
                    continue
                ph = [self.freshatom("loopvar", name="%s@loop" % k) for _ in a.cells]
                b = Arr(a.shape, ph, a.t, a.dt)
                place[k] = (a, ph)
                env.vars[k] = b
        self.assign(s.target, items.elem, env)
        tape0 = len(self.tape)
        self.each(items.axis)
        try:
            self.exec_body(s.body, env)
        except (Break, Continue):
            raise Undecided("control flow in a symbolic loop")
        finally:
            self.open_axes.pop()
        for k, (a, ph) in place.items():
            now = self.models.asnum(self, env.vars[k])
            if now is None or now.eff() != a.eff() and not (a.is_scalar()):
                env.vars[k] = UnkV("loop variable")
                continue
            if a.is_scalar() and not now.is_scalar():
                a2 = [a.cells[0]] * len(now.cells)
                ph2 = [ph[0]] * len(now.cells)
            else:
                a2, ph2 = a.cells, ph
            out = []
            ids = {x.single().id for x in ph}
            ok = True
            for c0, p0, c1 in zip(a2, ph2, now.cells):
                d = c1 - p0
                if any(at.id in ids for at in D.atoms_deep(d)):
                    if c1 == p0:
                        d = ZERO
                    else:
                        ok = False
                        break
                out.append(c0 + D.nsum(d, items.axis))
            if ok:
                env.vars[k] = Arr(now.shape, out, now.t, now.dt)
            else:
                env.vars[k] = UnkV("loop variable")
        for k in assigned - tgt:
            if k not in place:
                if k in pre and env.vars.get(k) is not pre[k]:
                    env.vars[k] = UnkV("loop variable")
        for k, (l, n) in lists.items():
            if len(l) > n and env.vars.get(k) is l:
                if n == 0 and len(l) == 1:
                    env.vars[k] = USeq(l[0], items.axis)
                else:
                    env.vars[k] = UnkV("list built in a loop")

    def x_Break(self, s, env):
        raise Break()

    def x_Continue(self, s, env):
        raise Continue()

    def x_Raise(self, s, env):
        if s.exc is None:
            if self.handled:
                raise self.handled[-1]
            raise self.err("RuntimeError", "No active exception")
        v = self.ev(s.exc, env)
        if s.cause is not None:
            self.ev(s.cause, env)
        self.setsite(s, env)
        e = self.as_exc(v)
        e.site = self.site
        e.explicit = True
        raise e

    def as_exc(self, v):
        if isinstance(v, ExcV):
            return PyExc(v.name, "", self.site)
        if isinstance(v, ExcObj):
            return PyExc(v.name, v.msg, self.site, cls=v.cls)
        if isinstance(v, ClassV) and v.is_exc:
            return self.as_exc(self.call(v, [], {}))
        if isinstance(v, Obj) and v.cls.is_exc:
            base = [b.name for b in v.cls.mro if isinstance(b, ExcV)][0]
            return PyExc(base, "", self.site, cls=v.cls, value=v)
        if isinstance(v, UnkV):
            raise Undecided("raise of an unknown value")
        return PyExc("TypeError", "exceptions must derive from BaseException", self.site)

    def x_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            self.setsite(s, env)
            raise self.err("AssertionError", "assert")

    def x_Try(self, s, env):
        try:
            try:
                self.exec_body(s.body, env)
            except PyExc as e:
                for h in s.handlers:
                    if h.type is None or self.matches(e, self.ev(h.type, env)):
                        if h.name:
                            env.vars[h.name] = e.value if e.value is not None else ExcObj(e.name, e.msg, e.cls)
                        self.handled.append(e)
                        try:
                            self.exec_body(h.body, env)
                        finally:
                            self.handled.pop()
                        break
                else:
                    raise
            else:
                self.exec_body(s.orelse, env)
        finally:
            if s.finalbody:
                self.exec_body(s.finalbody, env)

    def matches(self, e, t):
        if isinstance(t, (tuple, list)):
            return any(self.matches(e, x) for x in t)
        if isinstance(t, ExcV):
            if e.cls is not None:
                return any(isinstance(b, ExcV) and exc_isa(b.name, t.name) for b in e.cls.mro)
            return exc_isa(e.name, t.name)
        if isinstance(t, ClassV):
            return e.cls is not None and e.cls.isa(t)
        if isinstance(t, Ext):
            return t.path.rsplit(".", 1)[-1] == e.name
        return False

    def x_With(self, s, env):
        for it in s.items:
            v = self.ev(it.context_expr, env)
            if isinstance(v, (Ext, UnkV, OpaqueObj)):
                r = v
            elif isinstance(v, Obj):
                r = self.call(self.getattr(v, "__enter__"), [], {})
            else:
                r = v
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r, env)
        self.exec_body(s.body, env)

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                k = self.ev(t.slice, env)
                if isinstance(o, (list, dict)):
                    self.mutate_native(o, "del")
                    del o[k]
                else:
                    raise Undecided("del")
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                self.setattr(o, t.attr, None, delete=True)

    def x_Global(self, s, env):
        env.globals_ = tuple(env.globals_) + tuple(s.names)

    def x_Nonlocal(self, s, env):
        env.nonlocals = tuple(env.nonlocals) + tuple(s.names)

    def x_Match(self, s, env):
        subj = self.ev(s.subject, env)
        for c in s.cases:
            b = {}
            if self.match_pat(c.pattern, subj, b, env):
                for k, v in b.items():
                    self.bind(k, v, env)
                if c.guard is None or self.truth(self.ev(c.guard, env)):
                    self.exec_body(c.body, env)
                    return

    def match_pat(self, p, v, b, env):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.models.compare(self, "Eq", v, self.ev(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pat(p.pattern, v, b, env):
                return False
            if p.name:
                b[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match_pat(x, v, b, env) for x in p.patterns)
        if isinstance(p, ast.MatchSequence) and isinstance(v, (list, tuple)):
            return len(v) == len(p.patterns) and all(self.match_pat(x, y, b, env) for x, y in zip(p.patterns, v))
        raise Undecided("match pattern")

    # ------------------------------------------------------------ expressions
    def ev(self, n, env):
        self.steps += 1
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Undecided("expression " + type(n).__name__)
        return m(n, env)

    def e_Constant(self, n, env):
        return n.value if n.value is not Ellipsis else Ellipsis

    def name(self, k, env):
        e = env
        first = True
        while e is not None:
            if k in e.vars and (first or not e.is_class):
                return e.vars[k]
            first = False
            e = e.parent
        b = self.models.builtins.get(k)
        if b is not None:
            return b
        if k in EXC_BASES and hasattr(pybuiltins, k):
            return ExcV(k)
        if k in ("True", "False", "None"):
            return {"True": True, "False": False, "None": None}[k]
        if k == "__class__":
            e = env
            while e is not None:
                if e.func is not None and e.func.owner is not None:
                    return e.func.owner
                e = e.parent
        f = env.func
        if f is not None and not isinstance(f.node, ast.Lambda):
            for x in ast.walk(f.node):
                if isinstance(x, ast.Name) and x.id == k and isinstance(x.ctx, ast.Store):
                    raise self.err("UnboundLocalError", k)
        raise self.err("NameError", k)

    def e_Name(self, n, env):
        return self.name(n.id, env)

    def e_Tuple(self, n, env):
        return tuple(self.elts(n.elts, env))

    def e_List(self, n, env):
        return list(self.elts(n.elts, env))

    def e_Set(self, n, env):
        items = self.elts(n.elts, env)
        return self.mkset(items)

    def mkset(self, items):
        try:
            return set(items)
        except TypeError:
            return UnkV("set")

    def elts(self, es, env):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                it = self.iterate(self.ev(e.value, env))
                if isinstance(it, USeq):
                    raise Undecided("star of a symbolic sequence")
                out.extend(it)
            else:
                out.append(self.ev(e, env))
        return out

    def e_Dict(self, n, env):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.ev(v, env)
                if not isinstance(x, dict):
                    raise Undecided("dict unpacking")
                d.update(x)
            else:
                kk = self.ev(k, env)
                try:
                    d[kk] = self.ev(v, env)
                except TypeError:
                    raise Undecided("dict key")
        return d

    def e_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        self.setsite(n, env)
        return self.models.binop(self, type(n.op).__name__, a, b)

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        self.setsite(n, env)
        op = type(n.op).__name__
        if op == "Not":
            if isinstance(v, (bool, int, float, str, type(None), tuple, list, dict)):
                return not v
            c = self.cond_of(v)
            k = self.known(c)
            if k is not None and c.kind == "const":
                return not k
            return Arr((), [cnot(c)], "py", "b")
        return self.models.unop(self, op, v)

    def e_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        last = None
        for i, x in enumerate(n.values):
            last = self.ev(x, env)
            if i == len(n.values) - 1:
                return last
            t = self.truth(last)
            if isand and not t:
                return self.settled(last, t)
            if not isand and t:
                return self.settled(last, t)
        return last

    def settled(self, v, t):
        """A boolean that has just been decided."""
        if isinstance(v, Arr) and v.is_scalar() and isinstance(v.c, Cond):
            if v.t == "py":
                return t
            return Arr((), [TRUE if t else FALSE], v.t, "b")
        return v

    def e_Compare(self, n, env):
        left = self.ev(n.left, env)
        res = None
        conds = []
        for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
            right = self.ev(r, env)
            self.setsite(n, env)
            res = self.models.compare(self, type(op).__name__, left, right)
            if i == len(n.ops) - 1:
                return res
            t = self.truth(res)
            if not t:
                return self.settled(res, t)
            left = right
        return res

    def e_IfExp(self, n, env):
        if self.truth(self.ev(n.test, env)):
            return self.ev(n.body, env)
        return self.ev(n.orelse, env)

    def e_Lambda(self, n, env):
        return self.make_func(n, env, "<lambda>")

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        self.assign(n.target, v, env)
        return v

    def e_JoinedStr(self, n, env):
        out = ""
        for x in n.values:
            if isinstance(x, ast.Constant):
                out += x.value
            else:
                out = out + self.e_FormattedValue(x, env)
        return out

    def e_FormattedValue(self, n, env):
        v = self.ev(n.value, env)
        spec = self.ev(n.format_spec, env) if n.format_spec is not None else ""
        return text(v, spec if not isinstance(spec, UStr) else "?", "repr" if n.conversion in (114, 97) else "str")

    def e_Starred(self, n, env):
        raise Undecided("starred")

    def e_Await(self, n, env):
        raise Undecided("await")

    def e_Yield(self, n, env):
        v = self.ev(n.value, env) if n.value is not None else None
        e = env
        while e is not None and "__yield__" not in e.vars:
            e = e.parent
        if e is None:
            raise Undecided("yield")
        e.vars["__yield__"].append(v)
        return None

    def e_YieldFrom(self, n, env):
        items = self.iterate(self.ev(n.value, env))
        e = env
        while e is not None and "__yield__" not in e.vars:
            e = e.parent
        if e is None or isinstance(items, USeq):
            raise Undecided("yield from")
        e.vars["__yield__"].extend(items)
        return None

    def e_Slice(self, n, env):
        return slice(*(self.ev(x, env) if x is not None else None for x in (n.lower, n.upper, n.step)))

    def e_Subscript(self, n, env):
        o = self.ev(n.value, env)
        k = self.ev(n.slice, env)
        self.setsite(n, env)
        return self.getitem(o, k)

    def e_Attribute(self, n, env):
        o = self.ev(n.value, env)
        self.setsite(n, env)
        return self.getattr(o, n.attr)

    def comp(self, gens, env, emit):
        """Run nested comprehension generators."""
        def go(i, e):
            if i == len(gens):
                return [emit(e)], None
            g = gens[i]
            items = self.iterate(self.ev(g.iter, e))
            if isinstance(items, USeq):
                self.assign(g.target, items.elem, e)
                self.each(items.axis)
                try:
                    for c in g.ifs:
                        k = self.ev(c, e)
                        cc = self.cond_of(k)
                        if self.known(cc) is not True:
                            raise Undecided("filter over a symbolic sequence")
                    r, ax = go(i + 1, e)
                finally:
                    self.open_axes.pop()
                if ax is not None or len(r) != 1:
                    raise Undecided("nested symbolic comprehension")
                return r, items.axis
            out = []
            ax0 = None
            for x in items:
                self.assign(g.target, x, e)
                if all(self.truth(self.ev(c, e)) for c in g.ifs):
                    r, ax = go(i + 1, e)
                    if ax is not None:
                        raise Undecided("nested symbolic comprehension")
                    out.extend(r)
            return out, ax0
        e = Env(env, env.module)
        e.func = None
        return go(0, e)

    def e_ListComp(self, n, env):
        r, ax = self.comp(n.generators, env, lambda e: self.ev(n.elt, e))
        if ax is not None:
            return USeq(r[0], ax)
        return r

    def e_GeneratorExp(self, n, env):
        # evaluated eagerly; any()/all() get a lazy form (see models)
        return LazyGen(self, n, env)

    def e_SetComp(self, n, env):
        r, ax = self.comp(n.generators, env, lambda e: self.ev(n.elt, e))
        if ax is not None:
            return UnkV("set")
        return self.mkset(r)

    def e_DictComp(self, n, env):
        r, ax = self.comp(n.generators, env, lambda e: (self.ev(n.key, e), self.ev(n.value, e)))
        if ax is not None:
            return UnkV("dict")
        return dict(r)

    def e_Call(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            e = env
            while e is not None and (e.func is None or e.func.owner is None):
                e = e.parent
            if e is None:
                raise Undecided("super()")
            return SuperV(e.func.owner, e.first)
        f = self.ev(n.func, env)
        args = self.elts(n.args, env)
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                if isinstance(v, UnkV):
                    raise Undecided("unknown keywords")
                if not isinstance(v, dict):
                    raise self.err("TypeError", "argument after ** must be a mapping")
                for kk, vv in v.items():
                    if kk in kw:
                        raise self.err("TypeError", "multiple values for keyword argument %s" % kk)
                    kw[kk] = vv
            else:
                if k.arg in kw:
                    raise self.err("TypeError", "multiple values for keyword argument")
                kw[k.arg] = v
        self.setsite(n, env)
        self.callsites.add(self.site[:2] + (n.col_offset,))
        site = self.site
        r = self.call(f, args, kw, env)
        self.site = site
        return r

    # ------------------------------------------------------------ iteration
    def iterate(self, v):
        if isinstance(v, LazyGen):
            return v.run()
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, (str,)):
            return list(v)
        if isinstance(v, range):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, (set, frozenset)):
            return sorted(v, key=repr)
        if isinstance(v, USeq):
            return v
        if isinstance(v, Arr):
            if v.is_scalar():
                raise self.err("TypeError", "object of type number is not iterable")
            return self.models.iter_arr(self, v)
        if isinstance(v, Iter):
            r = v.items[v.pos:]
            v.pos = len(v.items)
            return r
        if isinstance(v, UnkV):
            raise Undecided("iteration over an unknown value")
        if isinstance(v, Obj):
            f, _ = v.cls.lookup("__iter__")
            if f is not None:
                return self.iterate(self.call(Bound(f, v), [], {}))
            if v.cls.dataclass and False:
                pass
        if v is None or isinstance(v, (int, float, bool, Obj, FuncV, ClassV)):
            raise self.err("TypeError", "object is not iterable")
        raise Undecided("iteration")

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, default=Ellipsis):
        try:
            return self._getattr(o, name)
        except PyExc as e:
            if e.name == "AttributeError" and default is not Ellipsis:
                return default
            raise

    def bindv(self, v, o, cls):
        if isinstance(v, FuncV):
            return Bound(v, o)
        if isinstance(v, Wrapped):
            if v.kind == "classmethod":
                return Bound(v.func, cls)
            if v.kind == "staticmethod":
                return v.func
            if v.kind in ("property", "cached_property"):
                return self.call(v.func, [o], {})
            if v.kind == "cached":
                return Bound(v, o)
        if isinstance(v, Builtin) and getattr(v, "method", False):
            return Bound(v, o)
        return v

    def _getattr(self, o, name):
        if isinstance(o, UnkV):
            return UnkV("attribute of unknown")
        if isinstance(o, Obj):
            v, k = o.cls.lookup(name)
            if isinstance(v, Wrapped) and v.kind in ("property", "cached_property"):
                if v.kind == "cached_property":
                    self.event("cache", what=name)
                return self.call(v.func, [o], {})
            if name in o.attrs:
                return o.attrs[name]
            if v is not None or k is not None:
                return self.bindv(v, o, o.cls)
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return o.attrs
            f, _ = o.cls.lookup("__getattr__")
            if f is not None:
                return self.call(Bound(f, o), [name], {})
            if any(isinstance(b, Ext) for b in o.cls.mro):
                return UnkV("attribute of an external base")
            raise self.err("AttributeError", "'%s' object has no attribute '%s'" % (o.cls.name, name))
        if isinstance(o, Arr):
            if isinstance(o.t, ClassV):
                v, k = o.t.lookup(name)
                if isinstance(v, Wrapped) and v.kind in ("property", "cached_property"):
                    return self.call(v.func, [o], {})
                if o.attrs and name in o.attrs:
                    return o.attrs[name]
                if k is not None:
                    return self.bindv(v, o, o.t)
                if name == "__class__":
                    return o.t
            return self.models.arr_attr(self, o, name)
        if isinstance(o, ClassV):
            v, k = o.lookup(name)
            if k is not None:
                if isinstance(v, Wrapped):
                    if v.kind == "classmethod":
                        return Bound(v.func, o)
                    if v.kind == "staticmethod":
                        return v.func
                return v
            if name == "__name__" or name == "__qualname__":
                return o.name
            if name == "__mro__":
                return tuple(o.mro)
            if name == "__module__":
                return o.module.name
            if name == "__dict__":
                return o.ns
            if name == "__new__":
                return Builtin("object.__new__", lambda it, a, k: it.raw_new(a))
            if o.is_array:
                return self.models.ndarray_unbound(self, name)
            raise self.err("AttributeError", "type object '%s' has no attribute '%s'" % (o.name, name))
        if isinstance(o, SuperV):
            obj = o.obj
            cls = obj if isinstance(obj, ClassV) else (obj.cls if isinstance(obj, Obj) else obj.t)
            v, k = cls.lookup(name, after=o.owner)
            if k is not None:
                if name == "__new__":
                    return v.func if isinstance(v, Wrapped) else v
                if isinstance(v, Wrapped) and v.kind == "classmethod":
                    return Bound(v.func, cls)
                if isinstance(v, Wrapped) and v.kind == "staticmethod":
                    return v.func
                if isinstance(v, Wrapped) and v.kind == "property":
                    return self.call(v.func, [obj], {})
                if isinstance(v, FuncV):
                    return Bound(v, obj) if not isinstance(obj, ClassV) else v
                return v
            if name == "__init__":
                return Builtin("object.__init__", lambda it, a, k: None)
            if name == "__init_subclass__":
                return Builtin("object.__init_subclass__", lambda it, a, k: None)
            if name == "__new__":
                return Builtin("object.__new__", lambda it, a, k: it.raw_new(a))
            if name == "__setattr__":
                def sa(it, a, k, obj=obj):
                    it.raw_setattr(obj, a[0], a[1])
                return Builtin("object.__setattr__", sa)
            if isinstance(obj, Arr):
                return self.models.arr_attr(self, obj, name)
            raise self.err("AttributeError", "'super' object has no attribute '%s'" % name)
        if isinstance(o, ModV):
            if name in o.env.vars:
                return o.env.vars[name]
            m = self.module(o.name + "." + name)
            if m is not None:
                return m
            raise self.err("AttributeError", "module has no attribute " + name)
        if isinstance(o, Ext):
            return self.models.ext(self, o.path + "." + name)
        if isinstance(o, FuncV):
            if name in o.attrs:
                return o.attrs[name]
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__doc__":
                return None
            if name == "__wrapped__":
                raise self.err("AttributeError", name)
            if name == "__dict__":
                return o.attrs
            raise self.err("AttributeError", name)
        if isinstance(o, Bound):
            if name == "__self__":
                return o.self
            if name == "__func__":
                return o.func
            if name == "__name__":
                return getattr(o.func, "name", "?")
            return self._getattr(o.func, name)
        if isinstance(o, Builtin):
            if name == "__name__":
                return o.name
            at = getattr(o, "attrs", None)
            if at and name in at:
                return at[name]
            return self.models.builtin_attr(self, o, name)
        if isinstance(o, ExcObj):
            if name == "args":
                return (o.msg,)
            return UnkV("exception attribute")
        if isinstance(o, OpaqueObj):
            return self.models.opaque_attr(self, o, name)
        if isinstance(o, Wrapped):
            if o.kind == "property" and name in ("setter", "getter", "deleter"):
                if name == "setter":
                    return Builtin("property.setter", lambda it, a, k: Wrapped("property", o.func, a[0]))
                return Builtin("property." + name, lambda it, a, k: o)
            return self._getattr(o.func, name)
        if isinstance(o, (list, tuple, dict, str, set, int, float, bool, type(None), range, USeq, Iter, LazyGen, bytes)):
            return self.models.native_attr(self, o, name)
        if isinstance(o, Cond):
            return UnkV("cond attr")
        raise Undecided("attribute %s of %r" % (name, o))

    def raw_new(self, a):
        cls = a[0]
        if isinstance(cls, ClassV):
            return Obj(cls)
        raise Undecided("__new__")

    def raw_setattr(self, o, name, v):
        o.attrs = o.attrs if o.attrs is not None else {}
        if o.frozen:
            self.event("setattr", label=o.frozen, attr=name, new=v, old=o.attrs.get(name))
        o.attrs[name] = v

    def setattr(self, o, name, v, delete=False):
        if isinstance(o, (Obj, Arr)):
            cls = o.cls if isinstance(o, Obj) else o.t
            if isinstance(cls, ClassV):
                f, _ = cls.lookup("__setattr__")
                if isinstance(f, FuncV):
                    return self.call(Bound(f, o), [name, v], {})
                w, _ = cls.lookup(name)
                if isinstance(w, Wrapped) and w.kind == "property":
                    if w.extra is not None:
                        return self.call(w.extra, [o, v], {})
                    if not (o.attrs and name in o.attrs):
                        raise self.err("AttributeError", "can't set attribute")
            elif isinstance(o, Arr):
                if o.buf.frozen or o.frozen:
                    self.event("write", label=o.buf.frozen or o.frozen, how="assignment to .%s" % name)
                if name in ("shape", "flags", "dtype", "strides", "data", "real", "imag"):
                    raise Undecided("ndarray.%s assignment" % name)
                raise self.err("AttributeError", "'numpy.ndarray' object has no attribute '%s'" % name)
            self.raw_setattr(o, name, v)
            return
        if isinstance(o, ClassV):
            self.event("global_write", name="%s.%s" % (o.name, name), where="class attribute")
            self.dirty = True
            o.ns[name] = v
            return
        if isinstance(o, ModV):
            self.event("global_write", name="%s.%s" % (o.name, name), where="module attribute")
            self.dirty = True
            o.env.vars[name] = v
            return
        if isinstance(o, FuncV):
            if self.stack:
                self.event("global_write", name="%s.%s" % (o.name, name), where="function attribute")
            o.attrs[name] = v
            return
        if isinstance(o, (Builtin, OpaqueObj)):
            if not hasattr(o, "attrs") or o.attrs is None:
                o.attrs = {}
            o.attrs[name] = v
            self.event("ext_setattr", obj=o, attr=name)
            return
        if isinstance(o, (UnkV, Ext)):
            self.event("ext_setattr", obj=o, attr=name)
            return
        if isinstance(o, Wrapped):
            return
        raise self.err("AttributeError", "cannot set attribute %s" % name)

    # ------------------------------------------------------------ items
    def getitem(self, o, k):
        if isinstance(o, Arr):
            return self.models.arr_getitem(self, o, k)
        if isinstance(o, (list, tuple, str, range)):
            k2 = self.models.intindex(self, k)
            if isinstance(k2, slice):
                return o[k2]
            if isinstance(k2, bool) or isinstance(k2, int):
                try:
                    return o[k2]
                except IndexError:
                    raise self.err("IndexError", "index out of range")
            if isinstance(k2, (tuple, str, float, list)) or k2 is None:
                raise self.err("TypeError", "indices must be integers or slices")
            raise Undecided("index")
        if isinstance(o, dict):
            try:
                if k in o:
                    return o[k]
            except TypeError:
                if isinstance(k, (list, dict)):
                    raise self.err("TypeError", "unhashable")
                raise Undecided("dict key")
            if isinstance(k, (Arr, UnkV)):
                raise Undecided("dict key")
            raise self.err("KeyError", str(k))
        if isinstance(o, USeq):
            k2 = self.models.intindex(self, k)
            if isinstance(k2, int):
                return self.models.row_inst(self, o.elem, o.axis, ("row", k2))
            raise Undecided("index of symbolic sequence")
        if isinstance(o, UnkV):
            return UnkV("item of unknown")
        if isinstance(o, (Ext, Builtin, ClassV, ExcV)):
            return o if not isinstance(o, Builtin) else Ext("typing.item")
        if isinstance(o, Obj):
            f, _ = o.cls.lookup("__getitem__")
            if f is not None:
                return self.call(Bound(f, o), [k], {})
            raise self.err("TypeError", "'%s' object is not subscriptable" % o.cls.name)
        if isinstance(o, OpaqueObj):
            return self.models.opaque_item(self, o, k)
        if isinstance(o, (LazyGen, Iter)) or o is None or isinstance(o, (int, float, bool, FuncV, Bound)):
            raise self.err("TypeError", "object is not subscriptable")
        raise Undecided("subscript")

    def setitem(self, o, k, v):
        if isinstance(o, Arr):
            return self.models.arr_setitem(self, o, k, v)
        if isinstance(o, list):
            self.mutate_native(o, "item assignment")
            k2 = self.models.intindex(self, k)
            if isinstance(k2, (int, slice)):
                try:
                    o[k2] = v
                except IndexError:
                    raise self.err("IndexError", "assignment index out of range")
                return
            raise Undecided("list item")
        if isinstance(o, dict):
            self.mutate_native(o, "item assignment")
            try:
                o[k] = v
            except TypeError:
                raise Undecided("dict key")
            return
        if isinstance(o, tuple) or isinstance(o, str) or o is None:
            raise self.err("TypeError", "object does not support item assignment")
        if isinstance(o, UnkV):
            return
        if isinstance(o, Obj):
            f, _ = o.cls.lookup("__setitem__")
            if f is not None:
                return self.call(Bound(f, o), [k, v], {})
            raise self.err("TypeError", "'%s' object does not support item assignment" % o.cls.name)
        raise Undecided("item assignment")

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw, env=None):
        self.calls += 1
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw)
        if isinstance(f, Bound):
            return self.call(f.func, [f.self] + list(args), kw, env)
        if isinstance(f, Builtin):
            f2 = f
            return f2.fn(self, list(args), dict(kw))
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, ExcV):
            msg = args[0] if args and isinstance(args[0], str) else ""
            return ExcObj(f.name, msg)
        if isinstance(f, Ext):
            return self.models.call_ext(self, f.path, list(args), dict(kw))
        if isinstance(f, UnkV):
            return UnkV("call of unknown", args)
        if isinstance(f, Wrapped):
            if f.kind in ("staticmethod", "cached"):
                if f.kind == "cached":
                    self.event("cache", what=getattr(f.func, "name", "?"))
                return self.call(f.func, args, kw, env)
            raise self.err("TypeError", "object is not callable")
        if isinstance(f, Obj):
            g, _ = f.cls.lookup("__call__")
            if g is not None:
                return self.call(Bound(g, f), args, kw)
            raise self.err("TypeError", "'%s' object is not callable" % f.cls.name)
        if isinstance(f, OpaqueObj):
            return self.models.opaque_call(self, f, list(args), dict(kw))
        raise self.err("TypeError", "object is not callable")

    def bind_args(self, f, args, kw):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        if len(args) > len(pos) and a.vararg is None:
            raise self.err("TypeError", "%s() takes %d positional arguments but %d were given" % (f.name, len(pos), len(args)))
        for k, v in zip(pos, args):
            env[k] = v
        if a.vararg is not None:
            env[a.vararg.arg] = tuple(args[len(pos):])
        extra = {}
        names = {x.arg for x in a.args} | {x.arg for x in a.kwonlyargs}
        for k, v in kw.items():
            if k in names:
                if k in env:
                    raise self.err("TypeError", "%s() got multiple values for argument '%s'" % (f.name, k))
                env[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise self.err("TypeError", "%s() got an unexpected keyword argument '%s'" % (f.name, k))
        if a.kwarg is not None:
            env[a.kwarg.arg] = extra
        nd = len(f.defaults)
        for i, k in enumerate(pos):
            if k not in env:
                j = i - (len(pos) - nd)
                if j >= 0:
                    env[k] = f.defaults[j]
                else:
                    raise self.err("TypeError", "%s() missing required argument '%s'" % (f.name, k))
        for x in a.kwonlyargs:
            if x.arg not in env:
                if x.arg in f.kwdefaults:
                    env[x.arg] = f.kwdefaults[x.arg]
                else:
                    raise self.err("TypeError", "%s() missing keyword-only argument '%s'" % (f.name, x.arg))
        return env

    def call_func(self, f, args, kw):
        if len(self.stack) > self.MAX_DEPTH:
            raise Undecided("recursion depth")
        vars_ = self.bind_args(f, args, kw)
        env = Env(f.env if not f.env.is_class else self._skip_class(f.env), f.module, f)
        env.vars = vars_
        env.first = args[0] if args else (next(iter(vars_.values())) if vars_ else None)
        self.visited.add((f.module.path, f.node.lineno, f.name))
        site = self.site
        self.stack.append((f.module.path, f.node.lineno, f.name, site))
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env)
            if f.is_gen:
                env.vars["__yield__"] = out = []
                try:
                    self.exec_body(f.node.body, env)
                except Return:
                    pass
                return Iter(out)
            try:
                self.exec_body(f.node.body, env)
            except Return as r:
                return r.v
            return None
        finally:
            self.stack.pop()
            self.site = site

    def _skip_class(self, env):
        while env is not None and env.is_class:
            env = env.parent
        return env

    def instantiate(self, c, args, kw):
        if c.is_exc:
            o = Obj(c)
            init, _ = c.lookup("__init__")
            if isinstance(init, FuncV):
                self.call_func(init, [o] + list(args), kw)
            return o
        new, k = c.lookup("__new__")
        if new is not None:
            g = new.func if isinstance(new, Wrapped) else new
            o = self.call(g, [c] + list(args), kw)
        elif c.is_array:
            raise Undecided("ndarray.__new__")
        else:
            o = Obj(c)
        ok = isinstance(o, Obj) and o.cls.isa(c) or isinstance(o, Arr) and isinstance(o.t, ClassV) and o.t.isa(c)
        if ok:
            init, k = c.lookup("__init__")
            if init is not None:
                self.call(init, [o] + list(args), kw)
            elif c.dataclass:
                self.dataclass_init(c, o, args, kw)
            elif (args or kw) and new is None:
                raise self.err("TypeError", "%s() takes no arguments" % c.name)
        return o

    def dataclass_init(self, c, o, args, kw):
        fields = c.dataclass
        if len(args) > len(fields):
            raise self.err("TypeError", "too many arguments")
        vals = dict(zip(fields, args))
        for k, v in kw.items():
            if k not in fields or k in vals:
                raise self.err("TypeError", "unexpected keyword argument '%s'" % k)
            vals[k] = v
        for k in fields:
            if k in vals:
                o.attrs[k] = vals[k]
            else:
                v, kk = c.lookup(k)
                if kk is None:
                    raise self.err("TypeError", "missing argument '%s'" % k)
                o.attrs[k] = v
        p, _ = c.lookup("__post_init__")
        if p is not None:
            self.call(Bound(p, o), [], {})


class LazyGen:
    """A generator expression."""

    def __init__(self, it, node, env):
        self.it = it
        self.node = node
        self.env = env
        self.done = False
        g = node.generators[0]
        # the first iterable is evaluated immediately
        self.first = it.ev(g.iter, env)

    def stream(self, f):
        """Feed items one by one to f until it returns True; None if symbolic."""
        it, n = self.it, self.node
        if self.done:
            return
        self.done = True
        gens = n.generators

        class Stop(Exception):
            pass

        def go(i, e):
            if i == len(gens):
                if f(it.ev(n.elt, e)):
                    raise Stop()
                return
            g = gens[i]
            src = self.first if i == 0 else it.ev(g.iter, e)
            items = it.iterate(src)
            if isinstance(items, USeq):
                raise SymGen(items, i)
            for x in items:
                it.assign(g.target, x, e)
                if all(it.truth(it.ev(c, e)) for c in g.ifs):
                    go(i + 1, e)
        e = Env(self.env, self.env.module)
        try:
            go(0, e)
        except Stop:
            pass

    def run(self):
        if self.done:
            return []
        out = []
        try:
            self.stream(lambda v: out.append(v) and False)
            return out
        except SymGen as s:
            if out:
                raise Undecided("mixed generator")
            self.done = False
            return self.run_sym()

    def run_sym(self):
        it, n = self.it, self.node
        self.done = True
        gens = n.generators
        if len(gens) != 1:
            raise Undecided("nested symbolic generator")
        e = Env(self.env, self.env.module)
        items = it.iterate(self.first)
        g = gens[0]
        it.assign(g.target, items.elem, e)
        it.each(items.axis)
        try:
            for c in g.ifs:
                if it.known(it.cond_of(it.ev(c, e))) is not True:
                    raise Undecided("filter over a symbolic sequence")
            return USeq(it.ev(n.elt, e), items.axis)
        finally:
            it.open_axes.pop()


class SymGen(Exception):
    def __init__(self, items, i):
        self.items = items
        self.i = i


class Iter:
    def __init__(self, items):
        self.items = list(items)
        self.pos = 0
