"""Operands of the scenarios, built by the analysed constructors themselves."""
from driver import *
import spec


class Missing(Exception):
    """A public name the specification relies on does not exist any more."""


def radius(it, name, dt="f"):
    r = real(name, "len", dt)
    it.assume(it.cmpc(">", r.c), True)
    return r


def operand(it, w, kind, label, d, form="nd", dt="f", cls=None):
    """The operand and its printable label."""
    c = lambda n: (cls or {}).get(n) or w.cls(n)
    if kind.startswith("="):
        return int(kind[1:])
    if kind.startswith("'"):
        return kind[1:]
    if kind == "pt":
        return as_form(vec(label, d, "pt", dt), form, it, w, "Point")
    if kind == "vec":
        return as_form(vec(label, d, "vec", dt), form, it, w, "Vector")
    if kind == "dir":
        return as_form(vec(label, d, "dir", dt), form, it, w, "Vector")
    if kind == "Point":
        return it.call(c("Point"), [vec(label, d, "pt", dt)], {})
    if kind in ("VecL", "VecD"):
        return it.call(c("Vector"), [vec(label, d, "vec" if kind == "VecL" else "dir", dt)], {})
    if kind == "pts":
        return as_form(pts(label, "N", d, "pt", dt), form, it, w, "Points")
    if kind == "Points":
        return it.call(c("Points"), [pts(label, "N", d, "pt", dt)], {})
    if kind[0] in "pP" and kind[1:].isdigit():
        return as_form(pts(label, int(kind[1:]), d, "pt", dt), form, it, w, "Points")
    if kind == "Line":
        return it.call(c("Line"), [vec(label + ".p", d, "pt", dt), vec(label, d, "dir", dt)], {})
    if kind == "LineV":
        return it.call(c("Line"), [vec(label + ".p", d, "pt", dt), vec(label, d, "vec", dt)], {})
    if kind == "Plane":
        return it.call(c("Plane"), [vec(label + ".p", d, "pt", dt), vec(label, d, "dir", dt)], {})
    if kind in ("Circle", "Sphere"):
        return it.call(c(kind), [vec(label + ".c", d, "pt", dt), radius(it, label + ".r", dt)], {})
    if kind == "Cylinder":
        return it.call(c(kind), [vec(label + ".p", d, "pt", dt), vec(label, d, "vec", dt), radius(it, label + ".r", dt)], {})
    if kind == "Triangle":
        return it.call(c(kind), [vec(label + "." + q, d, "pt", dt) for q in "ABC"], {})
    if kind == "Seg":
        return it.call(c("LineSegment"), [vec(label + "." + q, d, "pt", dt) for q in "ab"], {})
    if kind == "len":
        return radius(it, label, dt)
    if kind == "lims":
        return vec(label, 2, "num", dt)
    if kind == "num":
        return real(label, "num", dt)
    if kind == "[dir,dir]":
        return [vec(label + "0", d, "dir", dt), vec(label + "1", d, "dir", dt)]
    raise KeyError(kind)


def dt_of(dt, i, static):
    """Number type of argument i: one letter for all, or alternating from the receiver on."""
    return dt[(i + (not static)) % len(dt)]


def split(o):
    """(module or class path, attribute) of an operation."""
    n = o.name.split("#")[0]
    return n.rsplit(".", 1)


def apply(it, w, p, o, d, form="nd", dt="f", cls=None, extra=None, recv=None, args=None):
    """Build the operands, mark them, call the operation."""
    owner, attr = split(o)
    kw = {}
    ops = []
    vals = []
    if recv is None and not o.static:
        recv = operand(it, w, o.recv, "self", d, "nd", dt[0], cls)
    for i, k in enumerate(o.args):
        if k.startswith("!"):
            a, v = k[1:].split("=")
            kw[a] = {"False": False, "True": True}.get(v, v)
            if v.isdigit():
                kw[a] = int(v)
            continue
        v = args[i] if args is not None else operand(it, w, k, "a%d" % i, d, form, dt_of(dt, i, o.static), cls)
        vals.append(v)
        ops.append(("argument %d" % (i + 1), v))
    if extra:
        kw.update(extra)
    if recv is not None:
        ops.insert(0, ("the receiver", recv))
    try:
        if o.static:
            tgt = w.find(owner) if not (cls and owner.split(".")[-1] in cls) else cls[owner.split(".")[-1]]
            f = it.getattr(tgt, attr)
        else:
            f = it.getattr(recv, attr)
    except (KeyError, PyExc) as e:
        if isinstance(e, PyExc) and e.name != "AttributeError":
            raise
        raise Missing(o.name)
    p.extra["func"] = f
    mark(it, p, *ops)
    return it.call(f, vals, kw)


def scenario(o, d, **k):
    def s(it, w, p):
        return apply(it, w, p, o, d, **k)
    return s


def runs(w, ops=None, dims=None, budget=300, secs=40, **k):
    """Explore every operation of the table."""
    for o in (ops if ops is not None else spec.OPS):
        for d in o.dims:
            if dims and d not in dims:
                continue
            nm = "%s%s [%dD]" % (o.short, "" if not o.args or not o.args[0].startswith("'") else "(%s)" % o.args[0], d)
            ps = w.explore(scenario(o, d, **k), budget=budget, secs=secs, name=nm)
            yield o, d, nm, ps
