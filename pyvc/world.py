"""Collaborators whose code is unknown: classes passed in as settings, and mappings of unknown settings.

A contract that takes such a collaborator says what it may be called with (obligations at every call) and what is known of
its answers; calls are counted in ghost state that loop invariants may speak about.
"""
from __future__ import annotations

import z3

from . import values as V
from .values import LIVE, Builtin, Infeasible, Ref, SRef, SV, Unsupported, mk_and, mk_not

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


class Ghost(object):
    """The class of ghost records (``EObj(Ghost, {...})``)."""


class Unknown(object):
    """The class of values nothing is known about."""


class OpenDict(SV):
    """A dict with unknown entries (those of ``base`` but for the keys in ``minus``) overridden by the known ones in ``d``."""

    __slots__ = ("base", "d", "minus")

    def __init__(self, base, d=None, minus=()):
        self.base, self.d, self.minus = base, dict(d or {}), frozenset(minus)
        LIVE.append(self)

    def has(self, key):
        if key in self.d:
            return TRUE
        return self.base_has(key)

    def base_has(self, key):
        if key in self.minus:
            return FALSE
        return z3.Function(f"haskey.{key}", Ref, z3.BoolSort())(self.base)

    def base_get(self, key):
        return SRef(z3.Function(f"getkey.{key}", Ref, Ref)(self.base), Unknown)

    def vc_contains(self, eng, key):
        if isinstance(key, SV):
            raise Unsupported("symbolic dict key")
        return self.has(key)

    def vc_getitem(self, eng, key, node):
        if isinstance(key, SV):
            raise Unsupported("symbolic dict key")
        if key in self.d:
            return self.d[key]
        eng.require(self.base_has(key), KeyError, f"there is a setting {key!r}", node)
        return self.base_get(key)

    def vc_setitem(self, eng, key, v, node):
        if isinstance(key, SV):
            raise Unsupported("symbolic dict key")
        self.d[key] = v

    def vc_getattr(self, eng, name, node):
        if name == "copy":
            return Builtin(name, lambda: OpenDict(self.base, self.d, self.minus))
        if name == "update":
            def update(*a, **kw):
                for o in a:
                    o = eng.deref(o)
                    if isinstance(o, V.LocalDict):
                        self.d.update(o.d)
                    elif isinstance(o, dict):
                        self.d.update(o)
                    else:
                        raise Unsupported("update of settings with unknown settings")
                self.d.update(kw)

            return Builtin(name, update)
        if name == "get":
            def get(key, default=None):
                if key in self.d:
                    return self.d[key]
                if eng.branch(self.base_has(key)):
                    return self.base_get(key)
                return default

            return Builtin(name, get)
        if name == "setdefault":
            def setdefault(key, default=None):
                if key in self.d:
                    return self.d[key]
                if eng.branch(self.base_has(key)):
                    return self.base_get(key)
                self.d[key] = default
                return default

            return Builtin(name, setdefault)
        if name == "pop":
            def pop(key, *default):
                had = self.d.pop(key) if key in self.d else None
                if had is None:
                    if eng.branch(self.base_has(key)):
                        had = self.base_get(key)
                    elif default:
                        had = default[0]
                    else:
                        eng.require(FALSE, KeyError, f"there is a setting {key!r}", node)
                        raise Infeasible()
                self.minus = self.minus | {key}
                return had

            return Builtin(name, pop)
        raise Unsupported(f"dict.{name} of unknown settings")


def merged(eng, pairs):
    """The dict display / call ``{**a, k: v, **b}``: later entries win; at most one part has unknown entries."""
    d, base = {}, None
    for p in pairs:
        p = eng.deref(p)
        if isinstance(p, OpenDict):
            if base is not None:
                raise Unsupported("two mappings of unknown settings")
            if d:
                # earlier known entries lose against unknown ones
                out = dict(d)
                for k, v in d.items():
                    if k in p.d:
                        continue
                    if eng.branch(p.base_has(k)):
                        del out[k]
                d = out
            base = p
            d.update(p.d)
        else:
            d.update(p.d if isinstance(p, V.LocalDict) else p)
    if base is None:
        return V.LocalDict(d)
    return OpenDict(base.base, d, base.minus - set(d))


def settings(kwargs):
    """The keyword arguments of a call as (unknown part or None, known part)."""
    kw = dict(kwargs)
    return kw.pop("**", None), kw


def lookup(eng, kwargs, key):
    """The value passed under a key on the current path: (True, value) or (False, None)."""
    rest, kw = settings(kwargs)
    if key in kw:
        return True, kw[key]
    if rest is not None:
        if key in rest.d:
            return True, rest.d[key]
        if eng.branch(rest.base_has(key)):
            return True, rest.base_get(key)
    return False, None


def same_settings(eng, kwargs, base, over):
    """A formula: the call's keyword arguments are exactly the unknown ``base`` overridden by the known ``over``.

    ``over`` maps keys to a value, or to a function that says whether the given value is right.
    """
    rest, kw = settings(kwargs)
    known = dict(rest.d) if rest is not None else {}
    known.update(kw)
    want = dict(over)
    if base is not None:
        for k, v in base.d.items():
            want.setdefault(k, v)
    conds = []
    if (rest is None) != (base is None):
        return FALSE
    if rest is not None and not rest.base.eq(base.base):
        return FALSE
    for k in sorted(set(known) | set(want)):
        if k in want and k in known:
            w = want[k]
            conds.append(w(known[k]) if callable(w) and not isinstance(w, type) else same(eng, known[k], w))
        elif k in known:
            # given although only the unknown settings may have it
            if base is None:
                return FALSE
            conds.append(mk_and([base.base_has(k), same(eng, known[k], base.base_get(k))]))
        else:
            return FALSE
    if rest is not None and (rest.minus ^ base.minus) - set(known):
        return FALSE
    return mk_and(conds)


def same(eng, a, b):
    a, b = eng.deref(a), eng.deref(b)
    if isinstance(a, OpenDict) or isinstance(b, OpenDict):
        if not (isinstance(a, OpenDict) and isinstance(b, OpenDict)) or not a.base.eq(b.base) or a.minus != b.minus:
            return FALSE
        if set(a.d) != set(b.d):
            return FALSE
        return mk_and([same(eng, a.d[k], b.d[k]) for k in a.d])
    if a is b:
        return TRUE
    if isinstance(a, SRef) or isinstance(b, SRef):
        try:
            t = eng.identical(a, b)
        except Unsupported:
            return FALSE
        return t if isinstance(t, z3.ExprRef) else z3.BoolVal(bool(t))
    if isinstance(a, V.EObj) or isinstance(b, V.EObj):
        return FALSE
    t = eng.eq(a, b)
    return t if isinstance(t, z3.ExprRef) else z3.BoolVal(bool(t))


def positional(eng, args):
    """The positional arguments of a call as one list."""
    items = []
    for a in args:
        if hasattr(a, "it"):
            items.extend(("v", b.value) if not b.binders and z3.is_true(b.guard) else ("b", b) for b in a.it.branches)
        else:
            items.append(("v", a))
    return V.LocalList(items)


class UnknownClass(SV):
    """A class given as a setting; ``on_new(eng, args, kwargs, node)`` checks the call and gives the new object."""

    __slots__ = ("name", "on_new", "bases")

    def __init__(self, name, on_new, bases=()):
        self.name, self.on_new, self.bases = name, on_new, tuple(bases)

    def vc_call(self, eng, args, kwargs, node):
        if eng.binders or eng.ctx.parent is not None:
            raise Unsupported("a call of unknown code inside a loop or expression")
        return self.on_new(eng, list(args), dict(kwargs), node)

    def vc_issubclass(self, eng, cls):
        return any(issubclass(b, cls) for b in self.bases) or None

    def vc_getattr(self, eng, name, node):
        if name == "__name__":
            return V.SStr([("s", z3.Const(f"name.{self.name}", V.StrS))])
        raise Unsupported(f"attribute {name!r} of an unknown class")


class Facade(SV):
    """An object of an unknown class: only the given members exist.  Members are values or functions of the engine."""

    __slots__ = ("members", "label")

    def __init__(self, label, members):
        self.label, self.members = label, members

    def vc_getattr(self, eng, name, node):
        if name not in self.members:
            raise Unsupported(f"attribute {name!r} of {self.label}")
        m = self.members[name]
        return m(eng, node) if callable(m) and not isinstance(m, (type, SV)) else m


def method(fn):
    """A member that is called: fn(eng, args, kwargs, node)."""

    def member(eng, node):
        def go(*a, **k):
            if eng.binders or eng.ctx.parent is not None:
                raise Unsupported("a call of unknown code inside a loop or expression")
            return fn(eng, list(a), dict(k), node)

        return Builtin("method", go)

    return member


# ---------------------------------------------------------------------------------------------- classes made on the way


class Member(object):
    """A method of a class that exists only in the proof: fn(eng, obj, args, kwargs, node)."""

    def __init__(self, fn):
        self.fn = fn


def bound_member(eng, m, obj, node=None):
    return Builtin("member", lambda *a, **k: m.fn(eng, obj, list(a), dict(k), node))


def unknown_class(name, base=object, **members):
    """A class of which only the given members are known (functions of the engine, the object and the call)."""

    def guarded(fn):
        def go(eng, obj, args, kwargs, node):
            if eng.binders or eng.ctx.parent is not None:
                raise Unsupported("a call of unknown code inside a loop or expression")
            return fn(eng, obj, args, kwargs, node)

        return Member(go)

    ns = {k: (guarded(v) if not isinstance(v, property) and callable(v) else v) for k, v in members.items()}
    ns["__module__"] = "jinete.unknown"
    return type(base)(name, (base,), ns)


def class_def(eng, stmt):
    """A class nested in a function: its methods see the variables around it."""
    if stmt.keywords or stmt.decorator_list or len(stmt.bases) > 1:
        raise Unsupported("nested class")
    bases = [eng.deref(eng.eval(b)) for b in stmt.bases] or [object]
    if not isinstance(bases[0], type):
        raise Unsupported("base class of a nested class")
    frame = eng.frame
    ns = {"__module__": "jinete.nested"}
    made = []

    def method_of(node):
        def fn(e, obj, args, kwargs, call):
            saved = e.frame
            e.frame = frame
            try:
                defaults = [e.eval(d) for d in node.args.defaults]
                kwdefaults = {x.arg: e.eval(d) for x, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None}
            finally:
                e.frame = saved
            binding = e.bind_args(node.args, node.name, defaults, kwdefaults, [obj] + list(args), kwargs)
            return e.run_frame(e.make_frame(node.name, frame, binding, made[0], obj), node)

        return Member(fn)

    for b in stmt.body:
        kind = type(b).__name__
        if kind == "Pass" or kind == "Expr" and type(b.value).__name__ == "Constant":
            continue
        if kind == "FunctionDef" and not b.decorator_list:
            ns[b.name] = method_of(b)
            continue
        raise Unsupported("body of a nested class")
    made.append(type(bases[0])(stmt.name, tuple(bases), ns))
    frame.locals[stmt.name] = made[0]
