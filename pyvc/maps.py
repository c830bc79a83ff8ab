"""Dictionaries keyed by model objects (which are compared by identity): one array for the keys, others for the values."""
from __future__ import annotations

import z3

from .values import NULL, Bnd, Branch, Builtin, LocalDict, LocalList, LocalSet, Ref, SBool, SIter, SNum, SRef, SSeq, SSet, SV, Infeasible, Unsupported, forall_pat, has_quant, mk_and, to_real

TRUE = z3.BoolVal(True)


class SMap(SV):
    """A mutable mapping; what it holds is kept with the fields of the objects (under ``name``)."""

    __slots__ = ("name", "cls", "kind")

    def __init__(self, eng, cls, kind, name=None):
        for c in cls.__mro__:
            if c is not object and ("__eq__" in c.__dict__ or "__hash__" in c.__dict__):
                raise Unsupported(f"dict keyed by {cls.__name__}")
        self.name = name or f"map!{next(eng.counter)}"
        self.cls, self.kind = cls, kind

    # ---- the arrays

    def arrays(self, eng):
        found = []
        saved, eng.fact = eng.fact, lambda e: None
        ages = list(eng.ages)
        try:
            eng.build(self.kind, lambda suffix, sort: (found.append((suffix, sort)), z3.FreshConst(sort))[1])
        finally:
            eng.fact = saved
            eng.ages[:] = ages
        return found

    def empty(self, eng):
        eng.heap[(self.name, "#has")] = z3.K(Ref, z3.BoolVal(False))
        for suffix, sort in self.arrays(eng):
            eng.heap[(self.name, "#val" + suffix)] = z3.Const(f"H0.{self.name}.#val{suffix}", z3.ArraySort(Ref, sort))
        return self

    def arbitrary(self, eng):
        k = next(eng.counter)
        has = z3.Const(f"{self.name}.has!{k}", z3.ArraySort(Ref, z3.BoolSort()))
        eng.heap[(self.name, "#has")] = has
        eng.ages.append((has, eng.births, False))
        x = z3.Const(f"x!{next(eng.counter)}", Ref)
        eng.fact(forall_pat([x], z3.Implies(z3.Select(has, x), x != NULL), [z3.Select(has, x)]))
        for suffix, sort in self.arrays(eng):
            val = z3.Const(f"{self.name}.val{suffix}!{k}", z3.ArraySort(Ref, sort))
            eng.heap[(self.name, "#val" + suffix)] = val
            eng.ages.append((val, eng.births, False))
            if suffix == "#len":
                eng.fact(forall_pat([x], z3.Select(val, x) >= 0, [z3.Select(val, x)]))
            if self.kind.startswith("ref:"):
                v = z3.Select(val, x)
                eng.fact(forall_pat([x], z3.Implies(z3.Select(has, x), v != NULL), [v]))
        return self

    def has(self, eng, k):
        arr = eng.heap[(self.name, "#has")]
        return z3.Select(arr, k)

    def at(self, eng, k):
        sorts = dict(self.arrays(eng))
        return eng.build(self.kind, lambda suffix, sort: z3.Select(eng.heap[(self.name, "#val" + suffix)], k))

    def key(self, eng, k):
        k = eng.deref(k)
        if k is None:
            return NULL
        if not isinstance(k, SRef):
            raise Unsupported("a key of another kind")
        return k.e

    # ---- the protocol

    def vc_contains(self, eng, x):
        return self.has(eng, self.key(eng, x))

    def vc_getitem(self, eng, x, node):
        k = self.key(eng, x)
        eng.require(self.has(eng, k), KeyError, "the key is in the dict", node)
        return self.at(eng, k)

    def vc_setitem(self, eng, x, v, node):
        k = self.key(eng, x)
        eng.heap[(self.name, "#has")] = z3.Store(eng.heap[(self.name, "#has")], k, z3.BoolVal(True))
        for suffix, sort, term in eng.decompose(self.kind, v):
            name = (self.name, "#val" + suffix)
            eng.heap[name] = z3.Store(eng.heap[name], k, term)
        if isinstance(v, (LocalList, LocalSet)):
            v.moved = lambda: self.at(eng, k)

    def keys(self, eng):
        arr = eng.heap[(self.name, "#has")]
        return SSet(lambda x: z3.Select(arr, x), "ref:" + self.cls.__name__)

    def pairs(self, eng, what):
        x = z3.Const(f"key!{next(eng.counter)}", Ref)
        key = SRef(x, self.cls)
        val = self.at(eng, x)
        return SIter([Branch([Bnd(x, self.has(eng, x), False)], TRUE, val if what == "values" else (key, val))])

    def vc_iter(self, eng):
        return eng.to_iter(self.keys(eng))

    def vc_truth(self, eng):
        x = z3.Const(f"key!{next(eng.counter)}", Ref)
        return z3.Exists([x], self.has(eng, x))

    def vc_getattr(self, eng, name, node):
        if name in ("values", "items"):
            return Builtin(name, lambda: self.pairs(eng, name))
        if name == "keys":
            return Builtin(name, lambda: self.keys(eng))
        if name == "get":
            def get(x, default=None):
                k = self.key(eng, x)
                if eng.branch(self.has(eng, k)):
                    return self.at(eng, k)
                return default

            return Builtin(name, get)
        if name == "setdefault":
            def setdefault(x, default=None):
                k = self.key(eng, x)
                if not eng.branch(self.has(eng, k)):
                    self.vc_setitem(eng, x, default, node)
                return self.at(eng, k)

            return Builtin(name, setdefault)
        if name == "pop":
            def pop(x, *default):
                k = self.key(eng, x)
                if default and not eng.branch(self.has(eng, k)):
                    return default[0]
                eng.require(self.has(eng, k), KeyError, "the key is in the dict", node)
                v = eng.detach(self.at(eng, k))
                eng.heap[(self.name, "#has")] = z3.Store(eng.heap[(self.name, "#has")], k, z3.BoolVal(False))
                return v

            return Builtin(name, pop)
        if name == "copy":
            def copy():
                m = SMap(eng, self.cls, self.kind)
                for key in [k for k in eng.heap if k[0] == self.name]:
                    eng.heap[(m.name, key[1])] = eng.heap[key]
                return m

            return Builtin(name, copy)
        raise Unsupported(f"dict.{name}")


class SPool(SV):
    """A mutable set of model objects; what it holds is kept with the fields of the objects."""

    __slots__ = ("name", "cls")

    def __init__(self, eng, cls, name=None):
        for c in cls.__mro__:
            if c is not object and ("__eq__" in c.__dict__ or "__hash__" in c.__dict__):
                raise Unsupported(f"set of {cls.__name__}")
        self.name = name or f"map!pool{next(eng.counter)}"
        self.cls = cls

    @property
    def key(self):
        return (self.name, "#has")

    def holding(self, eng, mem):
        """With the elements that satisfy ``mem``."""
        self.arbitrary(eng)
        x = z3.Const(f"x!{next(eng.counter)}", Ref)
        has = z3.Select(eng.heap[self.key], x)
        eng.fact(forall_pat([x], has == mem(x), [has]))
        return self

    def arbitrary(self, eng):
        k = next(eng.counter)
        has = z3.Const(f"{self.name}.has!{k}", z3.ArraySort(Ref, z3.BoolSort()))
        eng.heap[self.key] = has
        eng.ages.append((has, eng.births, False))
        x = z3.Const(f"x!{next(eng.counter)}", Ref)
        eng.fact(forall_pat([x], z3.Implies(z3.Select(has, x), x != NULL), [z3.Select(has, x)]))
        return self

    def has(self, eng, k):
        """Membership; in a loop that takes elements out, as before the loop (no iteration takes out what another did:
        shown with the loop's effects)."""
        arr = eng.heap[self.key]
        base = arr
        while z3.is_store(base):
            base = base.arg(0)
        if z3.is_const(base) and base.decl().name() in eng.mid_of and eng.pools.get(self.name) == "strict":
            mid, old = eng.mid_of[base.decl().name()]
            arr = z3.substitute(arr, (mid, old))
        return z3.simplify(z3.Select(arr, k))

    def raw(self, eng, x):
        x = eng.deref(x)
        if not isinstance(x, SRef):
            raise Unsupported("an element of another kind")
        return x.e

    def vc_set(self, eng):
        arr = eng.heap[self.key]
        return SSet(lambda x: z3.Select(arr, x), "ref:" + self.cls.__name__)

    def vc_iter(self, eng):
        return eng.to_iter(self.vc_set(eng))

    def vc_contains(self, eng, x):
        return z3.Select(eng.heap[self.key], self.raw(eng, x))

    def vc_truth(self, eng):
        x = z3.Const(f"key!{next(eng.counter)}", Ref)
        return z3.Exists([x], z3.Select(eng.heap[self.key], x))

    def store(self, eng, k, v):
        eng.heap[self.key] = z3.Store(eng.heap[self.key], k, z3.BoolVal(v))

    def vc_augment(self, eng, op, v, node):
        import ast

        if isinstance(op, ast.Sub):
            self.without(eng, v)
        elif isinstance(op, ast.BitOr):
            s = eng.as_set(v)
            old = eng.heap[self.key]
            if s is not None:
                self.holding(eng, lambda x: z3.Or(z3.Select(old, x), s.mem(x)))
        else:
            raise Unsupported("set operator")
        return self

    def without(self, eng, v):
        from .builtins_model import as_some_set

        if eng.binders or eng.ctx.parent is not None:
            from .loops import store_all

            store_all(eng, self.key, [Branch(b.binders, b.guard, (self.raw(eng, b.value), z3.BoolVal(False)))
                                      for b in eng.to_iter(as_some_set(eng, v)).branches])
            return
        s = eng.as_set(as_some_set(eng, v))
        old = eng.heap[self.key]
        if s is not None:
            self.holding(eng, lambda x: z3.And(z3.Select(old, x), z3.Not(s.mem(x))))

    def vc_getattr(self, eng, name, node):
        if name == "add":
            return Builtin(name, lambda x: self.store(eng, self.raw(eng, x), True))
        if name == "discard":
            return Builtin(name, lambda x: self.store(eng, self.raw(eng, x), False))
        if name == "remove":
            def remove(x):
                k = self.raw(eng, x)
                eng.pools[self.name] = "strict"
                eng.require(self.has(eng, k), KeyError, "the element to remove is in the set", node)
                self.store(eng, k, False)

            return Builtin(name, remove)
        if name in ("difference_update", "update"):
            return Builtin(name, lambda v: self.without(eng, v) if name == "difference_update" else self.vc_augment(eng, __import__("ast").BitOr(), v, node))
        if name in ("copy", "union", "difference", "intersection", "issubset", "isdisjoint"):
            from .builtins_model import set_method

            return set_method(eng, self.vc_set(eng), name)
        raise Unsupported(f"set.{name}")


class Stored(SPool):
    """``__dict__`` of an object, as far as stored values of cached properties are dropped from it."""

    __slots__ = ()

    def vc_getattr(self, eng, name, node):
        if name == "pop":
            def pop(key, *default):
                if not isinstance(key, str) or not default:
                    raise Unsupported("__dict__.pop")
                self.store(eng, attribute(key), False)
                return Builtin("stored value", None)

            return Builtin(name, pop)
        raise Unsupported(f"__dict__.{name}")


def attribute(name):
    return z3.Const("attribute." + name, Ref)


def kind_of(eng, v):
    v = eng.deref(v)
    if isinstance(v, SRef):
        eng.schema.classes.setdefault(v.cls.__name__, v.cls)
        return f"ref:{v.cls.__name__}"
    if isinstance(v, bool) or isinstance(v, SBool):
        return "bool"
    if isinstance(v, int) or isinstance(v, SNum) and v.is_int:
        return "int"
    if isinstance(v, (float, SNum)):
        return "num"
    if isinstance(v, (LocalList, SSeq)):
        s = eng.to_seq(v)
        return "list:" + kind_of(eng, s.get(z3.IntVal(0)))
    raise Unsupported("the kind of a dict's values")


def opened(eng, d, key, v):
    """The (empty) dict ``d`` gets a key that is a model object."""
    if d.d or eng.binders or eng.ctx.parent is not None:
        raise Unsupported("dict with a symbolic key")
    m = SMap(eng, key.cls, kind_of(eng, v)).empty(eng)
    d.moved = lambda: m
    return m


def of_pairs(eng, b):
    """The dict comprehension over one symbolic branch of (key, value) pairs."""
    k, v = b.value
    if not isinstance(k, SRef):
        raise Unsupported("dict comprehension over a symbolic domain")
    m = SMap(eng, k.cls, kind_of(eng, v)).arbitrary(eng)
    x = z3.Const(f"key!{next(eng.counter)}", Ref)
    has = m.has(eng, x)
    for_all = mk_and([b.cond])
    eng.fact(E_forall(b.consts, z3.Implies(for_all, m.has(eng, k.e)), k.e, m.has(eng, k.e)))
    # the value kept under a key is that of some pair with this key
    params = list(eng.binders)
    ren = [(c, eng.fresh_param(c.sort(), "pair", params + [x])) for c in b.consts]
    from .values import subst_branch

    w = subst_branch(b, ren)
    facts = [w.cond, w.value[0].e == x]
    for suffix, sort, term in eng.decompose(m.kind, w.value[1]):
        facts.append(z3.Select(eng.heap[(m.name, "#val" + suffix)], x) == term)
    eng.fact(forall_pat([x], z3.Implies(has, mk_and(facts)), [has]))
    return m


def E_forall(vs, body, *pats):
    return forall_pat(vs, body, [p for p in pats if not z3.is_const(p)][:1])
