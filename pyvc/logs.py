"""Dictionaries whose keys are compared by value (places, pairs of places), kept as the log of what was written.

A key is in the dictionary when some entry of the log has an equal key.  The value under a key is that of one of the entries
with this key (the last one: which one that is stays open).  Values are records with known names.
"""
from __future__ import annotations

import z3

from .values import Branch, Builtin, LocalDict, LocalList, SIter, SV, Infeasible, Unsupported, forall_pat, mk_and, mk_not, mk_or, subst_value

TRUE = z3.BoolVal(True)


class Record(SV):
    """A dict with known names, as it was when it was put into another dict (nobody changes it afterwards)."""

    __slots__ = ("d",)

    def __init__(self, d):
        self.d = dict(d)

    def vc_subst(self, pairs):
        return Record({k: subst_value(v, pairs) for k, v in self.d.items()})

    def vc_getitem(self, eng, key, node):
        key = eng.deref(key)
        if not isinstance(key, str):
            raise Unsupported("a name that is not known")
        eng.require(z3.BoolVal(key in self.d), KeyError, "the name is in the record", node)
        return self.d[key]

    def vc_contains(self, eng, key):
        key = eng.deref(key)
        if not isinstance(key, str):
            raise Unsupported("a name that is not known")
        return z3.BoolVal(key in self.d)

    def vc_iter(self, eng):
        return SIter([Branch([], TRUE, k) for k in self.d])

    def vc_getattr(self, eng, name, node):
        if name == "get":
            return Builtin(name, lambda key, default=None: self.d.get(eng.deref(key), default))
        if name in ("items", "keys", "values"):
            return Builtin(name, lambda: SIter([Branch([], TRUE, x) for x in getattr(self.d, name)()]))
        raise Unsupported(f"dict.{name}")


def record(eng, v):
    v = eng.deref(v)
    if isinstance(v, Record):
        return v
    if isinstance(v, LocalDict):
        return Record(v.d)
    return v


class KLog(SV):
    __slots__ = ("log", "there", "asked", "apart")

    def __init__(self, branches=(), apart=False):
        self.apart = len(branches) if apart else None      # (the entries given have different keys)
        self.log = LocalList([("b", b) for b in branches])
        self.there = LocalList()
        self.asked = {}

    # ---- entries

    def entries(self, items):
        return [Branch([], TRUE, x) if t == "v" else x for t, x in items]

    def among(self, eng, items, key):
        return mk_or([eng.exists_branch(b, eng.in_scope(b, lambda b=b: eng.eq(b.value[0], key))) 
                      for b in map(lambda b: renamed(eng, b), self.entries(items))])

    def initial(self):
        from .loops import Poison

        items = self.log.items
        while isinstance(items, Poison):
            items = items.before
        return items

    def settle(self, eng):
        """What was found to be in the dict while a loop filled it is in it."""
        if not self.there.items or not isinstance(self.log.items, list):
            return
        mark = ("there", id(self), len(self.there.items), len(self.log.items))
        if mark in eng.memo:
            return
        eng.memo[mark] = True
        for b in self.entries(self.there.items):
            eng.fact(eng.forall_branch(b, eng.in_scope(b, lambda b=b: self.among(eng, self.log.items, b.value))))

    def kept(self, eng):
        """The entries that hold the value of their key."""
        self.settle(eng)
        items = self.log.items
        if not isinstance(items, list):
            items.__len__()
        if self.apart == len(items):
            return [renamed(eng, b) for b in self.entries(items)]
        mark = ("kept", id(self), len(items))
        found = eng.memo.get(mark)
        if found is not None:
            return [renamed(eng, b) for b in found]
        out = []
        params = list(eng.binders)
        for b in self.entries(items):
            f = z3.Function(f"kept!{next(eng.counter)}", *[c.sort() for c in params + b.consts], z3.BoolSort())
            out.append(Branch(b.binders, mk_and([b.guard, f(*params, *b.consts)]) if params or b.consts else mk_and([b.guard, f()]), b.value))
        eng.memo[mark] = out
        for b, k in zip(self.entries(items), out):
            eng.fact(eng.forall_branch(b, eng.in_scope(b, lambda: mk_or(
                [eng.exists_branch(w, eng.in_scope(w, lambda w=w: eng.eq(w.value[0], b.value[0]))) for w in map(lambda w: renamed(eng, w), out)]))))
        return out

    # ---- the protocol

    def vc_contains(self, eng, x):
        from .loops import Poison

        items = self.log.items
        if not isinstance(items, Poison):
            self.settle(eng)
            return self.among(eng, items, x)
        if eng.spec_mode:
            raise Unsupported("a dict that a loop fills is read")
        consts = list(eng.binders)
        mark = (tuple(c.sexpr() for c in consts), tuple(t.sexpr() for t in eng.value_terms(x)), len(items.added), len(self.there.items))
        c = self.asked.get(mark)
        if c is None:
            c = self.asked[mark] = z3.Function(f"found!{next(eng.counter)}", *[k.sort() for k in consts], z3.BoolSort())(*consts)
        eng.fact(z3.Implies(self.among(eng, self.initial(), x), c))
        if eng.branch(c):
            self.there.items.append(("v", x))
            return z3.BoolVal(True)
        return z3.BoolVal(False)

    def vc_setitem(self, eng, x, v, node):
        self.log.items.append(("v", (x, record(eng, v))))

    def vc_getitem(self, eng, x, node):
        eng.require(self.vc_contains(eng, x), KeyError, "the key is in the dict", node)
        mark = ("at", id(self), len(self.log.items), tuple(t.sexpr() for t in eng.value_terms(x)))
        if mark in eng.memo:
            return eng.memo[mark]
        self.settle(eng)
        out = self.entries(self.log.items)
        params = list(eng.binders)
        for n, b in enumerate(out):
            if n + 1 < len(out):
                here = z3.Function(f"here!{next(eng.counter)}", *[p.sort() for p in params], z3.BoolSort())(*params)
                if not eng.branch(here):
                    continue
            w = renamed(eng, b, lambda s: eng.fresh_param(s, "entry"))
            eng.ctx.pc.append(mk_and([w.cond, eng.eq(w.value[0], x)]))
            eng.memo[mark] = w.value[1]
            return w.value[1]
        raise Infeasible()

    def vc_iter(self, eng):
        return self.read(eng, "keys")

    def vc_truth(self, eng):
        return mk_or([eng.exists_branch(b, TRUE) for b in self.entries(self.log.items)])

    def read(self, eng, what):
        pick = {"keys": lambda v: v[0], "values": lambda v: v[1], "items": lambda v: v}[what]
        from .values import Bnd

        return SIter([Branch([Bnd(x.const, x.dom, False) for x in b.binders], b.guard, pick(b.value)) for b in self.kept(eng)], "keys")

    def update(self, eng, other, node):
        other = eng.deref(other)
        if isinstance(other, KLog):
            branches = other.kept(eng)
        else:
            branches = []
            for b in eng.to_iter(other).branches:
                k, v = b.value
                branches.append(Branch(b.binders, b.guard, (k, record(eng, v))))
        self.log.items.extend(("b", b) for b in branches)

    def vc_getattr(self, eng, name, node):
        if name in ("keys", "values", "items"):
            return Builtin(name, lambda: self.read(eng, name))
        if name == "get":
            def get(x, default=None):
                if eng.branch(self.vc_contains(eng, x)):
                    return self.vc_getitem(eng, x, node)
                return default

            return Builtin(name, get)
        if name == "setdefault":
            def setdefault(x, default=None):
                if not eng.branch(self.vc_contains(eng, x)):
                    self.vc_setitem(eng, x, default, node)
                return Builtin("what is there", None)

            return Builtin(name, setdefault)
        if name == "update":
            return Builtin(name, lambda other: self.update(eng, other, node))
        raise Unsupported(f"dict.{name}")


def renamed(eng, b, fresh=None):
    from .values import subst_branch, Bnd

    ren = [(c, fresh(c.sort()) if fresh else z3.Const(f"{c.decl().name()}'{next(eng.counter)}", c.sort())) for c in b.consts]
    w = subst_branch(b, ren)
    d = dict((c.decl().name(), r) for c, r in ren)
    return Branch([Bnd(d[x.const.decl().name()], x.dom, x.ordered, x.lo, x.hi) for x in w.binders], w.guard, w.value)


def of_branches(eng, branches):
    d = KLog()
    for b in branches:
        k, v = b.value
        d.log.items.append(("b", Branch(b.binders, b.guard, (k, record(eng, v)))))
    return d
