"""Contracts of Python built-ins and standard-library functions, as used by the interpreter.

Every entry is an assumption about the language implementation (listed in the evidence as trusted base).
"""
from __future__ import annotations

import collections
import copy
import functools
import heapq
import itertools
import math
import operator
import random as random_module
import statistics
import time
import uuid

import z3

from . import maps
from . import world as W
from .values import (
    NULL,
    Bnd,
    BoundMethod,
    Branch,
    Builtin,
    Coords,
    EObj,
    Infeasible,
    LocalDict,
    LocalList,
    LocalSet,
    Ref,
    SBool,
    SCoords,
    SIter,
    SortedBranch,
    SNum,
    SOpt,
    SRef,
    SSeq,
    SSet,
    SStr,
    StrS,
    SV,
    Unsupported,
    free_consts,
    has_quant,
    mk_and,
    mk_ite,
    mk_not,
    mk_or,
    subst_value,
    to_real,
)
from . import engine as E

TRUE = z3.BoolVal(True)
MODELS = {}


def model(*fs):
    def deco(fn):
        for f in fs:
            MODELS[f] = fn
        return fn

    return deco


def model_for(f):
    try:
        return MODELS.get(f)
    except TypeError:
        return None


def expand_star(eng, args):
    out = []
    for a in args:
        if isinstance(a, E.StarArg):
            items = eng.concrete_items(a.it)
            if items is None:
                raise Unsupported("* of unknown length in a call")
            out.extend(items)
        else:
            out.append(a)
    return out


def pieces_of(it):
    if str(it.kind).startswith("sorted"):
        if len(it.branches) != 1:
            raise Unsupported("a list of sorted texts")
        b = it.branches[0]
        return [("b", SortedBranch(b.binders, b.guard, b.value, it.kind))]
    return [("v", b.value) if not b.binders and z3.is_true(b.guard) else ("b", b) for b in it.branches]


def list_of(eng, v):
    return LocalList(pieces_of(eng.to_iter(v)))


# ----------------------------------------------------------------------------------------------- conversions


@model(len)
def m_len(eng, args, kwargs, node):
    v = eng.deref(args[0])
    if hasattr(v, "vc_len"):
        return v.vc_len(eng)
    if isinstance(v, (SRef, EObj)):
        f = eng.find_method(v, "__len__")
        if f is not None:
            return eng.call(f, [], {}, node)
    return eng.length(v)


@model(list)
def m_list(eng, args, kwargs, node):
    return list_of(eng, args[0]) if args else LocalList()


@model(tuple)
def m_tuple(eng, args, kwargs, node):
    if not args:
        return ()
    v = eng.deref(args[0])
    if isinstance(v, tuple):
        return v
    if isinstance(v, SCoords):
        return v
    if isinstance(v, SSeq) and v.kind == "tuple":
        return v
    items = eng.concrete_items(v)
    if items is not None:
        return tuple(items)
    it = eng.to_iter(v)
    items = eng.concrete_items(it)
    if items is not None:
        return tuple(items)
    return LocalList(pieces_of(it))


@model(collections.defaultdict)
def m_defaultdict(eng, args, kwargs, node):
    if len(args) > 1 or kwargs:
        raise Unsupported("defaultdict with content")
    return LocalDict({})


@model(set, frozenset)
def m_set(eng, args, kwargs, node):
    s = LocalSet()
    if args:
        set_update(eng, s, args[0])
    return s


@model(dict)
def m_dict(eng, args, kwargs, node):
    if not args and not kwargs and dict in eng.class_hooks and not eng.spec_mode:
        return eng.class_hooks[dict](eng, args, kwargs, node)
    d = {}
    if args:
        a = eng.deref(args[0])
        if isinstance(a, W.OpenDict):
            return W.OpenDict(a.base, {**a.d, **kwargs}, a.minus - set(kwargs))
        if isinstance(a, LocalDict):
            d.update(a.d)
        elif isinstance(a, dict):
            d.update(a)
        else:
            items = eng.concrete_items(eng.to_iter(a))
            if items is None:
                raise Unsupported("dict of a symbolic sequence")
            for kv in items:
                k, v = eng.unpack(kv, 2, node)
                if isinstance(k, SV):
                    raise Unsupported("dict with a symbolic key")
                d[k] = v
    d.update(kwargs)
    return LocalDict(d)


@model(str)
def m_str(eng, args, kwargs, node):
    if not args:
        return ""
    v = eng.deref(args[0])
    if not isinstance(v, SV) and not E.has_sv(v):
        return str(v)
    return mk_text(eng.format_parts(v, ""))


def mk_text(parts):
    s = SStr(parts)
    if all(isinstance(p, str) for p in s.parts):
        return "".join(s.parts)
    return s


@model(bool)
def m_bool(eng, args, kwargs, node):
    if not args:
        return False
    t = eng.truth(args[0])
    return t if isinstance(t, bool) else SBool(t)


PARSE = {}


@model(float)
def m_float(eng, args, kwargs, node):
    if not args:
        return 0.0
    v = eng.deref(args[0])
    if not isinstance(v, SV):
        return float(v)
    if isinstance(v, (SNum, SBool)):
        return SNum(to_real(eng.znum(v)))
    if hasattr(v, "vc_float"):
        return v.vc_float(eng)
    raise Unsupported("float of a text")


@model(int)
def m_int(eng, args, kwargs, node):
    if not args:
        return 0
    v = eng.deref(args[0])
    if not isinstance(v, SV):
        return int(v)
    if isinstance(v, (SNum, SBool)):
        e = eng.znum(v)
        if z3.is_int(e):
            return SNum(e)
        return SNum(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))
    raise Unsupported("int of a text")


@model(abs)
def m_abs(eng, args, kwargs, node):
    v = args[0]
    if not isinstance(v, SV):
        return abs(v)
    e = eng.znum(v)
    return SNum(z3.If(e >= 0, e, -e))


@model(math.sqrt)
def m_sqrt(eng, args, kwargs, node):
    v = args[0]
    if not isinstance(v, SV):
        return math.sqrt(v)
    x = to_real(eng.znum(v))
    eng.require(x >= 0, ValueError, "square root of a negative number", node)
    r = z3.Function("sqrt", z3.RealSort(), z3.RealSort())(x)
    eng.fact(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
    eng.fact(z3.Implies(x == 0, r == 0))
    return SNum(r)


@model(round)
def m_round(eng, args, kwargs, node):
    if not any(isinstance(a, SV) for a in args):
        return round(*args)
    if len(args) != 1 or kwargs or not isinstance(args[0], SNum):
        raise Unsupported("round")
    v = eng.znum(args[0])
    if z3.is_int(v):
        return args[0]
    up = z3.ToInt(v + z3.RealVal(1) / 2)
    return SNum(z3.If(z3.And(z3.ToReal(up) == v + z3.RealVal(1) / 2, up % 2 != 0), up - 1, up))      # (halves to the even neighbour)


@model(pow)
def m_pow(eng, args, kwargs, node):
    return power(eng, args[0], args[1])


def power(eng, a, b):
    if not isinstance(a, SV) and not isinstance(b, SV):
        return a ** b
    if isinstance(b, int) and 0 <= b <= 4:
        if b == 0:
            return 1
        x = eng.znum(a)
        r = x
        for _ in range(b - 1):
            r = r * x
        return SNum(r)
    raise Unsupported("power")


@model(id)
def m_id(eng, args, kwargs, node):
    v = eng.deref(args[0])
    if isinstance(v, SRef):
        ident, back = z3.Function("id", E.Ref, z3.IntSort()), z3.Function("with id", z3.IntSort(), E.Ref)
        x = ident(v.e)
        if not eng.binders:
            eng.fact(back(x) == v.e)
            return SNum(x)
    raise Unsupported("id()")


@model(hash)
def m_hash(eng, args, kwargs, node):
    v = eng.deref(args[0])
    return hash_of(eng, v, node)


def hash_of(eng, v, node=None):
    if isinstance(v, (SRef, EObj)):
        f = eng.find_method(v, "__hash__")
        if f is not None:
            return eng.call(f, [], {}, node)
        if isinstance(v, EObj):
            raise Unsupported("hash of an object")
    if isinstance(v, tuple) and E.has_sv(v):
        v = tuple(hash_of(eng, x, node) for x in v)
    if isinstance(v, SV) or E.has_sv(v):
        terms = eng.value_terms(v)
        f = z3.Function("hash/" + ",".join(str(t.sort()) for t in terms), *[t.sort() for t in terms], z3.IntSort())
        return SNum(f(*terms))
    return hash(v)


@model(print)
def m_print(eng, args, kwargs, node):
    eng.effect("print", args, kwargs)
    return None


@model(isinstance)
def m_isinstance(eng, args, kwargs, node):
    v, cls = eng.deref(args[0]), args[1]
    classes = cls if isinstance(cls, tuple) else (cls,)
    import collections.abc as cabc

    out = []
    for c in classes:
        out.append(instance_of(eng, v, c, cabc))
    if all(isinstance(x, bool) for x in out):
        return any(out)
    return SBool(mk_or([z3.BoolVal(x) if isinstance(x, bool) else x for x in out]))


def instance_of(eng, v, c, cabc):
    if isinstance(v, SRef):
        r = issubclass(v.cls, c)
        if r:
            return v.e != NULL if v.nullable else True
        if not issubclass(c, v.cls):
            return False
        # the dynamic class of the object is not known
        t = z3.Function(f"instanceof[{c.__name__}]", Ref, z3.BoolSort())(v.e)
        return mk_and([v.e != NULL, t]) if v.nullable else t
    if isinstance(v, EObj):
        return issubclass(v.cls, c)
    if isinstance(v, SOpt):
        if v.val is None:
            return False
        r = instance_of(eng, v.val, c, cabc)
        return mk_and([mk_not(v.isnone), z3.BoolVal(r) if isinstance(r, bool) else r])
    if isinstance(v, LocalList):
        return c in (list, object, cabc.Iterable, cabc.Sequence, cabc.Collection)
    if isinstance(v, LocalSet) or isinstance(v, SSet):
        return c in (set, object, cabc.Iterable, cabc.Set, cabc.Collection)
    if isinstance(v, SSeq):
        return c in ({"list": list, "tuple": tuple}.get(v.kind, list), object, cabc.Iterable, cabc.Sequence, cabc.Collection)
    if isinstance(v, SIter):
        return c in (object, cabc.Iterable, cabc.Iterator)
    if isinstance(v, SNum):
        if c in (float,):
            return not v.is_int
        if c in (int,):
            return v.is_int
        return c is object
    if isinstance(v, SBool):
        return c in (bool, int, object)
    if isinstance(v, SStr):
        return c in (str, object)
    if isinstance(v, (LocalDict, maps.SMap)):
        return c in (dict, object, cabc.Mapping)
    if hasattr(v, "like"):
        return issubclass(v.like, c)
    if isinstance(v, SV):
        raise Unsupported(f"isinstance of {E.describe(v)}")
    return isinstance(v, c)


@model(issubclass)
def m_issubclass(eng, args, kwargs, node):
    if hasattr(args[0], "vc_issubclass") and isinstance(args[1], type):
        r = args[0].vc_issubclass(eng, args[1])
        if r is None:
            raise Unsupported("issubclass")
        return r
    if any(isinstance(a, SV) for a in args):
        raise Unsupported("issubclass")
    return issubclass(*args)


@model(type)
def m_type(eng, args, kwargs, node):
    if len(args) != 1:
        raise Unsupported("type()")
    v = args[0]
    if isinstance(v, (SRef, EObj)):
        return v.cls
    if isinstance(v, SV):
        raise Unsupported("type of a value")
    return type(v)


@model(getattr)
def m_getattr(eng, args, kwargs, node):
    if not isinstance(args[1], str):
        raise Unsupported("getattr")
    if len(args) == 3 and not isinstance(args[0], SV):
        return getattr(*args)
    return eng.getattr(args[0], args[1], node)


@model(hasattr)
def m_hasattr(eng, args, kwargs, node):
    o = args[0]
    if isinstance(o, EObj):
        return args[1] in o.attrs or hasattr(o.cls, args[1])
    if isinstance(o, SV):
        raise Unsupported("hasattr")
    return hasattr(*args)


@model(super)
def m_super(eng, args, kwargs, node):
    return E.SuperProxy(args[0], args[1])


# ----------------------------------------------------------------------------------------------- iteration


@model(iter)
def m_iter(eng, args, kwargs, node):
    v = eng.deref(args[0])
    if isinstance(v, (EObj, SRef)):
        f = eng.find_method(v, "__iter__")
        if f is not None:
            return eng.call(f, [], {}, node)
    return eng.to_iter(v)


@model(next)
def m_next(eng, args, kwargs, node):
    v = eng.deref(args[0])
    if hasattr(v, "vc_next"):
        try:
            return v.vc_next(eng, node)
        except E.PyRaise as e:
            if len(args) > 1 and issubclass(e.exc, StopIteration):
                return args[1]
            raise
    if isinstance(v, (EObj, SRef)):
        f = eng.find_method(v, "__next__")
        if f is not None:
            return eng.call(f, [], {}, node)
    if isinstance(v, SIter) and v.kind != "set":
        return first_of(eng, v, args[1] if len(args) > 1 else Missing, node)
    raise Unsupported("next")


class Missing:
    pass


def first_of(eng, it, default, node=None):
    """The first element of an iterable (an arbitrary one for unordered domains)."""
    for k, b in enumerate(it.branches):
        if not b.binders:
            if eng.branch(b.guard):
                return b.value
            continue
        ex = eng.exists_branch(b, TRUE)
        if eng.branch(ex):
            return eng.choose_first(b)
    if default is Missing:
        raise E.PyRaise(StopIteration, "empty iterator")
    return default


@model(range)
def m_range(eng, args, kwargs, node):
    args = expand_star(eng, args)
    if all(not isinstance(a, SV) for a in args):
        return range(*args)
    lo, step = z3.IntVal(0), 1
    if len(args) == 1:
        hi = eng.znum(args[0])
    else:
        lo, hi = eng.znum(args[0]), eng.znum(args[1])
        if len(args) == 3:
            step = args[2]
    if not isinstance(step, int) or step not in (1, -1):
        raise Unsupported("range with a step")
    i = z3.Const(f"i!{next(eng.counter)}", z3.IntSort())
    if step == 1:
        return SIter([Branch([Bnd(i, z3.And(i >= lo, i < hi), True, lo, hi)], TRUE, SNum(i))], "range")
    # lo, lo-1, ..., hi+1
    n = lo - hi
    zero = z3.IntVal(0)
    return SIter([Branch([Bnd(i, z3.And(i >= 0, i < n), True, zero, n)], TRUE, SNum(lo - i))], "range")


@model(enumerate)
def m_enumerate(eng, args, kwargs, node):
    start = args[1] if len(args) > 1 else kwargs.get("start", 0)
    items = eng.concrete_items(args[0])
    if items is not None and isinstance(start, int):
        return LocalList([("v", (start + k, x)) for k, x in enumerate(items)])
    s = eng.to_seq(args[0])
    i = z3.Const(f"i!{next(eng.counter)}", z3.IntSort())
    st = eng.znum(start)
    return SIter([Branch([Bnd(i, z3.And(i >= 0, i < s.length), True, z3.IntVal(0), s.length)], TRUE, (SNum(z3.simplify(i + st)), s.get(i)))])


@model(zip)
def m_zip(eng, args, kwargs, node):
    args = expand_star(eng, args)
    if not args:
        return SIter([])
    items = [eng.concrete_items(a) for a in args]
    if all(x is not None for x in items):
        return LocalList([("v", t) for t in zip(*items)])
    seqs = [eng.to_seq(a) for a in args]
    n = seqs[0].length
    for s in seqs[1:]:
        if not (s.length.eq(n)):
            n = z3.If(s.length < n, s.length, n)
    i = z3.Const(f"i!{next(eng.counter)}", z3.IntSort())
    return SIter([Branch([Bnd(i, z3.And(i >= 0, i < n), True, z3.IntVal(0), n)], TRUE, tuple(s.get(i) for s in seqs))])


@model(dict.fromkeys)
def m_fromkeys(eng, args, kwargs, node):
    s = eng.to_seq(args[0])
    i = z3.Const(f"i!{next(eng.counter)}", z3.IntSort())
    j = z3.Const(f"j!{next(eng.counter)}", z3.IntSort())
    x = eng.raw(s.get(i))
    new = z3.Not(z3.Exists([j], z3.And(j >= 0, j < s.length, j < i, eng.raw(s.get(j)) == x)))
    return SIter([Branch([Bnd(i, z3.And(i >= 0, i < s.length), True, z3.IntVal(0), s.length)], new, s.get(i))], "keys")


@model(reversed)
def m_reversed(eng, args, kwargs, node):
    items = eng.concrete_items(args[0])
    if items is not None:
        return SIter([Branch([], TRUE, x) for x in reversed(items)])
    s = eng.to_seq(args[0])
    i = z3.Const(f"i!{next(eng.counter)}", z3.IntSort())
    return SIter([Branch([Bnd(i, z3.And(i >= 0, i < s.length), True, z3.IntVal(0), s.length)], TRUE, s.get(z3.simplify(s.length - 1 - i)))])


@model(map)
def m_map(eng, args, kwargs, node):
    f, seqs = args[0], args[1:]
    items = [eng.concrete_items(a) for a in seqs]
    if all(x is not None for x in items):
        return SIter([Branch([], TRUE, eng.call(f, list(t), {}, node)) for t in zip(*items)])
    it = eng.to_iter(seqs[0]) if len(seqs) == 1 else eng.to_iter(m_zip(eng, seqs, {}, node))
    out = []
    for b in it.branches:
        a = [b.value] if len(seqs) == 1 else list(b.value)
        out.extend(map_branch(eng, b, lambda: eng.call(f, a, {}, node)))
    return SIter(out)


def map_branch(eng, b, fn):
    if not b.binders and z3.is_true(b.guard):
        return [Branch([], TRUE, fn())]
    res = eng.sub_explore(fn, b.consts, [b.cond] if not z3.is_true(b.cond) else [])
    for pc, kind, v, _ in res:
        if kind == "raise":
            eng.comp_raise(b, pc, v)
    good = [(mk_and(pc), [Branch([], TRUE, v)]) for pc, kind, v, _ in res if kind == "ok"]
    return eng.join_branches(b, good, True)


@model(filter)
def m_filter(eng, args, kwargs, node):
    f, it = args[0], eng.to_iter(args[1])
    out = []
    for b in it.branches:
        def run():
            v = b.value if f is None else eng.call(f, [b.value], {}, node)
            t = eng.truth(v)
            return SBool(z3.BoolVal(t) if isinstance(t, bool) else t)

        g = eng.zbool(eng.in_scope(b, run))
        out.append(Branch(b.binders, mk_and([b.guard, g]), b.value))
    return SIter(out)


@model(itertools.chain)
def m_chain(eng, args, kwargs, node):
    out = []
    for a in args:
        if isinstance(a, E.StarArg):
            return m_chain_from(eng, [a.it], {}, node)
        out.extend(eng.to_iter(a).branches)
    return SIter(out)


@model(itertools.chain.from_iterable)
def m_chain_from(eng, args, kwargs, node):
    it = eng.to_iter(args[0])
    out = []
    for b in it.branches:
        if not b.binders and z3.is_true(b.guard):
            out.extend(eng.to_iter(b.value).branches)
            continue
        res = eng.sub_explore(lambda: eng.to_iter(b.value).branches, b.consts, [b.cond])
        good = [(mk_and(pc), v) for pc, kind, v, _ in res if kind == "ok"]
        out.extend(eng.join_branches(b, good))
    return SIter(out)


@model(itertools.islice)
def m_islice(eng, args, kwargs, node):
    """``islice(s, n)`` of a set: some of its elements, all of them if there are few enough (which ones is not known)."""
    if kwargs or len(args) != 2 or eng.ctx.parent is not None or eng.binders:
        raise Unsupported("islice")
    s = eng.as_set(args[0])
    if s is None or not str(s.elem).startswith("ref"):
        raise Unsupported("islice")
    n, size = eng.znum(args[1]), eng.znum(eng.call(len, [args[0]], {}))
    pick = eng.fresh_const(z3.ArraySort(E.Ref, z3.BoolSort()), "slice")
    x = z3.Const(f"x!{next(eng.counter)}", E.Ref)
    eng.fact(E.forall_pat([x], z3.Implies(z3.Select(pick, x), s.mem(x)), [z3.Select(pick, x)]))
    eng.fact(z3.Implies(n >= size, z3.ForAll([x], z3.Implies(s.mem(x), z3.Select(pick, x)))))
    return SSet(lambda y: z3.Select(pick, y), s.elem)


@model(itertools.product)
def m_product(eng, args, kwargs, node):
    args = expand_star(eng, args)
    its = [eng.to_iter(a) for a in args]
    out = [Branch([], TRUE, ())]
    for it in its:
        nxt = []
        for b in out:
            for c in it.branches:
                fresh = rename(eng, c)
                nxt.append(Branch(list(b.binders) + list(fresh.binders), mk_and([b.guard, fresh.guard]), b.value + (fresh.value,)))
        out = nxt
    return SIter(out)


def rename(eng, b):
    pairs = [(c, z3.Const(f"y!{next(eng.counter)}", c.sort())) for c in b.consts]
    return E.subst_consts(b, pairs)


@model(itertools.combinations)
def m_combinations(eng, args, kwargs, node):
    v, r = args
    items = eng.concrete_items(v)
    if items is not None and isinstance(r, int):
        return LocalList([("v", t) for t in itertools.combinations(items, r)])
    if r != 2:
        raise Unsupported("combinations")
    s = eng.to_seq(v)
    i = z3.Const(f"i!{next(eng.counter)}", z3.IntSort())
    j = z3.Const(f"j!{next(eng.counter)}", z3.IntSort())
    return SIter(
        [
            Branch(
                [
                    Bnd(i, z3.And(i >= 0, i < s.length), True, z3.IntVal(0), s.length),
                    Bnd(j, z3.And(j > i, j < s.length), True),
                ],
                TRUE,
                (s.get(i), s.get(j)),
            )
        ]
    )


@model(itertools.permutations)
def m_permutations(eng, args, kwargs, node):
    v, r = args
    items = eng.concrete_items(v)
    if items is not None and isinstance(r, int):
        return LocalList([("v", t) for t in itertools.permutations(items, r)])
    if r != 2:
        raise Unsupported("permutations")
    s = eng.as_set(v) if E.is_set_value(eng.deref(v)) else None
    if s is None:
        raise Unsupported("permutations of a sequence")
    it = eng.to_iter(v)
    if len(it.branches) != 1 or len(it.branches[0].binders) != 1 or not isinstance(it.branches[0].value, E.SRef) or not it.branches[0].value.e.eq(it.branches[0].consts[0]):
        raise Unsupported("permutations")
    b = it.branches[0]
    x, y = (z3.Const(f"{n}!{next(eng.counter)}", E.Ref) for n in "xy")
    one, two = E.subst_branch(b, [(b.consts[0], x)]), E.subst_branch(b, [(b.consts[0], y)])
    return SIter([Branch([Bnd(x, one.cond, False), Bnd(y, z3.And(two.cond, x != y), False)], TRUE, (one.value, two.value))])


# ----------------------------------------------------------------------------------------------- reductions


@model(sum)
def m_sum(eng, args, kwargs, node):
    start = args[1] if len(args) > 1 else kwargs.get("start")
    v = eng.deref(args[0])
    if start is not None and E.is_seq_value(eng.deref(start)):
        it = eng.to_iter(v)
        out = list(eng.to_iter(start).branches)
        inner = m_chain_from(eng, [it], {}, node)
        return LocalList(pieces_of(SIter(out + inner.branches)))
    items = eng.concrete_items(v)
    if items is not None and not any(isinstance(x, SV) for x in items) and not isinstance(start, SV):
        return sum(items, start if start is not None else 0)
    return eng.sum_of(eng.to_iter(v), start)


@model(statistics.mean)
def m_mean(eng, args, kwargs, node):
    it = eng.to_iter(args[0])
    n = eng.length(SIter(it.branches))
    ne = eng.znum(n)
    eng.require(ne > 0, statistics.StatisticsError, "mean of an empty sequence", node)
    s = eng.sum_of(it)
    return SNum(to_real(s.e) / to_real(ne))


def bool_of_branch(eng, b, want):
    def run():
        t = eng.truth(b.value)
        return SBool(z3.BoolVal(t) if isinstance(t, bool) else t)

    return eng.zbool(eng.in_scope(b, run))


@model(any)
def m_any(eng, args, kwargs, node):
    v = eng.deref(args[0])
    if isinstance(v, LocalDict):
        return any(bool(eng.truth(k)) for k in v.d)
    if isinstance(v, maps.SMap):
        return as_bool(v.vc_truth(eng))
    it = eng.to_iter(v)
    r = mk_or([eng.exists_branch(b, bool_of_branch(eng, b, True)) for b in it.branches])
    return as_bool(r)


@model(all)
def m_all(eng, args, kwargs, node):
    it = eng.to_iter(args[0])
    r = mk_and([eng.forall_branch(b, bool_of_branch(eng, b, False)) for b in it.branches])
    return as_bool(r)


def as_bool(r):
    if not has_quant(r):
        r = z3.simplify(r)
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return SBool(r)


def extremum(eng, args, kwargs, node, is_max):
    key, default = kwargs.get("key"), kwargs.get("default", Missing)
    args = list(args)
    if len(args) == 1 and not isinstance(args[0], E.StarArg):
        it = eng.to_iter(args[0])
    else:
        br = []
        for a in args:
            if isinstance(a, E.StarArg):
                br.extend(a.it.branches)
            else:
                br.append(Branch([], TRUE, a))
        it = SIter(br)
    items = eng.concrete_items(it)
    if items is not None and not items:
        if default is Missing:
            eng.require(z3.BoolVal(False), ValueError, "max/min of an empty sequence", node)
            raise Infeasible()
        return default
    if items is not None and not any(E.has_sv(x) for x in items) and key is None:
        return (max if is_max else min)(items)
    if key is None and all(E.is_num(b.value) for b in it.branches):
        return eng.extremum(it, is_max, None if default is Missing else default, default is not Missing, node=node)
    return best_by_key(eng, it, key, default, is_max, node)


def best_by_key(eng, it, key, default, is_max, node):
    """max/min with a key: the first element whose key no other exceeds (library contract of max/min)."""

    def keyed(v):
        return v if key is None else eng.call(key, [v], {}, node)

    ops = E.ast.Gt() if is_max else E.ast.Lt()
    if all(not b.binders for b in it.branches):
        best = None
        for b in it.branches:
            if not z3.is_true(b.guard):
                if not eng.branch(b.guard):
                    continue
            if best is None:
                best = (b.value, keyed(b.value))
                continue
            k = keyed(b.value)
            if eng.branch(eng.order(ops, k, best[1], node)):
                best = (b.value, k)
        if best is None:
            if default is Missing:
                eng.require(z3.BoolVal(False), ValueError, "max/min of an empty sequence", node)
                raise Infeasible()
            return default
        return best[0]
    if len(it.branches) != 1:
        raise Unsupported("max/min with a key over several pieces")
    b = it.branches[0]
    ex = eng.exists_branch(b, TRUE)
    if not eng.branch(ex):
        if default is Missing:
            raise E.PyRaise(ValueError, "max/min of an empty sequence")
        return default
    # fresh witness binders
    ren = [(c, eng.fresh_param(c.sort(), "best")) for c in b.consts]
    w = E.subst_branch(b, ren)
    kb = eng.in_scope(b, lambda: keyed(b.value))
    kw = subst_value(kb, ren)
    eng.ctx.pc.append(w.cond)
    worse = eng.order(ops, kb, kw, node)
    eng.fact(eng.forall_branch(b, mk_not(worse)))
    if all(x.ordered for x in b.binders):
        before = lex_before([c for c, _ in ren], [t for _, t in ren])
        strict = eng.order(ops, kw, kb, node)
        eng.fact(eng.forall_branch(Branch(b.binders, mk_and([b.guard, before]), None), strict))
    return w.value


def lex_before(cs, ts):
    out = []
    for k in range(len(cs)):
        out.append(mk_and([c == t for c, t in zip(cs[:k], ts[:k])] + [cs[k] < ts[k]]))
    return mk_or(out)


@model(max)
def m_max(eng, args, kwargs, node):
    return extremum(eng, args, kwargs, node, True)


@model(min)
def m_min(eng, args, kwargs, node):
    return extremum(eng, args, kwargs, node, False)


@model(functools.reduce)
def m_reduce(eng, args, kwargs, node):
    f, it = args[0], eng.to_iter(args[1])
    if len(args) < 3:
        raise Unsupported("reduce without an initial value")
    return eng.loops.fold(eng, it, args[2], lambda acc, x: eng.call(f, [acc, x], {}, node))


def ordered_by(eng, v, key, reverse, node, n=None):
    """Library contract of sorted / heapq.n*: the (first n elements of the) stable rearrangement by key.

    The rearrangement is a function of the sequence, its key values and the direction, with the facts that define it.
    """
    items = eng.concrete_items(v)
    if items is not None and not any(E.has_sv(x) for x in items) and key is None and not isinstance(n, SV):
        r = sorted(items, reverse=reverse)
        return LocalList([("v", x) for x in (r if n is None else r[:n])])
    if isinstance(reverse, SV):
        raise Unsupported("sorting in a computed direction")
    if key is None and n is None:
        u = eng.deref(v)
        once = isinstance(u, LocalSet) and any(t == "b" for t, _ in u.items)
        it = SIter([x if t == "b" else Branch([], TRUE, x) for t, x in u.items]) if once else eng.to_iter(v)
        if it.branches and all(isinstance(b.value, (SStr, str)) for b in it.branches):
            # texts: what comes out is decided by which texts there are, how often
            return SIter([Branch([Bnd(x.const, x.dom, False, x.lo, x.hi) for x in b.binders], b.guard, b.value) for b in it.branches],
                         f"sorted{' distinct' if once else ''} texts {bool(reverse)}")
    src = eng.to_seq(v)
    ln = src.length
    i = z3.Const(f"i!{next(eng.counter)}", z3.IntSort())
    dom = z3.And(i >= 0, i < ln)
    b = Branch([Bnd(i, dom, True, z3.IntVal(0), ln)], TRUE, None)

    def run():
        x = src.get(i)
        return (x, x if key is None else eng.call(key, [x], {}, node))

    pair = eng.in_scope(b, run)
    app = eng.aggregate("sorted", SIter([Branch(b.binders, TRUE, pair)]), Ref, extra=(bool(reverse),))
    perm = z3.Function("sorted.at", Ref, z3.IntSort(), z3.IntSort())
    back = z3.Function("sorted.pos", Ref, z3.IntSort(), z3.IntSort())
    at = lambda k: perm(app, k)
    if ("sorted", app.get_id()) not in eng.instantiated:
        eng.instantiated.add(("sorted", app.get_id()))
        j = z3.Const(f"j!{next(eng.counter)}", z3.IntSort())
        eng.fact(E.forall_pat([i], z3.Implies(dom, z3.And(at(i) >= 0, at(i) < ln, back(app, at(i)) == i)), [at(i)]))
        eng.fact(E.forall_pat([i], z3.Implies(dom, z3.And(back(app, i) >= 0, back(app, i) < ln, at(back(app, i)) == i)), [back(app, i)]))
        ki, kj = subst_value(pair[1], [(i, at(i))]), subst_value(pair[1], [(i, at(j))])
        worse = eng.order(E.ast.Lt() if reverse else E.ast.Gt(), ki, kj, node)
        same = eng.eq(ki, kj)
        both = z3.And(i >= 0, i < j, j < ln)
        eng.fact(z3.ForAll([i, j], z3.Implies(both, z3.And(mk_not(worse), z3.Implies(same, at(i) < at(j)))),
                           patterns=[z3.MultiPattern(at(i), at(j))]))
    out = ln
    if n is not None:
        k = eng.znum(n)
        out = z3.If(k < 0, z3.IntVal(0), z3.If(k < ln, k, ln))
    return list_of(eng, SSeq(out, lambda k: subst_value(pair[0], [(i, at(k))]), "list"))


@model(sorted)
def m_sorted(eng, args, kwargs, node):
    rev = kwargs.get("reverse", False)
    return ordered_by(eng, args[0], kwargs.get("key"), rev, node)


@model(operator.attrgetter)
def m_attrgetter(eng, args, kwargs, node):
    (name,) = args
    if not isinstance(name, str):
        raise Unsupported("attrgetter of a computed name")

    def get(v):
        for part in name.split("."):
            v = eng.getattr(v, part)
        return v

    return Builtin(f"attrgetter({name})", get)


@model(operator.and_)
def m_and(eng, args, kwargs, node):
    return eng.binop(E.ast.BitAnd(), args[0], args[1], node)


@model(operator.or_)
def m_or(eng, args, kwargs, node):
    return eng.binop(E.ast.BitOr(), args[0], args[1], node)


@model(operator.add)
def m_add(eng, args, kwargs, node):
    return eng.binop(E.ast.Add(), args[0], args[1], node)


@model(operator.mul)
def m_mul(eng, args, kwargs, node):
    return eng.binop(E.ast.Mult(), args[0], args[1], node)


@model(operator.sub)
def m_sub(eng, args, kwargs, node):
    return eng.binop(E.ast.Sub(), args[0], args[1], node)


PRODRANGE = z3.Function("prodrange", z3.IntSort(), z3.IntSort(), z3.IntSort())


def prod_range(eng, lo, hi):
    """The product of the integers from lo up to (not including) hi; 1 if there are none."""
    lo, hi = z3.simplify(lo), z3.simplify(hi)
    if z3.is_int_value(lo) and z3.is_int_value(hi):
        r = 1
        for k in range(lo.as_long(), hi.as_long()):
            r *= k
        return z3.IntVal(r)
    t = PRODRANGE(lo, hi)
    if ("prodrange", t.get_id()) not in eng.instantiated:
        eng.instantiated.add(("prodrange", t.get_id()))
        eng.fact(z3.Implies(hi <= lo, t == 1))
        eng.fact(z3.Implies(lo >= 1, t >= 1))
        eng.fact(z3.Implies(hi - lo == 1, t == lo))
    return t


def product_of(eng, b, v):
    """The product of an integer term over one branch."""
    v = z3.simplify(v)
    if len(b.binders) == 1 and b.binders[0].lo is not None and z3.is_true(z3.simplify(b.guard)) and z3.is_int(v):
        bd = b.binders[0]
        for sign in (1, -1):
            c = z3.simplify(v - bd.const if sign == 1 else v + bd.const)
            if bd.const.decl().name() in free_consts(c):
                continue
            if sign == 1:
                return prod_range(eng, c + bd.lo, c + bd.hi)
            return prod_range(eng, c - bd.hi + 1, c - bd.lo + 1)
    return eng.aggregate("prod", SIter([Branch(b.binders, b.guard, SNum(v))]), v.sort())


@model(math.prod)
def m_prod(eng, args, kwargs, node):
    out = kwargs.get("start", 1)
    for b in eng.to_iter(args[0]).branches:
        if not b.binders and z3.is_true(b.guard):
            out = eng.binop(E.ast.Mult(), out, b.value, node)
        else:
            out = eng.binop(E.ast.Mult(), out, SNum(product_of(eng, b, eng.znum(b.value))), node)
    return out


@model(math.factorial)
def m_factorial(eng, args, kwargs, node):
    n = eng.znum(args[0])
    eng.require(n >= 0, ValueError, "factorial of a negative number", node)
    return SNum(prod_range(eng, z3.IntVal(1), n + 1))


@model(math.comb)
def m_comb(eng, args, kwargs, node):
    n, r = eng.znum(args[0]), eng.znum(args[1])
    eng.require(z3.And(n >= 0, r >= 0), ValueError, "comb of a negative number", node)
    t = z3.Function("comb", z3.IntSort(), z3.IntSort(), z3.IntSort())(n, r)
    f = lambda x: prod_range(eng, z3.IntVal(1), x + 1)
    eng.fact(z3.Implies(r > n, t == 0))
    eng.fact(z3.Implies(r <= n, t == f(n) / (f(r) * f(n - r))))
    eng.fact(z3.Implies(z3.And(r == 2, n >= 2), 2 * t == n * (n - 1)))
    return SNum(t)


def bounded_int(eng, lo, hi, name, node):
    lo, hi = eng.znum(lo), eng.znum(hi)
    eng.require(lo <= hi, ValueError, "randint of an empty range", node)
    x = eng.fresh_param(z3.IntSort(), name)
    eng.fact(z3.And(lo <= x, x <= hi))
    return SNum(x)


class SomeRandom(SV):
    """A random number generator in any state: its answers are arbitrary within their ranges."""

    __slots__ = ()

    def vc_getattr(self, eng, name, node):
        f = RANDOM.get(name)
        if f is None:
            raise Unsupported(f"random.{name}")
        return Builtin(name, lambda *a, **k: f(eng, a, k, node))


def r_randint(eng, args, kwargs, node):
    return bounded_int(eng, args[0], args[1], "randint", node)


def r_randrange(eng, args, kwargs, node):
    if len(args) == 1:
        return bounded_int(eng, 0, SNum(eng.znum(args[0]) - 1), "randrange", node)
    if len(args) == 2:
        return bounded_int(eng, args[0], SNum(eng.znum(args[1]) - 1), "randrange", node)
    raise Unsupported("randrange with a step")


def r_random(eng, args, kwargs, node):
    x = eng.fresh_param(z3.RealSort(), "random")
    eng.fact(z3.And(0 <= x, x < 1))
    return SNum(x)


def r_choice(eng, args, kwargs, node):
    s = eng.to_seq(args[0])
    eng.require(s.length > 0, IndexError, "choice from an empty sequence", node)
    i = eng.fresh_param(z3.IntSort(), "choice")
    eng.fact(z3.And(0 <= i, i < s.length))
    return s.get(i)


RANDOM = {"randint": r_randint, "randrange": r_randrange, "random": r_random, "choice": r_choice}


@model(random_module.Random.randint)
def m_randint(eng, args, kwargs, node):
    return r_randint(eng, args[1:], kwargs, node)


@model(random_module.Random.randrange)
def m_randrange(eng, args, kwargs, node):
    return r_randrange(eng, args[1:], kwargs, node)


@model(random_module.Random.choice)
def m_choice(eng, args, kwargs, node):
    return r_choice(eng, args[1:], kwargs, node)


@model(random_module.Random)
def m_Random(eng, args, kwargs, node):
    return SomeRandom()


@model(uuid.uuid4)
def m_uuid4(eng, args, kwargs, node):
    return SStr([("s", eng.fresh_param(StrS, "uuid"))])


@model(time.time)
def m_time(eng, args, kwargs, node):
    t = eng.fresh_param(z3.RealSort(), "clock")
    last = eng.memo.get("clock")
    if last is not None:
        eng.fact(t >= last)
    eng.memo["clock"] = t
    eng.assumptions.add("time.time() never goes backwards")
    return SNum(t)


class DictView(SV):
    """``obj.__dict__`` of a model object: the stored values of its cached properties."""

    __slots__ = ("obj",)

    def __init__(self, obj):
        self.obj = obj

    def mark(self, key):
        if not isinstance(key, str):
            raise Unsupported("__dict__ with a computed name")
        return ("stored", self.obj.e.sexpr(), key)

    def vc_contains(self, eng, key):
        """Whether a value is stored: not known; where there is none, none is outdated."""
        mark = self.mark(eng.deref(key))
        if eng.spec_mode:
            raise Unsupported("__dict__ in a specification")
        if eng.branch(eng.fresh_param(z3.BoolSort(), "stored", list(eng.binders))):
            eng.memo[mark] = eng.heap_version
            return z3.BoolVal(True)
        eng.drop_cached(self.obj, mark[2])
        return z3.BoolVal(False)

    def vc_delitem(self, eng, key, node):
        mark = self.mark(key)
        if mark not in eng.memo:
            raise Unsupported("__dict__: a value that may not be stored is deleted")
        del eng.memo[mark]
        eng.drop_cached(self.obj, key)

    def vc_getattr(self, eng, name, node):
        if name == "pop":
            def pop(key, *default):
                mark = self.mark(key)
                if not default and mark not in eng.memo:
                    raise Unsupported("__dict__.pop without a default")
                eng.memo.pop(mark, None)
                eng.drop_cached(self.obj, key)
                return Builtin("stored value", None)

            return Builtin(name, pop)
        if name == "clear":
            def clear():
                for n in eng.cached_names(self.obj.cls):
                    eng.drop_cached(self.obj, n)

            return Builtin(name, clear)
        raise Unsupported(f"__dict__.{name}")


# ----------------------------------------------------------------------------------------------- containers


def list_extend(eng, lst, v):
    if lst.moved is not None:
        raise Unsupported("mutation of a stored list")
    lst.items.extend(pieces_of(eng.to_iter(v)))


def set_update(eng, s, v):
    v = eng.deref(v)
    if isinstance(v, LocalSet):
        s.items.extend(list(v.items))
        return
    s.items.extend(pieces_of(eng.to_iter(v)))


def set_binop(eng, op, a, b):
    a, b = eng.deref(a), eng.deref(b)
    if isinstance(op, E.ast.BitOr):
        if isinstance(a, SSet) and isinstance(b, SSet) and a.elem == b.elem:
            return SSet(lambda x: z3.Or(a.mem(x), b.mem(x)), a.elem)
        s = LocalSet()
        set_update(eng, s, a)
        set_update(eng, s, b)
        return s
    x, y = eng.as_set(a), eng.as_set(b)
    if isinstance(op, E.ast.BitAnd):
        if x is None or y is None:
            return LocalSet()
        return SSet(lambda e: z3.And(x.mem(e), y.mem(e)), x.elem)
    if isinstance(op, E.ast.Sub):
        if x is None:
            return LocalSet()
        if y is None:
            return SSet(x.mem, x.elem)
        return SSet(lambda e: z3.And(x.mem(e), z3.Not(y.mem(e))), x.elem)
    raise Unsupported("set operator")


def container_method(eng, obj, name):
    if isinstance(obj, LocalList):
        return list_method(eng, obj, name)
    if isinstance(obj, (LocalSet, SSet)) or (isinstance(obj, (set, frozenset))):
        return set_method(eng, obj, name)
    if isinstance(obj, LocalDict):
        return dict_method(eng, obj, name)
    if isinstance(obj, (SStr, str)):
        return str_method(eng, obj, name)
    if isinstance(obj, SSeq):
        return seq_method(eng, obj, name)
    if isinstance(obj, (list, tuple)) and E.has_sv(obj):
        if name == "index":
            return Builtin(name, lambda x: index_of(eng, obj, x))
        if name == "count":
            return None
    return None


def index_of(eng, seq, x):
    s = eng.to_seq(seq)
    items = eng.concrete_items(seq)
    if items is not None:
        for k, y in enumerate(items):
            if eng.branch(eng.eq(y, x)):
                return k
        eng.require(z3.BoolVal(False), ValueError, "element not in list")
        raise Infeasible()
    i = z3.Const(f"i!{next(eng.counter)}", z3.IntSort())
    b = Branch([Bnd(i, z3.And(i >= 0, i < s.length), True, z3.IntVal(0), s.length)], TRUE, None)
    hit = eng.in_scope(b, lambda: eng.eq(s.get(i), x))
    ex = eng.exists_branch(b, hit)
    eng.require(ex, ValueError, "element not in list")
    w = eng.fresh_param(z3.IntSort(), "index")
    sub = [(i, w)]
    eng.fact(z3.Implies(ex, z3.substitute(z3.And(b.cond, hit), *sub)))
    eng.fact(z3.ForAll([i], z3.Implies(z3.And(b.cond, i < w), z3.Not(hit))))
    return SNum(w)


def list_method(eng, l, name):
    def check():
        if l.moved is not None:
            raise Unsupported("mutation of a stored list")

    if name == "append":
        def append(x):
            check()
            l.items.append(("v", x))

        return Builtin(name, append)
    if name == "extend":
        return Builtin(name, lambda v: list_extend(eng, l, v))
    if name == "copy":
        return Builtin(name, lambda: LocalList(l.items))
    if name == "index":
        return Builtin(name, lambda x: index_of(eng, l, x))
    if name == "pop":
        def pop(idx=-1):
            check()
            if idx == -1 and l.items and l.items[-1][0] == "v":
                return l.items.pop()[1]
            if idx == -1 and l.items:
                seq = eng.to_seq(l)
                eng.require(seq.length > 0, IndexError, "pop from an empty list")
                last = seq.get(z3.simplify(seq.length - 1))
                l.items[:] = pieces_of(eng.to_iter(SSeq(z3.simplify(seq.length - 1), seq.get)))
                return last
            if any(t != "v" for t, _ in l.items) or not isinstance(idx, int):
                raise Unsupported("pop")
            if not l.items:
                eng.require(z3.BoolVal(False), IndexError, "pop from an empty list")
                raise Infeasible()
            return l.items.pop(idx)[1]

        return Builtin(name, pop)
    if name == "insert":
        def insert(idx, x):
            check()
            if isinstance(idx, int) and (idx == 0 or all(t == "v" for t, _ in l.items)):
                l.items.insert(idx, ("v", x))
                return
            seq = eng.to_seq(l)
            n, i = seq.length, eng.znum(idx)
            i = z3.simplify(z3.If(i < 0, z3.If(n + i < 0, z3.IntVal(0), n + i), z3.If(i > n, n, i)))
            l.items[:] = pieces_of(eng.to_iter(SSeq(z3.simplify(n + 1), lambda k: eng.ite(k < i, seq.get(k), eng.ite(k == i, x, seq.get(z3.simplify(k - 1)))))))

        return Builtin(name, insert)
    if name == "sort":
        def sort(key=None, reverse=False):
            check()
            r = ordered_by(eng, l, key, reverse, None)
            l.items[:] = pieces_of(eng.to_iter(r))

        return Builtin(name, sort)
    if name == "reverse":
        def rev():
            check()
            if all(t == "v" for t, _ in l.items):
                l.items.reverse()
                return
            seq = eng.to_seq(l)
            n = seq.length
            l.items[:] = pieces_of(eng.to_iter(SSeq(n, lambda k: seq.get(z3.simplify(n - 1 - k)))))

        return Builtin(name, rev)
    return None


def seq_method(eng, s, name):
    if name == "index":
        return Builtin(name, lambda x: index_of(eng, s, x))
    if name == "copy":
        return Builtin(name, lambda: list_of(eng, s))
    if s.view is not None and name in ("insert", "pop", "append", "sort"):
        ref, owner, field, kind = s.view[:4]
        target = SRef(ref, eng.cls_of(owner))

        def insert(idx, x):
            n = s.length
            i = eng.znum(idx)
            if not eng.known(z3.And(i >= 0, i <= n)):
                i = z3.If(i < 0, z3.If(n + i < 0, z3.IntVal(0), n + i), z3.If(i > n, n, i))
            new = SSeq(n + 1, lambda k: eng.ite(k < i, s.get(k), eng.ite(k == i, x, s.get(z3.simplify(k - 1)))))
            eng.write_field(target, field, new)

        def pop(idx=-1):
            n = s.length
            i = eng.znum(idx)
            i = z3.simplify(z3.If(i < 0, n + i, i))
            eng.require(z3.And(i >= 0, i < n), IndexError, "pop index within bounds")
            r = s.get(i)
            new = SSeq(n - 1, lambda k: eng.ite(k < i, s.get(k), s.get(z3.simplify(k + 1))))
            eng.write_field(target, field, new)
            return r

        def append(x):
            n = s.length
            new = SSeq(n + 1, lambda k: eng.ite(k < n, s.get(k), x))
            eng.write_field(target, field, new)

        def sort(key=None, reverse=False):
            eng.write_field(target, field, eng.to_seq(ordered_by(eng, s, key, reverse, None)))

        return Builtin(name, {"insert": insert, "pop": pop, "append": append, "sort": sort}[name])
    return None


def set_method(eng, s, name):
    if name in ("add", "discard", "remove", "update") and isinstance(s, SSet):
        if s.view is None:
            raise Unsupported(f"set.{name}")
        ref, owner, field, kind = s.view[:4]
        target = SRef(ref, eng.cls_of(owner))

        def add(x):
            e = eng.raw(x)
            if eng.custom_eq(x):
                there = eng.contains(s, x)
                new = SSet(lambda y: z3.Or(s.mem(y), z3.And(y == e, z3.Not(there))), s.elem)
            else:
                new = SSet(lambda y: z3.Or(s.mem(y), y == e), s.elem)
            eng.write_field(target, field, new)

        def remove(x, strict=True):
            e = eng.raw(x)
            if eng.custom_eq(x):
                raise Unsupported("removal with a user-defined equality")
            if strict:
                eng.require(s.mem(e), KeyError, "element to remove is present")
            eng.write_field(target, field, SSet(lambda y: z3.And(s.mem(y), y != e), s.elem))

        if eng.binders or eng.ctx.parent is not None:
            raise Unsupported("mutation of a stored set inside a loop")
        return Builtin(name, {"add": add, "remove": remove, "discard": lambda x: remove(x, False)}.get(name))
    if isinstance(s, LocalSet):
        if name == "add":
            def add(x):
                if s.moved is not None:
                    raise Unsupported("mutation of a stored set")
                s.items.append(("v", x))

            return Builtin(name, add)
        if name == "update":
            return Builtin(name, lambda v: set_update(eng, s, v))
        if name in ("remove", "discard"):
            def remove(x):
                m = eng.as_set(s)
                e = eng.raw(x)
                if m is None:
                    m = SSet(lambda y: z3.BoolVal(False), "ref")
                if name == "remove":
                    eng.require(m.mem(e), KeyError, "element to remove is present")
                kind = m.elem
                c = eng.bound_of(kind)
                old = m.mem(c)
                s.items[:] = [("b", Branch([Bnd(c, z3.And(old, c != e), False)], TRUE, eng.wrap(kind, c)))]

            return Builtin(name, remove)
    if name == "copy":
        def copy_():
            r = LocalSet()
            set_update(eng, r, s)
            return r

        return Builtin(name, copy_)
    if name == "isdisjoint":
        def isdisjoint(o):
            it = eng.to_iter(o)
            out = []
            for b in it.branches:
                out.append(eng.exists_branch(b, eng.in_scope(b, lambda: eng.contains(s, b.value))))
            return as_bool(mk_not(mk_or(out)))

        return Builtin(name, isdisjoint)
    if name == "union":
        def union(*os):
            r = LocalSet()
            set_update(eng, r, s)
            for o in os:
                set_update(eng, r, o)
            return r

        return Builtin(name, union)
    if name == "difference":
        return Builtin(name, lambda o: set_binop(eng, E.ast.Sub(), s, as_some_set(eng, o)))
    if name == "intersection":
        return Builtin(name, lambda o: set_binop(eng, E.ast.BitAnd(), s, as_some_set(eng, o)))
    if name == "issubset":
        return Builtin(name, lambda o: as_bool(eng.order(E.ast.LtE(), s, as_some_set(eng, o), None)))
    return None


def as_some_set(eng, v):
    v = eng.deref(v)
    if E.is_set_value(v):
        return v
    s = LocalSet()
    set_update(eng, s, v)
    return s


def dict_method(eng, d, name):
    if name == "copy":
        return Builtin(name, lambda: LocalDict(d.d))
    if name == "get":
        def get(k, default=None):
            if isinstance(k, SV):
                raise Unsupported("symbolic dict key")
            return d.d.get(k, default)

        return Builtin(name, get)
    if name == "pop":
        def pop(k, *default):
            if isinstance(k, SV):
                raise Unsupported("symbolic dict key")
            if k not in d.d and not default:
                eng.require(z3.BoolVal(False), KeyError, f"missing key {k!r}")
                raise Infeasible()
            return d.d.pop(k, *default)

        return Builtin(name, pop)
    if name == "update":
        def update(*a, **kw):
            for o in a:
                o = eng.deref(o)
                if isinstance(o, W.OpenDict) and len(a) == 1:
                    whole = W.merged(eng, [d.d, o, kw])
                    d.moved = lambda: whole
                    return
                if not isinstance(o, (LocalDict, dict)):
                    raise Unsupported("update of a dict with an unknown mapping")
                d.d.update(o.d if isinstance(o, LocalDict) else o)
            d.d.update(kw)

        return Builtin(name, update)
    if name == "setdefault":
        return Builtin(name, lambda k, v=None: d.d.setdefault(k, v))
    if name == "items":
        return Builtin(name, lambda: LocalList([("v", kv) for kv in d.d.items()]))
    if name == "keys":
        return Builtin(name, lambda: LocalList([("v", k) for k in d.d]))
    if name == "values":
        return Builtin(name, lambda: LocalList([("v", v) for v in d.d.values()]))
    return None


def str_method(eng, s, name):
    if name == "join":
        def join(v):
            items = eng.concrete_items(v)
            if items is None:
                it = eng.to_iter(v)
                items = eng.concrete_items(it)
            if items is not None:
                parts = []
                for k, x in enumerate(items):
                    if k:
                        parts.extend(E.as_parts(s))
                    if not E.is_str(x):
                        raise Unsupported("join of non texts")
                    parts.extend(E.as_parts(x))
                return mk_text(parts)
            if not isinstance(s, str):
                raise Unsupported("join with a symbolic separator")
            return SStr([("s", eng.aggregate("join", it, StrS, extra=(s, it.kind if str(it.kind).startswith("sorted") else "")))])

        return Builtin(name, join)
    if isinstance(s, str) and hasattr(str, name):
        def meth(*a, **k):
            if E.has_sv(a):
                raise Unsupported(f"str.{name} of symbolic values")
            return getattr(s, name)(*a, **k)

        return Builtin(name, meth)
    return None


def setitem(eng, obj, key, v, node):
    obj = eng.deref(obj)
    if isinstance(obj, LocalDict):
        if isinstance(key, SRef):
            return maps.opened(eng, obj, key, v).vc_setitem(eng, key, v, node)
        if isinstance(key, SV):
            raise Unsupported("dict with a symbolic key")
        obj.d[key] = v
        return
    if hasattr(obj, "vc_setitem"):
        return obj.vc_setitem(eng, key, v, node)
    if isinstance(obj, LocalList) and isinstance(key, int) and all(t == "v" for t, _ in obj.items):
        obj.items[key] = ("v", v)
        return
    if isinstance(obj, SSeq) and obj.view is not None and obj.kind == "list" and E.is_num(key):
        ref, owner, field = obj.view[:3]
        n = obj.length
        i = eng.znum(key)
        eng.require(z3.And(i >= -n, i < n), IndexError, "assignment index within bounds", node)
        if not eng.known(i >= 0):
            i = z3.If(i < 0, n + i, i)
        eng.write_field(SRef(ref, eng.cls_of(owner)), field, SSeq(n, lambda k: eng.ite(k == i, v, obj.get(k)), "list"))
        return
    if isinstance(obj, EObj):
        f = eng.find_method(obj, "__setitem__")
        if f is not None:
            return eng.call(f, [key, v], {}, node)
    raise Unsupported(f"item assignment on {E.describe(obj)}")


def getitem(eng, obj, key, node):
    obj = eng.deref(obj)
    if hasattr(obj, "vc_getitem"):
        return obj.vc_getitem(eng, key, node)
    if isinstance(key, slice):
        return slice_of(eng, obj, key.start, key.stop, key.step, node)
    if isinstance(obj, LocalDict):
        if isinstance(key, SV):
            raise Unsupported("symbolic dict key")
        if key not in obj.d:
            eng.require(z3.BoolVal(False), KeyError, f"missing key {key!r}", node)
            raise Infeasible()
        return obj.d[key]
    if isinstance(obj, (SRef, EObj)):
        f = eng.find_method(obj, "__getitem__")
        if f is not None:
            return eng.call(f, [key], {}, node)
        raise Unsupported("subscript of an object")
    if not isinstance(obj, SV) and not isinstance(key, SV):
        try:
            return obj[key]
        except (IndexError, KeyError) as e:
            eng.require(z3.BoolVal(False), type(e), str(e), node)
            raise Infeasible()
    if isinstance(obj, (SSeq, LocalList, tuple, list, SCoords, SIter, range)):
        s = eng.to_seq(obj)
        i = eng.znum(key)
        if not z3.is_int(i):
            raise Unsupported("index that is not an integer")
        n = s.length
        eng.require(z3.And(i >= -n, i < n), IndexError, "index within bounds", node)
        isimp = z3.simplify(i)
        if z3.is_int_value(isimp):
            j = isimp if isimp.as_long() >= 0 else z3.simplify(n + isimp)
        elif eng.known(i >= 0):
            j = i
        else:
            j = z3.If(i < 0, n + i, i)
        return s.get(z3.simplify(j))
    raise Unsupported(f"subscript of {E.describe(obj)}")


def slice_of(eng, obj, lo, hi, st, node):
    obj = eng.deref(obj)
    if not isinstance(obj, SV) and not E.has_sv(obj) and not any(isinstance(x, SV) for x in (lo, hi, st)):
        return obj[slice(lo, hi, st)]
    if isinstance(obj, (SStr, str)):
        raise Unsupported("slice of a text")
    items = eng.concrete_items(obj)
    if items is not None and not any(isinstance(x, SV) for x in (lo, hi, st)):
        r = items[slice(lo, hi, st)]
        return tuple(r) if isinstance(obj, tuple) else LocalList([("v", x) for x in r])
    if st is not None and st != 1:
        if st == -1 and lo is None and hi is None:
            return LocalList(pieces_of(eng.to_iter(m_reversed(eng, [obj], {}, node))))
        raise Unsupported("slice with a step")
    s = eng.to_seq(obj)
    n = s.length

    def norm(x, default):
        if x is None:
            return default
        if isinstance(x, SOpt):
            raise Unsupported("optional slice bound")
        e = eng.znum(x)
        e = z3.If(e < 0, z3.If(n + e < 0, z3.IntVal(0), n + e), z3.If(e > n, n, e))
        return e

    a, b = norm(lo, z3.IntVal(0)), norm(hi, n)
    a, b = simp_bound(eng, a), simp_bound(eng, b)
    ln = z3.simplify(b - a)
    cut = -hi if lo is None and isinstance(hi, int) else lo if hi is None and isinstance(lo, int) else 0
    if cut > 0 and (z3.is_app_of(a, z3.Z3_OP_ITE) or z3.is_app_of(b, z3.Z3_OP_ITE)):
        # (x[c:] and x[:-c] are written alike: nothing is looked up in an empty slice)
        ln, a = z3.simplify(z3.If(n >= cut, n - cut, z3.IntVal(0))), z3.IntVal(cut if hi is None else 0)
    elif not eng.known(ln >= 0):
        ln = z3.simplify(z3.If(b - a >= 0, b - a, z3.IntVal(0)))
    base = (s.get, a) if s.base is None else (s.base[0], z3.simplify(s.base[1] + a))
    return SSeq(ln, lambda i: s.get(z3.simplify(i + a)), s.kind, base=base)


def simp_bound(eng, e):
    e = z3.simplify(e)
    for _ in range(6):
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
            c, x, y = e.children()
            if eng.known(c):
                e = z3.simplify(x)
                continue
            if eng.known(z3.Not(c)):
                e = z3.simplify(y)
                continue
        break
    return e


@model(E.item)
def m_item(eng, args, kwargs, node):
    return eng.to_seq(eng.deref(args[0])).get(z3.simplify(eng.znum(args[1])))


@model(E.is_new)
def m_is_new(eng, args, kwargs, node):
    e = eng.raw(eng.deref(args[0]))
    if eng.now is not None:
        return SBool(E.BIRTH(e) == eng.now)
    return SBool(E.BIRTH(e) > eng.mark)


def dict_of_pairs(eng, branches):
    if len(branches) == 1 and branches[0].binders:
        return maps.of_pairs(eng, branches[0])
    d = {}
    for b in branches:
        if b.binders or not z3.is_true(b.guard):
            raise Unsupported("dict comprehension over a symbolic domain")
        k, v = b.value
        if isinstance(k, SV):
            raise Unsupported("dict with a symbolic key")
        d[k] = v
    return LocalDict(d)


@model(copy.deepcopy)
def m_deepcopy(eng, args, kwargs, node):
    v = eng.deref(args[0])
    if isinstance(v, SRef):
        f = eng.find_method(v, "__deepcopy__")
        if f is not None:
            memo = args[1] if len(args) > 1 else LocalDict({})
            return eng.call(f, [memo], {}, node)
    raise Unsupported("deepcopy")


# order-statistics functions used through OptimizationDirection
@model(heapq.nlargest)
def m_nlargest(eng, args, kwargs, node):
    return ordered_by(eng, args[1], kwargs.get("key", args[2] if len(args) > 2 else None), True, node, n=args[0])


@model(heapq.nsmallest)
def m_nsmallest(eng, args, kwargs, node):
    return ordered_by(eng, args[1], kwargs.get("key", args[2] if len(args) > 2 else None), False, node, n=args[0])
