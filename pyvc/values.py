"""Symbolic values of the verification-condition generator.

Python values that are fully known stay plain Python values (int, str, None, tuples, functions, classes...).
Everything that depends on the (arbitrary) input is one of the classes below, wrapping z3 terms.
"""
from __future__ import annotations

from fractions import Fraction

import z3

Ref = z3.DeclareSort("Ref")
StrS = z3.DeclareSort("Str")
Coords = z3.DeclareSort("Coords")
NULL = z3.Const("NULL", Ref)
INF = z3.Real("INF")


class Unsupported(Exception):
    """The code leaves the subset of Python the generator understands (never a verdict about the code)."""


class Infeasible(Exception):
    """The current path cannot be executed."""


LIVE = []  # mutable values created on the current path, in order of creation


class SV(object):
    __slots__ = ()


class SNum(SV):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def is_int(self):
        return z3.is_int(self.e)

    def __repr__(self):
        return f"SNum({self.e})"


class SBool(SV):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"SBool({self.e})"


class SRef(SV):
    """An object reference; ``cls`` is the (static) class of the object."""

    __slots__ = ("e", "cls", "nullable")

    def __init__(self, e, cls, nullable=False):
        self.e, self.cls, self.nullable = e, cls, nullable

    def __repr__(self):
        return f"SRef({self.e}:{getattr(self.cls, '__name__', self.cls)}{'?' if self.nullable else ''})"


class SCoords(SV):
    """An immutable tuple of numbers of unknown length."""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"SCoords({self.e})"


class SOpt(SV):
    """Either None or ``val``."""

    __slots__ = ("isnone", "val")

    def __init__(self, isnone, val):
        self.isnone, self.val = isnone, val

    def __repr__(self):
        return f"SOpt({self.isnone}, {self.val})"


class SStr(SV):
    """A string: a sequence of parts, each a Python str or a tuple ('f', spec, value) or ('s', z3 Str term)."""

    __slots__ = ("parts",)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = tuple(out)

    def __repr__(self):
        return f"SStr{self.parts}"


class Bnd(object):
    """A bound variable of a comprehension: z3 constant, domain formula and whether the domain is ordered."""

    __slots__ = ("const", "dom", "ordered", "lo", "hi")

    def __init__(self, const, dom, ordered, lo=None, hi=None):
        self.const, self.dom, self.ordered, self.lo, self.hi = const, dom, ordered, lo, hi


class Branch(object):
    """``value`` for every assignment of the binders (in lexicographic order) that satisfies domains and guard."""

    __slots__ = ("binders", "guard", "value")

    def __init__(self, binders, guard, value):
        self.binders, self.guard, self.value = list(binders), guard, value

    @property
    def cond(self):
        cs = [b.dom for b in self.binders]
        if not z3.is_true(self.guard):
            cs.append(self.guard)
        return mk_and(cs)

    @property
    def consts(self):
        return [b.const for b in self.binders]


class SortedBranch(Branch):
    """The elements of a branch, in the order sorting gives them (``kind`` as of the iterable)."""

    __slots__ = ("kind",)

    def __init__(self, binders, guard, value, kind):
        super().__init__(binders, guard, value)
        self.kind = kind


class SIter(SV):
    """An iterable in comprehension normal form: the concatenation of branches."""

    __slots__ = ("branches", "kind")

    def __init__(self, branches, kind="iter"):
        self.branches, self.kind = list(branches), kind

    def __repr__(self):
        return f"SIter[{self.kind}]({[(b.consts, b.guard, b.value) for b in self.branches]})"


class SSeq(SV):
    """A list or tuple with a symbolic length and a getter."""

    __slots__ = ("length", "get", "kind", "view", "base")

    def __init__(self, length, get, kind="list", view=None, base=None):
        self.length, self.get, self.kind, self.view = length, get, kind, view
        self.base = base      # (getter, offset) of the sequence this one is a slice of


class SSet(SV):
    """A set given by its membership predicate on raw z3 elements."""

    __slots__ = ("mem", "elem", "view")

    def __init__(self, mem, elem, view=None):
        self.mem, self.elem, self.view = mem, elem, view


class LocalList(SV):
    """A list object created by the code under verification: a mutable sequence of pieces.

    ``items`` holds either ('v', value) for one element or ('b', Branch) for the elements of a branch.
    """

    __slots__ = ("items", "moved")

    def __init__(self, items=()):
        self.items, self.moved = list(items), None
        LIVE.append(self)


class LocalSet(SV):
    """A set object created by the code under verification."""

    __slots__ = ("items", "moved")

    def __init__(self, items=()):
        self.items, self.moved = list(items), None
        LIVE.append(self)


class LocalDict(SV):
    """A dict with concretely known keys."""

    __slots__ = ("d", "moved")

    def __init__(self, d=None):
        self.d, self.moved = dict(d or {}), None
        LIVE.append(self)


class EObj(SV):
    """An object whose attributes are tracked by the interpreter (helper objects, not model entities)."""

    __slots__ = ("cls", "attrs", "made")

    def __init__(self, cls, attrs=None, made=False):
        self.cls, self.attrs = cls, dict(attrs or {})
        self.made = made      # by the code itself (all its attributes are known)
        LIVE.append(self)

    def __repr__(self):
        return f"EObj({self.cls.__name__})"


class BoundMethod(SV):
    __slots__ = ("func", "self", "owner")

    def __init__(self, func, self_, owner=None):
        self.func, self.self, self.owner = func, self_, owner


class Closure(SV):
    """A lambda or nested function of interpreted code."""

    __slots__ = ("node", "frame", "name")

    def __init__(self, node, frame, name="<lambda>"):
        self.node, self.frame, self.name = node, frame, name


class Builtin(SV):
    """A method of a symbolic container, implemented by the interpreter."""

    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class SuperProxy(SV):
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class PyRaise(Exception):
    """A Python exception raised by interpreted code."""

    def __init__(self, exc, what=""):
        super().__init__(f"{getattr(exc, '__name__', exc)}: {what}")
        self.exc, self.what = exc, what


def mk_and(cs):
    cs = [c for c in cs if not z3.is_true(c)]
    if any(z3.is_false(c) for c in cs):
        return z3.BoolVal(False)
    if not cs:
        return z3.BoolVal(True)
    if len(cs) == 1:
        return cs[0]
    return z3.And(*cs)


def mk_or(cs):
    cs = [c for c in cs if not z3.is_false(c)]
    if any(z3.is_true(c) for c in cs):
        return z3.BoolVal(True)
    if not cs:
        return z3.BoolVal(False)
    if len(cs) == 1:
        return cs[0]
    return z3.Or(*cs)


def mk_not(c):
    if z3.is_true(c):
        return z3.BoolVal(False)
    if z3.is_false(c):
        return z3.BoolVal(True)
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def mk_ite(c, a, b):
    if z3.is_true(c) or a.eq(b):
        return a
    if z3.is_false(c):
        return b
    return z3.If(c, a, b)


def numval(v):
    """The z3 term of a concrete Python number."""
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        if v == float("inf"):
            return INF
        if v == float("-inf"):
            return -INF
        fr = Fraction(repr(v))
        return z3.RealVal(f"{fr.numerator}/{fr.denominator}")
    raise Unsupported(f"number {v!r}")


def to_real(e):
    return z3.ToReal(e) if z3.is_int(e) else e


_vars_cache = {}


def free_consts(e, memo=None):
    """Names of the uninterpreted constants of a term."""
    key = e.get_id()
    hit = _vars_cache.get(key)
    if hit is not None:      # the table keeps the term alive, so the identity is the term's
        return hit[1]
    todo = [e]
    while todo:
        x = todo[-1]
        if x.get_id() in _vars_cache:
            todo.pop()
            continue
        kids = [x.body()] if z3.is_quantifier(x) else x.children() if z3.is_app(x) else []
        if not kids and z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            _vars_cache[x.get_id()] = (x, frozenset([x.decl().name()]))
            continue
        left = [c for c in kids if c.get_id() not in _vars_cache]
        if left:
            todo.extend(left)
            continue
        parts = [_vars_cache[c.get_id()][1] for c in kids]
        big = max(parts, key=len, default=frozenset())
        _vars_cache[x.get_id()] = (x, big if all(q <= big for q in parts) else frozenset().union(*parts))
    return _vars_cache[key][1]


_quant_cache = {}


def has_quant(e):
    key = e.get_id()
    hit = _quant_cache.get(key)
    if hit is not None:      # the table keeps the term alive, so the identity is the term's
        return hit[1]
    res = False
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            res = True
            break
        todo.extend(x.children())
    _quant_cache[key] = (e, res)
    return res


def subst_value(v, pairs):
    """Substitute z3 constants in a symbolic value."""
    if not pairs:
        return v
    if isinstance(v, SNum):
        return SNum(z3.substitute(v.e, *pairs))
    if isinstance(v, SBool):
        return SBool(z3.substitute(v.e, *pairs))
    if isinstance(v, SRef):
        return SRef(z3.substitute(v.e, *pairs), v.cls, v.nullable)
    if isinstance(v, SCoords):
        return SCoords(z3.substitute(v.e, *pairs))
    if isinstance(v, SOpt):
        return SOpt(z3.substitute(v.isnone, *pairs), subst_value(v.val, pairs))
    if isinstance(v, SStr):
        return SStr([p if isinstance(p, str) else subst_part(p, pairs) for p in v.parts])
    if isinstance(v, tuple):
        return tuple(subst_value(x, pairs) for x in v)
    if isinstance(v, SIter):
        return SIter([subst_branch(b, pairs) for b in v.branches], v.kind)
    if isinstance(v, SSeq):
        get = v.get
        return SSeq(z3.substitute(v.length, *pairs), lambda i, g=get: subst_value(g(i), pairs), v.kind)
    if isinstance(v, SSet):
        mem = v.mem
        return SSet(lambda x, m=mem: z3.substitute(m(x), *pairs), v.elem)
    if isinstance(v, LocalList):
        return LocalList([(t, subst_value(x, pairs) if t == "v" else subst_branch(x, pairs)) for t, x in v.items])
    if isinstance(v, LocalDict) and v.moved is None:
        d = {k: subst_value(x, pairs) for k, x in v.d.items()}
        return LocalDict(d) if any(d[k] is not v.d[k] for k in d) else v
    if hasattr(v, "vc_subst"):
        return v.vc_subst(pairs)
    return v


def subst_part(p, pairs):
    if p[0] == "s":
        return ("s", z3.substitute(p[1], *pairs))
    if p[0] == "f":
        return ("f", p[1], subst_value(p[2], pairs))
    return p


def subst_branch(b, pairs):
    if isinstance(b, SortedBranch):
        n = subst_branch(Branch(b.binders, b.guard, b.value), pairs)
        return SortedBranch(n.binders, n.guard, n.value, b.kind)
    return Branch(
        [
            Bnd(
                x.const,
                z3.substitute(x.dom, *pairs),
                x.ordered,
                None if x.lo is None else z3.substitute(x.lo, *pairs),
                None if x.hi is None else z3.substitute(x.hi, *pairs),
            )
            for x in b.binders
        ],
        z3.substitute(b.guard, *pairs),
        subst_value(b.value, pairs),
    )


def forall_pat(vs, body, pats):
    """A quantified formula with a trigger when the trigger is usable."""
    for p in pats:
        todo = [p]
        while todo:
            x = todo.pop()
            if z3.is_quantifier(x) or z3.is_var(x):
                return z3.ForAll(vs, body)
            if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_ITE, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
                return z3.ForAll(vs, body)
            todo.extend(x.children())
    try:
        return z3.ForAll(vs, body, patterns=list(pats))
    except z3.Z3Exception:
        return z3.ForAll(vs, body)
