"""C20: de-duplication, combinations and index pairs."""
import itertools
import math

import z3

from jinete.utils import collections as _collections  # noqa: F401
from jinete.utils import random as _random  # noqa: F401
from pyvc.spec import R, engine_level
from pyvc.values import LocalSet, SBool, SNum, SV, Builtin, Unsupported
from pyvc.builtins_model import PRODRANGE, SomeRandom

U = "jinete.utils."

# ----------------------------------------------------------------------------------------------- remove_duplicates

c = R.add(U + "collections:remove_duplicates", params=dict(seq="list:str"), result="list:str", props=["C20"])


@c.post("the first occurrence of every element, in order, and nothing else")
def _(seq, result):
    return list(result) == [x for k, x in enumerate(seq) if x not in seq[:k]]


# ----------------------------------------------------------------------------------------------- combinations


def P(a, b):
    return PRODRANGE(a, b)


def product_definition(a, b):
    """prodrange(a, b) is the product of the integers a, a + 1, ..., b - 1."""
    return z3.And(z3.Implies(b <= a, P(a, b) == 1), z3.Implies(a < b, P(a, b) == P(a, b - 1) * (b - 1)))


@R.lemma("products of adjacent ranges: base", ["C20"], a="int", b="int", c="int")
@engine_level
def _(eng, a, b, c):
    a, b = a.e, b.e
    return z3.Implies(z3.And(a <= b, product_definition(a, b), product_definition(b, b)), P(a, b) * P(b, b) == P(a, b))


@R.lemma("products of adjacent ranges: step", ["C20"], a="int", b="int", c="int")
@engine_level
def _(eng, a, b, c):
    a, b, c = a.e, b.e, c.e
    defs = z3.And(product_definition(b, c + 1), product_definition(a, c + 1))
    return z3.Implies(z3.And(a <= b, b <= c, defs, P(a, b) * P(b, c) == P(a, c)), P(a, b) * P(b, c + 1) == P(a, c + 1))


@R.lemma("a product of positive numbers is positive: step", ["C20"], a="int", b="int")
@engine_level
def _(eng, a, b):
    a, b = a.e, b.e
    return z3.And(z3.Implies(z3.And(product_definition(a, a)), P(a, a) >= 1),
                  z3.Implies(z3.And(a >= 1, a <= b, product_definition(a, b + 1), P(a, b) >= 1), P(a, b + 1) >= 1))


@R.lemma("a common factor cancels in a whole division", ["C20"], a="int", b="int", c="int")
@engine_level
def _(eng, a, b, c):
    a, b, c = a.e, b.e, c.e
    q, s, m = b / c, b % c, c * a
    # b = q c + s with 0 <= s < c, hence a b = q (c a) + s a with 0 <= s a < c a
    pos = z3.And(a >= 1, c >= 1)
    return z3.And(z3.Implies(pos, z3.And(0 <= s * a, s * a < m)), z3.Implies(pos, a * b == q * m + s * a))


@R.lemma("quotients are unique", ["C20"], x="int", q="int", m="int", t="int")
@engine_level
def _(eng, x, q, m, t):
    x, q, m, t = x.e, q.e, m.e, t.e
    return z3.Implies(z3.And(m >= 1, x == q * m + t, 0 <= t, t < m), x / m == q)


def adjacent(a, b, c):
    return z3.Implies(z3.And(a <= b, b <= c), P(a, b) * P(b, c) == P(a, c))


def cancels(a, b, c):
    return z3.Implies(z3.And(a >= 1, c >= 1), (a * b) / (c * a) == b / c)


@R.lemma("n (n - 1) is even", ["C20"], n="int", h="int")
@engine_level
def _(eng, n, h):
    n, h = n.e, h.e
    return z3.And(z3.Implies(n == 2 * h, n * (n - 1) == 2 * (h * (n - 1))), z3.Implies(n == 2 * h + 1, n * (n - 1) == 2 * (h * n)))


ncr = R.add(U + "random:ncr", params=dict(n="int", r="int"), result="int", props=["C20"])


@ncr.check("the binomial coefficient n! / (r! (n - r)!)")
def _(eng, binding, result):
    n, r, res = binding["n"].e, binding["r"].e, eng.znum(result)
    one = z3.IntVal(1)
    low, high = P(one, r + 1), P(one, n - r + 1)
    # instances of the lemmas above
    for m in (r, n - r):
        eng.fact(adjacent(one, n - m + 1, n + 1))
        eng.fact(cancels(P(one, n - m + 1), P(n - m + 1, n + 1), P(one, m + 1)))
    eng.fact(z3.Implies(z3.And(r >= 0, r <= n), z3.And(low >= 1, high >= 1, low * high == high * low)))
    goal = z3.Implies(z3.And(r >= 0, r <= n), res == P(one, n + 1) / (low * high))
    eng.oblige(goal, "the binomial coefficient n! / (r! (n - r)!)")


two = R.add(U + "random:ncr", variant="of two", params=dict(n="int", r=lambda eng: 2), result="int", props=["C20"])
# what callers may use, proved for r = 2 by the variant
ncr.for_callers = two.ensures_


@two.hint
def _(eng, binding, result):
    n = binding["n"].e
    one, res = z3.IntVal(1), eng.znum(result)
    eng.fact(z3.And(P(one, z3.IntVal(3)) == 2, P(one, z3.IntVal(2)) == 1, P(one, one) == 1, P(n, n + 1) == n))
    eng.establish(z3.Implies(n >= 4, res == P(n - 1, n + 1) / 2), "two factors over 2")
    eng.establish(z3.Implies(n == 3, res == 3), "three pairs of three")
    eng.establish(z3.Implies(n == 2, res == 1), "one pair of two")
    half = eng.fresh_const(z3.IntSort(), "half")
    eng.fact(z3.And(P(n - 1, n + 1) == n * (n - 1), n * (n - 1) == 2 * half))


@two.post("for pairs: n (n - 1) / 2")
def _(n, r, result):
    return r != 2 or n < 2 or 2 * result == n * (n - 1)


@two.post("at least one when n < 2")
def _(n, r, result):
    return r != 2 or n >= 2 or result == 1


@R.lemma("products of at most two numbers", ["C20"], n="int")
@engine_level
def _(eng, n):
    n, one = n.e, z3.IntVal(1)
    defs = [product_definition(a, b) for a, b in ((one, one), (one, z3.IntVal(2)), (one, z3.IntVal(3)), (n, n), (n, n + 1), (n - 1, n - 1), (n - 1, n), (n - 1, n + 1))]
    return z3.Implies(z3.And(*defs), z3.And(P(one, z3.IntVal(3)) == 2, P(one, z3.IntVal(2)) == 1, P(one, one) == 1,
                                            P(n - 1, n + 1) == n * (n - 1), P(n, n + 1) == n))


# ----------------------------------------------------------------------------------------------- index pairs


class PairSet(SV):
    """A set of pairs of integers: any membership predicate and its number of elements."""

    __slots__ = ("mem", "size")

    def __init__(self, mem, size):
        self.mem, self.size = mem, size

    def vc_len(self, eng):
        return SNum(self.size)

    def vc_contains(self, eng, x):
        return z3.Select(self.mem, eng.znum(x[0]), eng.znum(x[1]))

    def vc_getattr(self, eng, name, node):
        if name != "add":
            raise Unsupported(f"set.{name}")

        def add(x):
            i, j = eng.znum(x[0]), eng.znum(x[1])
            there = z3.Select(self.mem, i, j)
            self.size = self.size + z3.If(there, 0, 1)
            self.mem = z3.Store(self.mem, i, j, z3.BoolVal(True))

        return Builtin(name, add)


def pair_set(eng):
    I, B = z3.IntSort(), z3.BoolSort()
    s = PairSet(eng.fresh_const(z3.ArraySort(I, I, B), "pairs"), eng.fresh_const(I, "size"))
    eng.fact(s.size >= 0)
    return s


pair_set.accepts = LocalSet


def elements(eng, v):
    """(membership of a pair of integers, number of distinct elements, are all elements distinct?)"""
    v = eng.deref(v)
    if isinstance(v, PairSet):
        return (lambda i, j: z3.Select(v.mem, i, j)), v.size, z3.BoolVal(True)
    size = None
    if isinstance(v, LocalSet):
        if v.items:
            raise Unsupported("a set of pairs")
        return (lambda i, j: z3.BoolVal(False)), z3.IntVal(0), z3.BoolVal(True)
    it = eng.to_iter(v)

    def mem(i, j):
        out = []
        for b in it.branches:
            x, y = eng.unpack(b.value, 2)
            out.append(eng.exists_branch(b, z3.And(eng.znum(x) == i, eng.znum(y) == j)))
        return z3.Or(*out) if out else z3.BoolVal(False)

    distinct = []
    for k, b in enumerate(it.branches):
        other = [(c, z3.Const(f"d!{next(eng.counter)}", c.sort())) for c in b.consts]
        from pyvc.values import subst_branch

        o = subst_branch(b, other)
        (x, y), (x2, y2) = eng.unpack(b.value, 2), eng.unpack(o.value, 2)
        same = z3.And(eng.znum(x) == eng.znum(x2), eng.znum(y) == eng.znum(y2))
        if b.consts:
            ident = z3.And(*[c == d for c, d in other])
            distinct.append(z3.ForAll(b.consts + [d for _, d in other], z3.Implies(z3.And(b.cond, o.cond, same), ident)))
        if len(it.branches) > 1:
            raise Unsupported("pairs from several sources")
    return mem, size, z3.And(*distinct) if distinct else z3.BoolVal(True)


def valid(i, j, n):
    return z3.And(0 <= i, i < j, j < n)


@engine_level
def only_valid_pairs(eng, indices, n):
    i, j = z3.Ints("pi pj")
    mem, _, _ = elements(eng, indices)
    return z3.ForAll([i, j], z3.Implies(mem(i, j), valid(i, j, n.e)))


@engine_level
def at_most(eng, indices, count):
    return elements(eng, indices)[1] <= count.e


from pyvc.loops import Invariant  # noqa: E402

for generator in ("module", "instance"):
    c = R.add(U + "random:sample_index_pairs", variant="" if generator == "instance" else "default generator",
              params=dict(n="int", count="int", random=(lambda eng: SomeRandom()) if generator == "instance" else (lambda eng: None)),
              result="list:tuple", props=["C20"], opaque=False,
              loops={0: Invariant({"indices": pair_set}, [("only valid pairs so far", only_valid_pairs), ("not more than asked for", at_most)])})

    @c.pre("sizes are not negative")
    def _(n, count):
        return n >= 0 and count >= 0

    @c.check("index pairs")
    def _(eng, binding, result):
        n, count = binding["n"].e, binding["count"].e
        i, j = z3.Ints("pi pj")
        mem, size, distinct = elements(eng, result)
        eng.oblige(z3.ForAll([i, j], z3.Implies(mem(i, j), valid(i, j, n))), "only pairs i < j below n")
        eng.oblige(distinct, "no pair twice")
        # n (n - 1) / 2 pairs exist
        few = z3.And(n * (n - 1) <= 2 * count)
        eng.oblige(z3.Implies(few, z3.ForAll([i, j], z3.Implies(valid(i, j, n), mem(i, j)))), "every pair when there are not more than asked for")
        if size is not None:
            eng.oblige(z3.Implies(z3.Not(few), size == count), "exactly as many as asked for otherwise")
        else:
            eng.oblige(few, "all pairs only when there are not more than asked for")
