"""Verification-condition generator: symbolic interpretation of the real function bodies of /repo.

One ``Engine`` verifies one function (one contract variant).  The body is read from the source of the imported module
on every run; every path of it is executed symbolically; calls of functions under contract are replaced by their
contract; everything else in the repository is inlined; loops and comprehensions are summarised without any bound
(see ``loops.py``).  What leaves the supported subset raises ``Unsupported``.
"""
from __future__ import annotations

import ast
import functools
import inspect
import itertools
import logging
import sys
import textwrap
import time
import types

import z3

from . import values as V
from . import world as W
from .values import (
    INF,
    NULL,
    BoundMethod,
    Branch,
    Bnd,
    Builtin,
    Closure,
    Coords,
    EObj,
    Infeasible,
    LocalDict,
    LocalList,
    LocalSet,
    PyRaise,
    Ref,
    SBool,
    SCoords,
    SIter,
    SortedBranch,
    SNum,
    SOpt,
    SRef,
    SSeq,
    SSet,
    SStr,
    StrS,
    SuperProxy,
    SV,
    Unsupported,
    forall_pat,
    free_consts,
    has_quant,
    mk_and,
    mk_ite,
    mk_not,
    mk_or,
    numval,
    subst_branch,
    subst_value,
    to_real,
)

MAX_INLINE = 40


# ----------------------------------------------------------------------------------------------------------- source


@functools.lru_cache(maxsize=None)
def function_ast(func):
    try:
        src = textwrap.dedent(inspect.getsource(func))
    except (OSError, TypeError) as exc:
        raise Unsupported(f"no source for {func}: {exc}")
    try:
        tree = ast.parse(src)
    except SyntaxError:
        raise Unsupported(f"source of {func} cannot be isolated")
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)) and node.name == func.__name__:
            return node
    lambdas = [n for n in ast.walk(tree) if isinstance(n, ast.Lambda)]
    if func.__name__ == "<lambda>":
        code_consts = func.__code__.co_consts
        if len(lambdas) == 1:
            return lambdas[0]
        cands = [n for n in lambdas if tuple(a.arg for a in n.args.args) == func.__code__.co_varnames[: func.__code__.co_argcount]]
        if len(cands) == 1:
            return cands[0]
        # fall back on matching the compiled code
        for n in cands:
            try:
                c = compile(ast.Expression(n), "x", "eval").co_consts[0]
                if c.co_code == func.__code__.co_code and c.co_names == func.__code__.co_names:
                    return n
            except Exception:  # pragma: no cover
                pass
    raise Unsupported(f"no definition of {func}")


def is_generator(node):
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def assigned_names(nodes):
    out = set()
    for top in nodes:
        for n in ast.walk(top):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
    return out


def used_names(nodes):
    out = set()
    for top in nodes:
        for n in ast.walk(top):
            if isinstance(n, ast.Name):
                out.add(n.id)
    return out


# ----------------------------------------------------------------------------------------------------------- frames


class Frame(object):
    def __init__(self, func_name, globals_, locals_=None, parent=None, cells=None, cls_cell=None, first=None):
        self.name = func_name
        self.globals = globals_
        self.locals = dict(locals_ or {})
        self.parent = parent
        self.cells = cells or {}
        self.cls_cell = cls_cell
        self.first = first
        self.emitted = []
        self.loop_count = 0
        self.contract = None

    def lookup(self, name):
        f = self
        while f is not None:
            if name in f.locals:
                return f.locals[name]
            if name in f.cells:
                return f.cells[name]
            f = f.parent
        if name in self.globals:
            return self.globals[name]
        b = self.globals.get("__builtins__", __builtins__)
        if isinstance(b, types.ModuleType):
            b = b.__dict__
        if name in b:
            return b[name]
        raise Unsupported(f"name {name!r} is not defined")


class ReturnSignal(Exception):
    def __init__(self, value):
        self.value = value


class BreakSignal(Exception):
    pass


class ContinueSignal(Exception):
    pass


class Obligation(object):
    __slots__ = ("name", "where", "hyps", "goal", "status", "model", "seconds", "backend", "detail", "aggs")

    def __init__(self, name, where, hyps, goal, aggs):
        self.name, self.where, self.hyps, self.goal, self.aggs = name, where, hyps, goal, aggs
        self.status, self.model, self.seconds, self.backend, self.detail = None, None, 0.0, None, ""


class MutatesInside(Unsupported):
    """A collection is changed while an expression is evaluated."""


class Effects(object):
    """What one path of a sub-execution changed."""

    def __init__(self, heap):
        self.heap, self.deltas, self.written = heap, {}, set()


def snapshot(o):
    if isinstance(o, (LocalList, LocalSet)):
        return (list(o.items) if isinstance(o.items, list) else list(o.items.added), o.items, o.moved)
    if isinstance(o, EObj):
        return dict(o.attrs)
    if isinstance(o, LocalDict) and o.moved is not None:
        return dict(o.d, **{"#moved": o.moved})
    return dict(o.d)


def restore(o, st):
    if isinstance(o, (LocalList, LocalSet)):
        o.items = st[1]
        if isinstance(o.items, list):
            o.items[:] = st[0]
        else:
            o.items.added[:] = st[0]
        o.moved = st[2]
    elif isinstance(o, EObj):
        o.attrs.clear()
        o.attrs.update(st)
    else:
        o.d.clear()
        o.d.update(st)
        if isinstance(o, LocalDict):
            o.moved = o.d.pop("#moved", None)


BIRTH = z3.Function("birth", Ref, z3.IntSort())


def item(seq, i):
    """Specification: the element at index ``i >= 0`` of a sequence (some value if there is none)."""
    return seq[i]


def is_new(x):
    """Specification: the object was created by the function under contract."""
    raise NotImplementedError


def by_appearance(params, exprs):
    """The bound variables in the order in which the terms mention them."""
    left = {q.decl().name(): q for q in params}
    out, seen = [], set()
    todo = list(reversed(exprs))
    while todo and left:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_const(x):
            q = left.pop(x.decl().name(), None) if x.decl().kind() == z3.Z3_OP_UNINTERPRETED else None
            if q is not None:
                out.append(q)
        else:
            todo.extend(reversed(x.children()))
    return out + list(left.values())


class PathCtx(object):
    def __init__(self, prefix=(), parent=None):
        self.prefix = list(prefix)
        self.taken = []
        self.alts = []
        self.pc = []
        self.owed = set()        # (which of the conditions are stated by obligations)
        self.parent = parent


class Agg(object):
    """A definitional aggregate (sum, join, sorted, ...) over one or more branches."""

    __slots__ = ("kind", "branches", "params", "fn", "app", "extra")

    def __init__(self, kind, branches, params, fn, app, extra=()):
        self.kind, self.branches, self.params, self.fn, self.app, self.extra = kind, branches, params, fn, app, extra


# ----------------------------------------------------------------------------------------------------------- engine


class Engine(object):
    def __init__(self, registry, schema, unfold=1, timeout_ms=8000, max_paths=400, deadline=None):
        self.registry = registry
        self.schema = schema
        self.unfold = unfold
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.obligations = []
        self.paths = 0
        self.solver_calls = 0
        self.inlined = set()
        self.used_contracts = set()
        self.assumptions = set()
        self.reset_path()
        self.top_func = None
        self.top_contract = None
        self.ghosts = {}
        from . import builtins_model, loops

        self.builtins = builtins_model
        self.loops = loops

    # ------------------------------------------------------------------ state

    def reset_path(self):
        self.counter = itertools.count()
        self.axioms = []
        self.ground = (0, [])
        self.aggs = []
        self.agg_index = {}
        self.heap = {}
        self.heap_version = 0
        self.binders = []
        self.spec_mode = 0
        self.no_join = 0
        self.quiet = 0
        self.level = 0
        self.instantiated = set()
        self.inline_depth = 0
        self.births = 0
        self.mark, self.now = 0, None   # new objects are those born after the mark (at a given time)
        self.allocs = {}          # objects created by the code under verification
        self.ages = []            # (term, time, is a field): refers to objects that existed at that time
        self.memo = {}
        self.suppress_none = 0
        self.call_stack = []
        self.trace = []
        self.tracking, self.coherent = False, True
        self.views = {}           # {function: how the contract under verification describes it to its callers}
        self.class_hooks = {}     # contracts of constructors, set by the contract under verification
        self.number_hooks = {}    # attributes of numbers that stand for a library's objects, set by the contract under verification
        self.bulk = {}
        self.mid_of = {}          # {name: (the array an iteration finds, the array before the loop)}
        self.pools = {}           # {name: whether elements were taken out strictly}
        self.generation = {}
        del V.LIVE[:]

    def check_deadline(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Unsupported("time budget of the symbolic execution exhausted")

    # ------------------------------------------------------------------ fresh symbols

    def params_in_scope(self, exprs):
        names = set()
        for e in exprs:
            names |= free_consts(e)
        return [b for b in self.binders if b.decl().name() in names]

    def fresh_const(self, sort, name="v"):
        return z3.Const(f"{name}!{next(self.counter)}", sort)

    def fresh_param(self, sort, name="v", params=None):
        """A fresh symbol, depending on every bound variable in scope."""
        params = self.binders if params is None else params
        k = next(self.counter)
        if not params:
            return z3.Const(f"{name}!{k}", sort)
        fn = z3.Function(f"{name}!{k}", *[p.sort() for p in params], sort)
        return fn(*params)

    def fresh(self, kind, name="v"):
        return self.build(kind, lambda suffix, sort: self.fresh_param(sort, name + suffix))

    # ------------------------------------------------------------------ kinds

    def cls_of(self, name):
        return self.schema.classes[name]

    def sort_of(self, kind):
        if kind in ("num",):
            return z3.RealSort()
        if kind == "int":
            return z3.IntSort()
        if kind == "bool":
            return z3.BoolSort()
        if kind == "str":
            return StrS
        if kind == "coords":
            return Coords
        if kind.startswith("ref"):
            return Ref
        raise Unsupported(f"kind {kind} has no single sort")

    def wrap(self, kind, e):
        """A symbolic value of an elementary kind from one z3 term."""
        if kind in ("num", "int"):
            return SNum(e)
        if kind == "bool":
            return SBool(e)
        if kind == "str":
            return SStr([("s", e)])
        if kind == "coords":
            return SCoords(e)
        if kind.startswith("ref?:"):
            return SRef(e, self.cls_of(kind[5:]), True)
        if kind.startswith("ref:"):
            return SRef(e, self.cls_of(kind[4:]), False)
        raise Unsupported(f"kind {kind}")

    def build(self, kind, mk):
        if kind.startswith("opt:"):
            return SOpt(mk("#none", z3.BoolSort()), self.build(kind[4:], mk))
        if kind.startswith("set:"):
            ek = kind[4:]
            arr = mk("#set", z3.ArraySort(self.sort_of(ek), z3.BoolSort()))
            self.note_age(arr)
            self.elem_fact(ek, lambda x: z3.Select(arr, x))
            return SSet(lambda x: z3.Select(arr, x), ek)
        if kind.startswith("list:") or kind.startswith("vec:"):
            ek = kind.split(":", 1)[1]
            ln = mk("#len", z3.IntSort())
            arr = mk("#el", z3.ArraySort(z3.IntSort(), self.sort_of(ek)))
            self.note_age(arr)
            self.fact(ln >= 0)
            if ek.startswith("ref:"):
                i = z3.Const(f"i!{next(self.counter)}", z3.IntSort())
                self.fact(forall_pat([i], z3.Implies(z3.And(0 <= i, i < ln), z3.Select(arr, i) != NULL), [z3.Select(arr, i)]))
            return SSeq(ln, lambda i: self.wrap(ek, z3.Select(arr, i)), "tuple" if kind.startswith("vec") else "list")
        if kind.startswith("tuple:("):
            parts = split_kinds(kind[7:-1])
            return tuple(self.build(p, lambda s, sort, k=k: mk(f"#{k}{s}", sort)) for k, p in enumerate(parts))
        if kind == "none":
            return None
        e = mk("", self.sort_of(kind))
        if kind.startswith("ref:"):
            self.fact(e != NULL)
        if kind.startswith("ref") and not self.binders and self.ctx.parent is None and z3.is_const(e):
            self.ages.append((e, self.births, False))
        return self.wrap(kind, e)

    def note_age(self, arr):
        if not self.binders and self.ctx.parent is None and z3.is_const(arr):
            self.ages.append((arr, self.births, False))

    def elem_fact(self, ek, mem):
        if ek.startswith("ref:"):
            x = z3.Const(f"x!{next(self.counter)}", Ref)
            m = mem(x)
            self.fact(forall_pat([x], z3.Implies(m, x != NULL), [m]))

    # ------------------------------------------------------------------ heap

    def field_owner(self, cls, field):
        for c in cls.__mro__:
            sch = self.schema.fields.get(c.__name__)
            if sch and field in sch:
                return c.__name__, sch[field]
        return None, None

    def heap_array(self, key, sort):
        if key not in self.heap:
            self.heap[key] = z3.Const("H0." + ".".join(key), z3.ArraySort(Ref, sort))
            self.ages.append((self.heap[key], 0, True))
        return self.heap[key]

    def read_field(self, obj, cls, field):
        owner, kind = self.field_owner(cls, field)
        if kind is None:
            raise Unsupported(f"field {cls.__name__}.{field} is not in the schema")
        if kind.startswith("const:"):
            return self.schema.consts[kind[6:]]
        if kind.startswith("make:"):
            return self.schema.consts[kind[5:]](self, obj)
        memo_key = ("field", owner, field, obj.e.get_id(), self.heap_version)
        hit = self.memo.get(memo_key)
        if hit is not None and hit[0].eq(obj.e):
            return hit[1]
        v = self.build(kind, lambda suffix, sort: z3.Select(self.heap_array((owner, field + suffix), sort), obj.e))
        if kind.startswith(("set:", "list:")):
            v.view = (obj.e, owner, field, kind, self.generation.get((owner, field), 0), self.heap_version)
        if not self.binders:
            self.memo[memo_key] = (obj.e, v)
        return v

    # ------------------------------------------------------------------ paths and facts

    def all_pc(self):
        out, c = [], self.ctx
        chain = []
        while c is not None:
            chain.append(c)
            c = c.parent
        for c in reversed(chain):
            out.extend(c.pc)
        return out

    def local_pc(self):
        out, c = [], self.ctx
        while c is not None and c.parent is not None:
            out = c.pc + out
            c = c.parent
        return out

    def fact(self, e):
        """Assume ``e`` (it is justified by the caller)."""
        if z3.is_true(e):
            return
        if self.ctx.parent is None and not self.binders:
            self.ctx.pc.append(e)
            return
        local = self.local_pc()
        body = z3.Implies(mk_and(local), e) if local else e
        bs = [b for b in self.binders if b.decl().name() in free_consts(body)]
        self.axioms.append(z3.ForAll(bs, body) if bs else body)

    def feasible(self, extra):
        n, ground = self.ground
        if n > len(self.axioms):
            n, ground = 0, []
        ground.extend(a for a in self.axioms[n:] if not has_quant(a))
        self.ground = (len(self.axioms), ground)
        s = z3.Solver()
        s.set("timeout", 400)
        s.add(*ground)
        s.add(*[p for p in self.all_pc() if not has_quant(p)])
        s.add(extra)
        self.solver_calls += 1
        return s.check() != z3.unsat

    def excluded(self, cond):
        """Whether everything known, quantified facts included, already rules ``cond`` out."""
        s = z3.Solver()
        s.set("timeout", 300)
        s.add(*self.axioms)
        s.add(*self.all_pc())
        s.add(cond)
        self.solver_calls += 1
        return s.check() == z3.unsat

    def branch(self, cond):
        """Decide a condition, forking the path when both outcomes are possible."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        for p in self.all_pc():
            if p.eq(cond):
                return True
            if z3.is_not(p) and p.arg(0).eq(cond):
                return False
            if z3.is_not(cond) and cond.arg(0).eq(p):
                return False
        self.check_deadline()
        ctx = self.ctx
        k = len(ctx.taken)
        if k < len(ctx.prefix):
            d = ctx.prefix[k]
        else:
            t, f = self.feasible(cond), self.feasible(mk_not(cond))
            if not t and not f:
                raise Infeasible()
            d = t
            if t and f:
                ctx.alts.append(list(ctx.taken) + [False])
        ctx.taken.append(d)
        ctx.pc.append(cond if d else mk_not(cond))
        return d

    def sub_explore(self, fn, binders=(), doms=(), limit=120, effects=False, poison=(), havoc=(), mids=None, given=None):
        """Execute ``fn`` on all its paths, below the current one; return [(path condition, kind, payload, effects)].

        Side effects are undone after each path; unless ``effects`` is set they are not supported.
        """
        from .loops import Poison

        outer = self.ctx
        heap0, version0 = self.heap, self.heap_version
        live = V.LIVE
        n_live = len(live)
        snap = [snapshot(o) for o in live]
        trace0 = list(self.trace)
        known0, memo0 = self.instantiated, self.memo
        start_heap = dict(heap0)
        for key in havoc:
            start_heap[key] = self.fresh_const(heap0[key].sort() if key in heap0 else self.heap_sort(key), "mid." + ".".join(key))
            mids[key] = start_heap[key]
            heap0.setdefault(key, z3.Const("H0." + ".".join(key), start_heap[key].sort()))
            self.mid_of[start_heap[key].decl().name()] = (start_heap[key], heap0[key])
        results = []
        work = [[]]
        nb = len(self.binders)
        self.binders.extend(binders)
        try:
            while work:
                prefix = work.pop()
                self.ctx = PathCtx(prefix, outer)
                self.ctx.pc.extend(doms)
                self.heap, self.heap_version = dict(start_heap), version0
                # facts stated on one path hold on that path only: they are stated again elsewhere
                self.instantiated, self.memo = set(known0), dict(memo0)
                if havoc:
                    self.heap_version += 1000003 + next(self.counter)
                for k in poison:
                    live[k].items = Poison(live[k].items)
                snap1 = snap
                if given:
                    snap1 = list(snap)
                    for k, items in given.items():
                        live[k].items = list(items)
                        snap1[k] = snapshot(live[k])
                try:
                    try:
                        kind, v = "ok", fn()
                    except PyRaise as e:
                        kind, v = "raise", e
                    except ReturnSignal as e:
                        kind, v = "return", e.value
                    except BreakSignal as e:
                        kind, v = "break", getattr(e, "payload", None)
                    except ContinueSignal as e:
                        kind, v = "ok", getattr(e, "payload", None)
                    eff = self.collect_effects(live, n_live, snap1, start_heap, effects, poison)
                    if len(self.trace) != len(trace0) and not effects:
                        raise Unsupported("an effect inside an expression")
                    if len(self.trace) != len(trace0):
                        raise Unsupported("an effect inside a loop")
                    # (what an obligation says holds in every iteration does not restrict which elements there are)
                    results.append(([x for k, x in enumerate(self.ctx.pc) if k >= len(doms) and k not in self.ctx.owed], kind, v, eff))
                except Infeasible:
                    pass
                finally:
                    for o, st in zip(live[:n_live], snap):
                        restore(o, st)
                    self.trace = list(trace0)
                work.extend(self.ctx.alts)
                if len(results) > limit:
                    raise Unsupported("too many paths in a loop body or comprehension")
        finally:
            del self.binders[nb:]
            self.ctx = outer
            self.instantiated, self.memo = known0, memo0
            self.heap, self.heap_version = heap0, version0
        return results

    def collect_effects(self, live, n, snap, start_heap, effects, poison):
        eff = Effects(self.heap)
        for k in range(n):
            o, st = live[k], snap[k]
            if isinstance(o, (LocalList, LocalSet)):
                if k in poison:
                    if o.items.added:
                        eff.deltas[k] = (o, list(o.items.added))
                    continue
                items = o.items if isinstance(o.items, list) else o.items.added
                if len(items) == len(st[0]) and all(a is b for a, b in zip(items, st[0])):
                    continue
                if not effects:
                    raise MutatesInside("a collection is changed inside an expression")
                if len(items) < len(st[0]) or not all(a is b for a, b in zip(items, st[0])):
                    raise Unsupported("a loop changes a collection other than by adding to it")
                eff.deltas[k] = (o, items[len(st[0]):])
            elif isinstance(o, EObj):
                new = o.attrs
                if len(new) != len(st) or any(new.get(a, Effects) is not st[a] for a in st):
                    if not self.benign_attrs(o, st, new):
                        raise Unsupported("an attribute is changed inside a loop or expression")
            elif isinstance(o, (LocalDict, W.OpenDict)):
                new = snapshot(o)
                if len(new) != len(st) or any(new.get(a, Effects) is not st[a] for a in st):
                    raise Unsupported("a dict is changed inside a loop or expression")
        for key, arr in self.heap.items():
            old = start_heap.get(key)
            if old is None:
                if z3.is_const(arr) and arr.decl().name() == "H0." + ".".join(key):
                    continue
                eff.written.add(key)
            elif not arr.eq(old):
                eff.written.add(key)
        if eff.written and not effects:
            raise MutatesInside("a field is changed inside an expression")
        return eff

    def benign_attrs(self, o, old, new):
        """Only cached-property values were added (reading them again gives the same value)."""
        for a in new:
            if a in old:
                if old[a] is not new[a]:
                    return False
                continue
            if not any(is_cached_property(c.__dict__.get(a)) for c in o.cls.__mro__):
                return False
        return len(new) >= len(old)

    def heap_sort(self, key):
        owner, name = key
        if name.startswith("#clean."):
            return z3.ArraySort(Ref, z3.BoolSort())
        field = name.split("#")[0]
        kind = self.schema.fields.get(owner, {}).get(field)
        if kind is None:
            raise Unsupported("bulk write to an unknown field")
        found = []
        self.build(kind, lambda suffix, sort: (found.append((suffix, sort)), z3.FreshConst(sort))[1])
        for suffix, sort in found:
            if field + suffix == name:
                return z3.ArraySort(Ref, sort)
        raise Unsupported("bulk write to an unknown field")

    def known(self, cond):
        """True when the condition follows from the quantifier-free facts of the path."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return not self.feasible(mk_not(cond))

    def choose_first(self, b):
        """The first element of a non-empty branch (an arbitrary one if the domain is unordered)."""
        ren = [(c, self.fresh_param(c.sort(), "first")) for c in b.consts]
        w = subst_branch(b, ren)
        self.ctx.pc.append(w.cond)
        if b.binders and all(x.ordered for x in b.binders):
            from .builtins_model import lex_before

            before = lex_before([c for c, _ in ren], [t for _, t in ren])
            self.fact(self.forall_branch(Branch(b.binders, z3.BoolVal(True), None), mk_not(mk_and([b.guard, before])))) \
                if not z3.is_true(b.guard) else self.fact(self.forall_branch(b, mk_not(before)))
        return w.value

    def effect(self, name, args, kwargs):
        if self.binders or self.ctx.parent is not None:
            raise Unsupported("an effect inside a loop or expression")
        self.trace.append((name, list(args), dict(kwargs)))

    def havoc_trace(self):
        if self.trace:
            raise Unsupported("a loop with an invariant after effects")

    def oblige(self, goal, name, node=None):
        """Emit a proof obligation for the current point."""
        if self.quiet or self.spec_mode:
            return
        goal = z3.simplify(goal) if not has_quant(goal) else goal
        where = ""
        if self.call_stack:
            fn, lineno = self.call_stack[-1]
            where = f"{fn}" + (f":{node.lineno}" if node is not None and hasattr(node, "lineno") else "")
        if z3.is_true(goal):
            ob = Obligation(name, where, [], goal, [])
            ob.status, ob.backend = "proved", "simplifier"
            self.obligations.append(ob)
            return
        # binders are free constants here: the obligation is proved for arbitrary values of them
        aging = bool(self.allocs) or not isinstance(self.births, int)      # (objects were or may have been created)
        ages = self.age_facts() if aging else []
        self.obligations.append(
            Obligation(name, where, list(self.axioms) + self.all_pc() + ages, goal, list(self.aggs))
        )

    def establish(self, goal, name):
        """An intermediate assertion: proved here, used afterwards."""
        self.oblige(goal, name)
        self.fact(goal)

    def raise_exc(self, exc, what="", node=None):
        if not isinstance(exc, type):
            exc = type(exc)
        raise PyRaise(exc, what)

    def require(self, cond, exc, what, node=None):
        """``cond`` must hold or the code raises ``exc`` at this point."""
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        if z3.is_true(z3.simplify(cond)):
            return
        if self.spec_mode or self.quiet:
            if self.branch(cond):
                return
            raise PyRaise(exc, what)
        if self.handled(exc):
            if self.branch(cond):
                return
            raise PyRaise(exc, what)
        self.oblige(cond, f"no {exc.__name__}: {what}", node)
        self.ctx.owed.add(len(self.ctx.pc))
        self.ctx.pc.append(cond)

    def handled(self, exc):
        for allowed in self.handler_stack:
            if any(issubclass(exc, h) for h in allowed):
                return True
        return False

    handler_stack = []

    # ------------------------------------------------------------------ merging

    def merge_values(self, items):
        """items: [(cond, value)] exhaustive and disjoint; one value."""
        if not items:
            raise Infeasible()
        v = items[-1][1]
        for c, x in reversed(items[:-1]):
            v = self.ite(c, x, v)
        return v

    def ite(self, c, a, b):
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        if a is b:
            return a
        if isinstance(a, (bool,)) and isinstance(b, (bool,)) and a == b:
            return a
        if is_boolish(a) and is_boolish(b):
            return SBool(mk_ite(c, self.zbool(a), self.zbool(b)))
        if is_num(a) and is_num(b):
            x, y = self.znum(a), self.znum(b)
            if z3.is_int(x) != z3.is_int(y):
                x, y = to_real(x), to_real(y)
            return SNum(mk_ite(c, x, y))
        if isinstance(a, SRef) and isinstance(b, SRef):
            cls = common_class(a.cls, b.cls)
            return SRef(mk_ite(c, a.e, b.e), cls, a.nullable or b.nullable)
        if a is None and isinstance(b, SRef):
            return SRef(mk_ite(c, NULL, b.e), b.cls, True)
        if b is None and isinstance(a, SRef):
            return SRef(mk_ite(c, a.e, NULL), a.cls, True)
        if a is None and b is None:
            return None
        if (a is None or isinstance(a, SOpt)) or (b is None or isinstance(b, SOpt)):
            an, av = self.opt_parts(a)
            bn, bv = self.opt_parts(b)
            if av is None:
                av = bv
            if bv is None:
                bv = av
            return SOpt(mk_ite(c, an, bn), self.ite(c, av, bv))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.ite(c, x, y) for x, y in zip(a, b))
        if is_str(a) and is_str(b):
            if isinstance(a, str) and isinstance(b, str) and a == b:
                return a
            return SStr([("s", mk_ite(c, self.zstr(a), self.zstr(b)))])
        if isinstance(a, SCoords) and isinstance(b, SCoords):
            return SCoords(mk_ite(c, a.e, b.e))
        if is_iterable_value(a) and is_iterable_value(b):
            x, y = self.plain_iter(a), self.plain_iter(b)
            nc = mk_not(c)
            kind = getattr(a, "kind", "iter")
            return SIter(
                [Branch(p.binders, mk_and([c, p.guard]), p.value) for p in x.branches]
                + [Branch(p.binders, mk_and([nc, p.guard]), p.value) for p in y.branches],
                kind,
            )
        if self.same_concrete(a, b):
            return a
        raise Unsupported(f"cannot merge {type(a).__name__} and {type(b).__name__}")

    @staticmethod
    def same_concrete(a, b):
        if isinstance(a, SV) or isinstance(b, SV):
            return False
        try:
            return type(a) is type(b) and a == b
        except Exception:
            return False

    def opt_parts(self, v):
        if v is None:
            return z3.BoolVal(True), None
        if isinstance(v, SOpt):
            return v.isnone, v.val
        return z3.BoolVal(False), v

    # ------------------------------------------------------------------ conversions

    def znum(self, v):
        if isinstance(v, SNum):
            return v.e
        if isinstance(v, SBool):
            return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, (bool, int, float)):
            return numval(v)
        if isinstance(v, SOpt):
            self.require(mk_not(v.isnone), TypeError, "None used as a number")
            return self.znum(v.val)
        raise Unsupported(f"number expected, got {describe(v)}")

    def zbool(self, v):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, SBool):
            return v.e
        raise Unsupported(f"boolean expected, got {describe(v)}")

    lit_codes = {}

    def zstr(self, v):
        if isinstance(v, str):
            v = SStr([v])
        parts = []
        for p in v.parts:
            if isinstance(p, str):
                code = self.lit_codes.setdefault(p, len(self.lit_codes))
                parts.append(z3.Function("lit", z3.IntSort(), StrS)(z3.IntVal(code)))
            elif p[0] == "s":
                parts.append(p[1])
            else:
                parts.append(self.fmt_term(p[1], p[2]))
        if not parts:
            code = self.lit_codes.setdefault("", len(self.lit_codes))
            return z3.Function("lit", z3.IntSort(), StrS)(z3.IntVal(code))
        t = parts[-1]
        cat = z3.Function("cat", StrS, StrS, StrS)
        for p in reversed(parts[:-1]):
            t = cat(p, t)
        return t

    def fmt_term(self, spec, v):
        """The text of a value under a format specification (uninterpreted)."""
        if isinstance(v, SOpt):
            none = self.zstr("None")
            return z3.If(v.isnone, none, self.fmt_term(spec, v.val))
        if isinstance(v, SNum):
            e = v.e
            if z3.is_int(e) and spec in ("", "d", ".0f"):
                # decimal digits: different integers have different texts
                f = z3.Function("digits", z3.IntSort(), StrS)
                if ("digits",) not in self.memo:
                    self.memo[("digits",)] = True
                    i = z3.Int("digits!i")
                    self.axioms.append(z3.ForAll([i], z3.Function("digits.value", StrS, z3.IntSort())(f(i)) == i, patterns=[f(i)]))
                return f(e)
            return z3.Function(f"fmt[{spec}]{'i' if z3.is_int(e) else 'r'}", e.sort(), StrS)(e)
        if isinstance(v, SBool):
            return z3.Function(f"fmt[{spec}]b", z3.BoolSort(), StrS)(v.e)
        if isinstance(v, SStr) or isinstance(v, str):
            t = self.zstr(v)
            return z3.Function(f"fmt[{spec}]s", StrS, StrS)(t)
        if isinstance(v, SRef):
            return z3.Function(f"fmt[{spec}]o", Ref, StrS)(v.e)
        if isinstance(v, SCoords):
            return z3.Function(f"fmt[{spec}]c", Coords, StrS)(v.e)
        if isinstance(v, tuple):
            t = self.zstr("(")
            cat = z3.Function("cat", StrS, StrS, StrS)
            for x in v:
                t = cat(t, self.fmt_term("", x))
            return t
        if isinstance(v, (SSeq, SIter, LocalList)):
            return self.aggregate("text-of-sequence", self.to_iter(v), StrS, extra=(spec,))
        if not isinstance(v, SV):
            return self.zstr(format(v, spec))
        raise Unsupported(f"text of {describe(v)}")

    def truth(self, v):
        """The truth value of a symbolic value as z3 Bool or Python bool."""
        if isinstance(v, SBool):
            return v.e
        if isinstance(v, SNum):
            return v.e != 0
        if isinstance(v, SRef):
            for c in v.cls.__mro__:
                if "__bool__" in c.__dict__ or "__len__" in c.__dict__:
                    raise Unsupported(f"truth value of {v.cls.__name__}")
            return v.e != NULL if v.nullable else True
        if isinstance(v, SOpt):
            t = self.truth(v.val)
            t = z3.BoolVal(t) if isinstance(t, bool) else t
            return mk_and([mk_not(v.isnone), t])
        if isinstance(v, SSeq):
            return v.length > 0
        if hasattr(v, "vc_truth"):
            return v.vc_truth(self)
        if isinstance(v, (LocalList, LocalSet)):
            v = self.deref(v)
            if not isinstance(v, (LocalList, LocalSet)):
                return self.truth(v)
            if not v.items:
                return False
            if any(t == "v" for t, _ in v.items):
                return True
            return mk_or([self.exists_branch(b, z3.BoolVal(True)) for _, b in v.items])
        if isinstance(v, SIter):
            if v.kind == "iter":
                return True
            return mk_or([self.exists_branch(b, z3.BoolVal(True)) for b in v.branches])
        if isinstance(v, SSet):
            x = self.bound_of(v.elem)
            return z3.Exists([x], v.mem(x))
        if isinstance(v, LocalDict):
            return bool(v.d)
        if isinstance(v, (EObj, BoundMethod, Closure, Builtin)):
            return True
        if isinstance(v, SStr):
            if any(isinstance(p, str) for p in v.parts):
                return True
            raise Unsupported("truth value of a text")
        if isinstance(v, SV):
            raise Unsupported(f"truth value of {describe(v)}")
        return bool(v)

    def deref(self, v):
        while isinstance(v, (LocalList, LocalSet, LocalDict)) and v.moved is not None:
            v = v.moved()
        if isinstance(v, (SSeq, SSet)) and v.view is not None and v.view[5] != self.heap_version:
            # the collection kept in a field: what it holds now
            ref, owner, field, kind, generation, _ = v.view
            if generation != self.generation.get((owner, field), 0):
                raise Unsupported("a collection is used after it was replaced in its field")
            return self.read_field(SRef(ref, self.cls_of(owner)), self.cls_of(owner), field)
        return v

    @staticmethod
    def detach(v):
        """A value of a past state."""
        if isinstance(v, SSeq) and v.view is not None:
            return SSeq(v.length, v.get, v.kind)
        if isinstance(v, SSet) and v.view is not None:
            return SSet(v.mem, v.elem)
        if isinstance(v, tuple):
            return tuple(Engine.detach(x) for x in v)
        return v

    def bound_of(self, elem_kind, name="x"):
        return z3.Const(f"{name}!{next(self.counter)}", self.sort_of(elem_kind))

    def exists_branch(self, b, extra):
        body = mk_and([b.cond, extra])
        return z3.Exists(b.consts, body) if b.consts else body

    def forall_branch(self, b, goal):
        c = b.cond
        body = goal if z3.is_true(c) else z3.Implies(c, goal)
        return z3.ForAll(b.consts, body) if b.consts else body

    # ------------------------------------------------------------------ iterables

    def plain_iter(self, v):
        """The elements where their order goes on to matter: not that of sorted texts, which only joining knows."""
        it = self.to_iter(v)
        if str(it.kind).startswith("sorted"):
            raise Unsupported("going on with sorted texts")
        return it

    def to_iter(self, v):
        v = self.deref(v)
        if isinstance(v, SIter):
            return v
        if isinstance(v, SSeq):
            i = z3.Const(f"i!{next(self.counter)}", z3.IntSort())
            if v.base is not None and not z3.is_true(z3.simplify(v.base[1] == 0)):
                get, lo = v.base
                hi = z3.simplify(lo + v.length)
                return SIter([Branch([Bnd(i, z3.And(i >= lo, i < hi), True, lo, hi)], z3.BoolVal(True), get(i))])
            b = Bnd(i, z3.And(i >= 0, i < v.length), True, z3.IntVal(0), v.length)
            return SIter([Branch([b], z3.BoolVal(True), v.get(i))])
        if isinstance(v, SSet):
            x = self.bound_of(v.elem)
            return SIter([Branch([Bnd(x, v.mem(x), False)], z3.BoolVal(True), self.wrap(v.elem, x))], "set")
        if isinstance(v, LocalList):
            kinds = [x.kind for t, x in v.items if isinstance(x, SortedBranch)]
            if kinds and len(v.items) > 1:
                raise Unsupported("more elements beside sorted texts")
            return SIter([Branch([], z3.BoolVal(True), x) if t == "v" else x for t, x in v.items], *kinds)
        if isinstance(v, LocalSet):
            if len(v.items) == 1 and v.items[0][0] == "b" and is_injective(v.items[0][1], self.allocs):
                return SIter([v.items[0][1]], "set")
            if not v.items:
                return SIter([], "set")
            kind = self.set_elem_kind(v)
            if kind is not None:
                return self.to_iter(SSet(lambda x: self.local_set_mem(v, x), kind))
            raise Unsupported("iteration over a set of computed values")
        if isinstance(v, (tuple, list)):
            return SIter([Branch([], z3.BoolVal(True), x) for x in v])
        if isinstance(v, range):
            return SIter([Branch([], z3.BoolVal(True), x) for x in v])
        if isinstance(v, (set, frozenset)) and not v:
            return SIter([])
        if isinstance(v, LocalDict):
            return SIter([Branch([], z3.BoolVal(True), x) for x in v.d])
        if hasattr(v, "vc_iter"):
            return v.vc_iter(self)
        if isinstance(v, SCoords):
            i = z3.Const(f"i!{next(self.counter)}", z3.IntSort())
            b = Bnd(i, z3.And(i >= 0, i < self.coords_len(v)), True, z3.IntVal(0), self.coords_len(v))
            return SIter([Branch([b], z3.BoolVal(True), self.coords_get(v, i))])
        if isinstance(v, SRef) or isinstance(v, EObj):
            f = self.find_method(v, "__iter__")
            if f is not None:
                r = self.call(f, [], {})
                if r is v:
                    raise Unsupported("iterator objects")
                return self.to_iter(r)
        raise Unsupported(f"iteration over {describe(v)}")

    def coords_len(self, v):
        f = z3.Function("coords.len", Coords, z3.IntSort())
        ln = f(v.e)
        self.fact(ln >= 0)
        return ln

    def coords_get(self, v, i):
        return SNum(z3.Function("coords.at", Coords, z3.IntSort(), z3.RealSort())(v.e, i))

    def to_seq(self, v):
        """A random-access view (length, getter) of an ordered iterable."""
        v = self.deref(v)
        if isinstance(v, SSeq):
            return v
        if isinstance(v, SCoords):
            return SSeq(self.coords_len(v), lambda i: self.coords_get(v, i), "tuple")
        if isinstance(v, (LocalList, tuple, list, range)):
            items = [x for _, x in v.items] if isinstance(v, LocalList) else list(v)
            if isinstance(v, LocalList) and any(t == "b" for t, _ in v.items):
                it = self.to_iter(v)
                return self.seq_of_iter(it)
            n = len(items)

            def get(i):
                i = z3.simplify(i)
                if z3.is_int_value(i):
                    k = i.as_long()
                    if 0 <= k < n:
                        return items[k]
                    raise Infeasible()
                if not items:
                    raise Infeasible()
                out = items[-1]
                for k in range(n - 2, -1, -1):
                    out = self.ite(i == k, items[k], out)
                return out

            return SSeq(z3.IntVal(n), get, "list")
        if isinstance(v, SIter):
            return self.seq_of_iter(v)
        raise Unsupported(f"indexing of {describe(v)}")

    def seq_of_iter(self, it):
        if not it.branches:
            return SSeq(z3.IntVal(0), lambda i: (_ for _ in ()).throw(Infeasible()), "list")
        pieces = []
        for b in it.branches:
            if not b.binders:
                g = z3.simplify(b.guard)
                if not z3.is_true(g):
                    pieces.append((z3.If(g, z3.IntVal(1), z3.IntVal(0)), lambda i, b=b: b.value))
                else:
                    pieces.append((z3.IntVal(1), lambda i, b=b: b.value))
            elif len(b.binders) == 1 and b.binders[0].lo is not None and z3.is_true(z3.simplify(b.guard)):
                bd = b.binders[0]
                ln = z3.If(bd.hi - bd.lo >= 0, bd.hi - bd.lo, z3.IntVal(0)) if not z3.is_int_value(bd.lo) or bd.lo.as_long() != 0 else bd.hi
                pieces.append((ln, lambda i, b=b, bd=bd: subst_value(b.value, [(bd.const, z3.simplify(i + bd.lo))])))
            elif len(b.binders) == 1 and b.binders[0].lo is not None and self.ctx.parent is None and not self.binders and not self.spec_mode:
                pieces.append(self.filtered(b))
            else:
                raise Unsupported("indexing of a filtered sequence")
        if len(pieces) == 1:
            return SSeq(pieces[0][0], pieces[0][1], "list")
        total = z3.IntVal(0)
        offs = []
        for ln, _ in pieces:
            offs.append(total)
            total = z3.simplify(total + ln)

        def get(i):
            out = None
            for (ln, g), off in reversed(list(zip(pieces, offs))):
                try:
                    val = g(z3.simplify(i - off))
                except Infeasible:
                    continue
                out = val if out is None else self.ite(z3.simplify(i < off + ln), val, out)
            return out

        return SSeq(total, get, "list")

    def filtered(self, b):
        """Length and getter of a filtered sequence: the indices kept, in order."""
        bd, k = b.binders[0], next(self.counter)
        n = self.fresh_const(z3.IntSort(), "kept")
        at = z3.Function(f"kept!{k}", z3.IntSort(), z3.IntSort())
        of = z3.Function(f"kept.as!{k}", z3.IntSort(), z3.IntSort())
        i, j = z3.Ints(f"i!{k} j!{k}")
        keeps = lambda x: z3.And(bd.lo <= x, x < bd.hi, z3.substitute(b.guard, (bd.const, x)))
        self.fact(n >= 0)
        self.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(keeps(at(i)), of(at(i)) == i)), patterns=[at(i)]))
        self.fact(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), at(i) < at(j)), patterns=[z3.MultiPattern(at(i), at(j))]))
        self.fact(z3.ForAll([i], z3.Implies(keeps(i), z3.And(0 <= of(i), of(i) < n, at(of(i)) == i)), patterns=[of(i)]))
        return n, lambda x: subst_value(b.value, [(bd.const, at(x))])

    def set_elem_kind(self, v):
        kinds = set()
        for t, x in v.items:
            val = x if t == "v" else x.value
            if isinstance(val, SRef):
                kinds.add(("ref:", val.cls))
            else:
                return None
        if not kinds:
            return None
        cls = functools.reduce(common_class, [c for _, c in kinds])
        self.schema.classes.setdefault(cls.__name__, cls)
        return "ref:" + cls.__name__

    def local_set_mem(self, v, x):
        out = []
        for t, y in v.items:
            if t == "v":
                out.append(self.raw(y) == x)
            else:
                out.append(self.exists_branch(y, self.raw(y.value) == x))
        return mk_or(out)

    def raw(self, v):
        """The single z3 term of an elementary value."""
        if isinstance(v, (SNum, SBool, SRef, SCoords)):
            return v.e
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, (int, float)):
            return numval(v)
        if is_str(v):
            return self.zstr(v)
        if v is None:
            return NULL
        raise Unsupported(f"no single term for {describe(v)}")

    def contains(self, container, x):
        container = self.deref(container)
        if hasattr(container, "vc_contains"):
            return container.vc_contains(self, x)
        if isinstance(container, SSet):
            if x is None:
                return z3.BoolVal(False)
            if self.custom_eq(x):
                c = self.bound_of(container.elem)
                y = self.wrap(container.elem, c)
                b = Branch([Bnd(c, container.mem(c), False)], z3.BoolVal(True), y)
                return self.exists_branch(b, self.in_scope(b, lambda: mk_or([c == self.raw(x), self.eq(y, x)])))
            return container.mem(self.raw(x))
        if isinstance(container, LocalDict):
            if isinstance(x, SV):
                raise Unsupported("symbolic dict key")
            return z3.BoolVal(x in container.d)
        if isinstance(container, LocalSet) and all(t == "v" for t, _ in container.items):
            return mk_or([self.eq(y, x) for _, y in container.items])
        if isinstance(container, (SIter, SSeq, LocalList, LocalSet, tuple, list, SCoords)):
            it = self.to_iter(container) if not isinstance(container, LocalSet) else SIter(
                [Branch([], z3.BoolVal(True), y) if t == "v" else y for t, y in container.items]
            )
            out = []
            for b in it.branches:
                out.append(self.exists_branch(b, self.in_scope(b, lambda: self.eq(b.value, x))))
            return mk_or(out)
        if not isinstance(container, SV) and not isinstance(x, SV):
            return z3.BoolVal(x in container)
        if isinstance(container, SStr) or isinstance(container, str):
            raise Unsupported("substring test")
        raise Unsupported(f"membership in {describe(container)}")

    def in_scope(self, b, fn):
        """Run ``fn`` (which evaluates to one merged value) with the binders of ``b`` in scope."""
        if not b.binders and z3.is_true(b.guard):
            return fn()
        res = self.sub_explore(fn, b.consts, [b.cond])
        out = []
        for pc, k, v, _ in res:
            if k == "raise":
                raise Unsupported(f"exception while evaluating a comprehension: {v}")
            out.append((mk_and(pc), v))
        vals = [v for _, v in out]
        if all(isinstance(v, z3.ExprRef) for v in vals):
            r = vals[-1]
            for c, v in reversed(out[:-1]):
                r = mk_ite(c, v, r)
            return r
        return self.merge_values(out)

    def custom_eq(self, v):
        if isinstance(v, SRef):
            for c in v.cls.__mro__:
                if c is object:
                    return None
                if "__eq__" in c.__dict__:
                    return c.__dict__["__eq__"]
        return None

    def eq(self, a, b):
        a, b = self.deref(a), self.deref(b)
        if a is b and not isinstance(a, (SIter,)):
            return z3.BoolVal(True)
        if a is None or b is None:
            o = b if a is None else a
            if isinstance(o, SRef):
                return o.e == NULL if o.nullable else z3.BoolVal(False)
            if isinstance(o, SOpt):
                return o.isnone
            return z3.BoolVal(o is None)
        if isinstance(a, SOpt) or isinstance(b, SOpt):
            an, av = self.opt_parts(a)
            bn, bv = self.opt_parts(b)
            return mk_or([mk_and([an, bn]), mk_and([mk_not(an), mk_not(bn), self.eq(av, bv)])])
        if is_boolish(a) and is_boolish(b):
            return self.zbool(a) == self.zbool(b)
        if is_num(a) and is_num(b):
            x, y = self.znum(a), self.znum(b)
            if z3.is_int(x) != z3.is_int(y):
                x, y = to_real(x), to_real(y)
            return x == y
        if isinstance(a, SRef) and isinstance(b, SRef):
            f = self.custom_eq(a)
            if f is not None:
                r = self.call(BoundMethod(f, a), [b], {})
                t = self.truth(r)
                return z3.BoolVal(t) if isinstance(t, bool) else t
            return a.e == b.e
        if isinstance(a, (EObj,)) or isinstance(b, (EObj,)):
            return z3.BoolVal(a is b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return z3.BoolVal(False)
            return mk_and([self.eq(x, y) for x, y in zip(a, b)])
        if is_str(a) and is_str(b):
            if isinstance(a, str) and isinstance(b, str):
                return z3.BoolVal(a == b)
            return self.str_eq(a, b)
        if isinstance(a, SCoords) and isinstance(b, SCoords):
            return a.e == b.e
        if is_set_value(a) and is_set_value(b):
            return self.set_eq(a, b)
        if is_seq_value(a) and is_seq_value(b):
            return self.seq_eq(a, b)
        if isinstance(a, LocalDict) and isinstance(b, LocalDict):
            if list(a.d) != list(b.d):
                return z3.BoolVal(False)
            return mk_and([self.eq(a.d[k], b.d[k]) for k in a.d])
        if not isinstance(a, SV) and not isinstance(b, SV):
            try:
                return z3.BoolVal(bool(a == b))
            except Exception:
                raise Unsupported("comparison of opaque objects")
        kinds = (category(a), category(b))
        if kinds[0] != kinds[1]:
            return z3.BoolVal(False)
        raise Unsupported(f"equality of {describe(a)} and {describe(b)}")

    def str_eq(self, a, b):
        pa, pb = as_parts(a), as_parts(b)
        if len(pa) == len(pb) and all(isinstance(x, str) == isinstance(y, str) for x, y in zip(pa, pb)):
            conds = []
            for x, y in zip(pa, pb):
                if isinstance(x, str):
                    if x != y:
                        conds = None
                        break
                elif x[0] == "f" and y[0] == "f" and x[1] == y[1]:
                    try:
                        conds.append(self.eq(x[2], y[2]))
                    except Unsupported:
                        conds.append(self.zstr(SStr([x])) == self.zstr(SStr([y])))
                else:
                    conds.append(self.zstr(SStr([x])) == self.zstr(SStr([y])))
            if conds is not None:
                return mk_and(conds)
        return self.zstr(a) == self.zstr(b)

    def as_set(self, v):
        v = self.deref(v)
        if isinstance(v, SSet):
            return v
        if hasattr(v, "vc_set"):
            return v.vc_set(self)
        if isinstance(v, LocalSet):
            kind = self.set_elem_kind(v)
            if kind is None:
                vals = [x if t == "v" else x.value for t, x in v.items]
                if vals and all(is_str(x) for x in vals):
                    kind = "str"
                elif vals and all(is_num(x) for x in vals):
                    kind = "num"
                elif not vals:
                    return None
                else:
                    raise Unsupported("set of structured values")
            return SSet(lambda x: self.local_set_mem(v, x), kind)
        if isinstance(v, (set, frozenset)) and not v:
            return None
        if isinstance(v, SIter) and v.kind == "set":
            return self.as_set(LocalSet([("b", b) for b in v.branches]))
        raise Unsupported(f"set expected, got {describe(v)}")

    def set_eq(self, a, b):
        x, y = self.as_set(a), self.as_set(b)
        if x is None and y is None:
            return z3.BoolVal(True)
        if x is None or y is None:
            o = y if x is None else x
            e = self.bound_of(o.elem)
            return z3.ForAll([e], mk_not(o.mem(e)))
        e = self.bound_of(x.elem)
        return z3.ForAll([e], x.mem(e) == y.mem(e))

    def seq_eq(self, a, b):
        """Equality of sequences (lists and tuples alike): same length, same elements in order."""
        try:
            x, y = self.to_seq(a), self.to_seq(b)
        except Unsupported:
            x = y = None
        if x is not None:
            if z3.is_int_value(z3.simplify(x.length)) and z3.is_int_value(z3.simplify(y.length)):
                n, m = z3.simplify(x.length).as_long(), z3.simplify(y.length).as_long()
                if n != m:
                    return z3.BoolVal(False)
                return mk_and([self.eq(x.get(z3.IntVal(k)), y.get(z3.IntVal(k))) for k in range(n)])
            i = z3.Const(f"i!{next(self.counter)}", z3.IntSort())
            dom = z3.And(i >= 0, i < x.length)
            br = Branch([Bnd(i, dom, True, z3.IntVal(0), x.length)], z3.BoolVal(True), None)
            body = self.in_scope(br, lambda: self.eq(x.get(i), y.get(i)))
            return z3.And(x.length == y.length, z3.ForAll([i], z3.Implies(dom, body)))
        ta = self.aggregate("sequence", self.to_iter(a), Ref)
        tb = self.aggregate("sequence", self.to_iter(b), Ref)
        return ta == tb

    # ------------------------------------------------------------------ aggregates

    def nf_key(self, branches):
        """A canonical key of branches up to renaming of their binders."""
        out = []
        for b in branches:
            pairs = [(c, z3.Const(f"@{k}", c.sort())) for k, c in enumerate(b.consts)]
            cond = z3.simplify(z3.substitute(b.cond, *pairs)) if pairs else z3.simplify(b.cond)
            val = self.value_terms(b.value)
            val = [z3.simplify(z3.substitute(t, *pairs)) if pairs else z3.simplify(t) for t in val]
            out.append((tuple(str(c.sort()) for c in b.consts), cond.sexpr(), tuple(t.sexpr() for t in val)))
        return tuple(out)

    def value_terms(self, v):
        """All z3 terms that make up a value (its shape is part of the kind)."""
        if v is None:
            return []
        if isinstance(v, z3.ExprRef):
            return [v]
        if isinstance(v, tuple):
            return [t for x in v for t in self.value_terms(x)]
        if isinstance(v, SOpt):
            return [v.isnone] + self.value_terms(v.val)
        if isinstance(v, (SSeq, SIter, LocalList)):
            return [self.aggregate("sequence", self.to_iter(v), Ref)]
        if not isinstance(v, SV) and not isinstance(v, (str, bool, int, float)):
            return [self.zstr(f"<{v!r}>")]
        return [self.raw(v)]

    def aggregate(self, kind, it, sort, extra=()):
        """A definitional symbol for ``kind`` of the elements of ``it``; congruence is added when proving."""
        branches = []
        for b in it.branches:
            c = z3.simplify(b.cond) if not b.binders else None
            if c is not None and z3.is_false(c):
                continue
            branches.append(Branch(b.binders, b.guard, tuple(self.value_terms(b.value))))
        exprs = []
        for b in branches:
            exprs.append(b.cond)
            exprs.extend(b.value)
        params = self.params_in_scope(exprs)
        if params:
            params = by_appearance(params, exprs)
        # (the same collection met again with other loop variables is the same function of them)
        ren = [(q, z3.Const(f"@p{k}", q.sort())) for k, q in enumerate(params)]
        like = [Branch([Bnd(x.const, z3.substitute(x.dom, *ren), x.ordered) for x in b.binders], z3.substitute(b.guard, *ren),
                       tuple(z3.substitute(t, *ren) for t in b.value)) for b in branches] if ren else branches
        if str(it.kind).startswith("sorted") and kind in ("sequence", "text-of-sequence", "coords"):
            extra = (*extra, it.kind)
        key = (kind, extra, str(sort), self.nf_key(like))
        hit = self.agg_index.get(key)
        if hit is not None:
            return hit.fn(*params)
        fn = z3.Function(f"{kind}!{next(self.counter)}", *[p.sort() for p in params], sort)
        app = fn(*params)
        agg = Agg(kind, branches, params, fn, app, extra)
        self.aggs.append(agg)
        self.agg_index[key] = agg
        return app

    def flatten_sum(self, b):
        """Fubini: a sum whose term is itself a sum symbol becomes one sum over both binders."""
        v = b.value[0] if isinstance(b.value, tuple) else self.znum(b.value)
        for agg in self.aggs:
            if agg.kind != "sum" or agg.fn.name() != v.decl().name() if z3.is_app(v) else True:
                continue
            pairs = list(zip(agg.params, v.children()))
            inner = agg.branches[0]
            ren = [(c, z3.Const(f"y!{next(self.counter)}", c.sort())) for c in inner.consts]
            binders = []
            for bd in inner.binders:
                const = dict((a.get_id(), n) for a, n in ren)[bd.const.get_id()]
                dom = z3.substitute(bd.dom, *(pairs + ren))
                binders.append(Bnd(const, dom, bd.ordered))
            guard = z3.substitute(inner.guard, *(pairs + ren))
            val = z3.substitute(inner.value[0], *(pairs + ren))
            return Branch(list(b.binders) + binders, mk_and([b.guard, guard]), SNum(val))
        return b

    def sum_of(self, it, start=None):
        total = None
        for b in it.branches:
            v = self.znum(b.value)
            g = z3.simplify(b.cond) if not b.binders else None
            if g is not None:
                if z3.is_true(g):
                    term = v
                elif z3.is_false(g):
                    continue
                else:
                    zero = z3.IntVal(0) if z3.is_int(v) else z3.RealVal(0)
                    term = z3.If(g, v, zero)
            else:
                term = self.sum_branch(Branch(b.binders, b.guard, SNum(v)))
            total = term if total is None else self.add_terms(total, term)
        if start is not None:
            s = self.znum(start)
            total = s if total is None else self.add_terms(s, total)
        if total is None:
            total = z3.IntVal(0)
        return SNum(total)

    @staticmethod
    def add_terms(a, b):
        if z3.is_int(a) != z3.is_int(b):
            a, b = to_real(a), to_real(b)
        return a + b

    def sum_branch(self, b, top=True):
        total = self.sum_branch0(b)
        v = z3.simplify(self.znum(b.value))
        if top and z3.is_app(v) and (z3.is_add(v) or v.decl().kind() == z3.Z3_OP_ITE) and not self.binders:
            # the undivided sum as well: its sign and its equality with other sums may only be visible as a whole
            sort = z3.IntSort() if z3.is_int(v) else z3.RealSort()
            whole = self.aggregate("sum", SIter([Branch(b.binders, b.guard, SNum(v))]), sort)
            if ("whole", whole.get_id()) not in self.instantiated:
                self.instantiated.add(("whole", whole.get_id()))
                self.fact(whole == total)
        return total

    def sum_branch0(self, b):
        for _ in range(4):
            nb = self.flatten_sum(b)
            if nb is b:
                break
            b = nb
        v = z3.simplify(self.znum(b.value))
        sort = z3.IntSort() if z3.is_int(v) else z3.RealSort()
        # linear decomposition: sum of (u + w) = sum u + sum w, constants factored out
        if z3.is_add(v):
            total = None
            for t in v.children():
                s = self.sum_branch(Branch(b.binders, b.guard, SNum(t)), False)
                total = s if total is None else total + s
            return total
        if z3.is_mul(v) and v.num_args() == 2 and (z3.is_rational_value(v.arg(0)) or z3.is_int_value(v.arg(0))):
            return v.arg(0) * self.sum_branch(Branch(b.binders, b.guard, SNum(v.arg(1))), False)
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
            c, x, y = v.children()
            common, xs, ys = common_addends(x, y)
            total = None
            parts = [(b.guard, t) for t in common]
            if xs or ys:
                parts.append((mk_and([b.guard, c]), sum_terms(xs, sort)))
                parts.append((mk_and([b.guard, mk_not(c)]), sum_terms(ys, sort)))
            for g, t in parts:
                if is_zero(t):
                    continue
                x1 = self.sum_branch(Branch(b.binders, g, SNum(t)), False)
                total = x1 if total is None else self.add_terms(total, x1)
            if total is None:
                return z3.RealVal(0) if sort == z3.RealSort() else z3.IntVal(0)
            return total
        is_const = z3.is_rational_value(v) or z3.is_int_value(v)
        if is_const and not (v.as_fraction() if z3.is_rational_value(v) else v.as_long()) == 1:
            k = v.as_fraction() if z3.is_rational_value(v) else v.as_long()
            if k == 0:
                return z3.RealVal(0) if sort == z3.RealSort() else z3.IntVal(0)
            one = self.sum_branch(Branch(b.binders, b.guard, SNum(z3.IntVal(1))))
            return v * to_real(one) if sort == z3.RealSort() else v * one
        if is_const and sort == z3.RealSort():
            return to_real(self.sum_branch(Branch(b.binders, b.guard, SNum(z3.IntVal(1)))))
        if z3.is_to_real(v):
            return z3.ToReal(self.sum_branch(Branch(b.binders, b.guard, SNum(v.arg(0)))))
        app = self.aggregate("sum", SIter([Branch(b.binders, b.guard, SNum(v))]), sort)
        if is_const:
            if ("cnt", app.get_id()) not in self.instantiated:
                self.instantiated.add(("cnt", app.get_id()))
                self.fact(app >= 0)
                ex = self.exists_branch(b, z3.BoolVal(True))
                self.fact((app > 0) == ex)
                if len(b.binders) == 1 and b.binders[0].lo is not None:
                    bd = b.binders[0]
                    size = z3.If(bd.hi > bd.lo, bd.hi - bd.lo, z3.IntVal(0))
                    if z3.is_true(z3.simplify(b.guard)):
                        self.fact(app == size)
                    else:
                        self.fact(app <= size)
                        self.fact(z3.Implies(self.forall_branch(Branch(b.binders, z3.BoolVal(True), None), b.guard), app == size))
        return app

    def length(self, v):
        v = self.deref(v)
        if hasattr(v, "vc_set"):
            v = v.vc_set(self)
        if isinstance(v, SSeq):
            return SNum(v.length)
        if isinstance(v, (tuple, list, str, dict, set, frozenset, range)):
            return len(v)
        if isinstance(v, LocalDict):
            return len(v.d)
        if isinstance(v, LocalList) and all(t == "v" for t, _ in v.items):
            return len(v.items)
        if isinstance(v, SCoords):
            return SNum(self.coords_len(v))
        if isinstance(v, LocalSet):
            if not v.items:
                return 0
            if len(v.items) == 1 and v.items[0][0] == "b" and is_injective(v.items[0][1], self.allocs):
                v = SIter([v.items[0][1]], "set")
            else:
                v = self.as_set(v)
        if isinstance(v, (SIter, LocalList, SSet)):
            it = self.to_iter(v)
            if len(it.branches) == 1 and len(it.branches[0].binders) == 1 and z3.is_true(it.branches[0].guard):
                b = it.branches[0].binders[0]
                if b.lo is not None and b.hi is not None:
                    return SNum(z3.simplify(z3.If(b.hi > b.lo, b.hi - b.lo, z3.IntVal(0))))
            r = self.sum_of(SIter([Branch(b.binders, b.guard, 1) for b in it.branches]))
            return r
        raise Unsupported(f"len of {describe(v)}")

    def extremum(self, it, is_max, default, has_default, key=None, node=None):
        """max/min of numbers: a definitional symbol with its characterisation."""
        vals = [self.znum(b.value) for b in it.branches]
        if all(not b.binders and z3.is_true(z3.simplify(b.guard)) for b in it.branches) and vals:
            out = vals[0]
            for v in vals[1:]:
                if z3.is_int(out) != z3.is_int(v):
                    out, v = to_real(out), to_real(v)
                out = z3.If(v > out, v, out) if is_max else z3.If(v < out, v, out)
            return SNum(out)
        empty = mk_and([mk_not(self.exists_branch(b, z3.BoolVal(True))) for b in it.branches])
        if not has_default:
            self.require(mk_not(empty), ValueError, "max/min of an empty sequence", node)
            d = None
        else:
            if default is None:
                raise Unsupported("max/min of numbers with default None")
            d = self.znum(default)
        terms = vals + ([d] if d is not None else [])
        if any(not z3.is_int(t) for t in terms):
            vals = [to_real(t) for t in vals]
            d = None if d is None else to_real(d)
            sort = z3.RealSort()
        else:
            sort = z3.IntSort()
        br = [Branch(b.binders, b.guard, SNum(t)) for b, t in zip(it.branches, vals)]
        name = "max" if is_max else "min"
        dkey = "-" if d is None else z3.simplify(d).sexpr()
        app = self.aggregate(name, SIter(br), sort, extra=(dkey,))
        if ("ext", app.get_id()) not in self.instantiated:
            self.instantiated.add(("ext", app.get_id()))
            for b, t in zip(br, vals):
                self.fact(self.forall_branch(b, t <= app if is_max else t >= app))
            reach = [self.exists_branch(b, t == app) for b, t in zip(br, vals)]
            if d is not None:
                reach.append(mk_and([empty, app == d]))
            self.fact(mk_or(reach))
        return SNum(app)

    # ------------------------------------------------------------------ attributes

    def type_of(self, v):
        if isinstance(v, (SRef, EObj)):
            return v.cls
        return type(v)

    def find_method(self, obj, name):
        cls = self.type_of(obj)
        for c in cls.__mro__:
            if name in c.__dict__:
                f = c.__dict__[name]
                if isinstance(f, types.FunctionType):
                    return BoundMethod(f, obj, c)
                if isinstance(f, W.Member):
                    return W.bound_member(self, f, obj)
                return None
        return None

    def getattr(self, obj, name, node=None):
        obj = self.deref(obj)
        if isinstance(obj, SOpt):
            self.require(mk_not(obj.isnone), AttributeError, f"None has no attribute {name!r}", node)
            obj = obj.val
        if isinstance(obj, SRef):
            if obj.nullable:
                self.require(obj.e != NULL, AttributeError, f"None has no attribute {name!r}", node)
                obj = SRef(obj.e, obj.cls, False)
            return self.attr_of_object(obj, name, node)
        if isinstance(obj, EObj):
            return self.attr_of_object(obj, name, node)
        if isinstance(obj, SuperProxy):
            mro = self.type_of(obj.obj).__mro__
            k = mro.index(obj.cls)
            for c in mro[k + 1:]:
                if name in c.__dict__:
                    return self.bind_attr(c.__dict__[name], obj.obj, c, name, node)
            raise Unsupported(f"super().{name}")
        if hasattr(obj, "vc_getattr"):
            return obj.vc_getattr(self, name, node)
        if isinstance(obj, SNum) and name in self.number_hooks:
            return self.number_hooks[name](self, obj)
        m = self.builtins.container_method(self, obj, name)
        if m is not None:
            return m
        if isinstance(obj, SV):
            raise Unsupported(f"attribute {name!r} of {describe(obj)}")
        if obj is None:
            self.require(z3.BoolVal(False), AttributeError, f"None has no attribute {name!r}", node)
            raise Infeasible()
        # native objects: modules, classes, enum members, concrete instances
        cls = type(obj)
        if not isinstance(obj, (type, types.ModuleType)) and self.is_repo_class(cls):
            for c in cls.__mro__:
                if name in c.__dict__ and self.is_repo_class(c):
                    return self.bind_attr(c.__dict__[name], obj, c, name, node)
        try:
            return getattr(obj, name)
        except AttributeError:
            self.require(z3.BoolVal(False), AttributeError, f"{obj!r} has no attribute {name!r}", node)
            raise Infeasible()

    def attr_of_object(self, obj, name, node):
        cls = obj.cls
        if isinstance(obj, EObj) and name in obj.attrs:
            # instance attributes win over non-data descriptors
            for c in cls.__mro__:
                if name in c.__dict__:
                    if isinstance(c.__dict__[name], property):
                        break
                    return obj.attrs[name]
            else:
                return obj.attrs[name]
        if name == "__class__":
            return cls
        if name == "__dict__":
            return self.dict_view(obj)
        for c in cls.__mro__:
            if name in c.__dict__:
                a = c.__dict__[name]
                if isinstance(a, types.MemberDescriptorType):
                    break
                return self.bind_attr(a, obj, c, name, node)
        if isinstance(obj, EObj):
            if not obj.made:
                raise Unsupported(f"attribute {name!r} of {cls.__name__} is not described by the contract")
            self.require(z3.BoolVal(False), AttributeError, f"{cls.__name__} has no attribute {name!r}", node)
            raise Infeasible()
        return self.read_field(obj, cls, name)

    # Cached values.  A cached property is read as the value it would be computed to now.  That the stored value is that value
    # is the class invariant behind C06; functions that edit routes are verified to keep it (``track_caches``): after a write
    # to a model field every stored value counts as outdated until it is dropped ("clean").

    def cached_names(self, cls):
        return sorted({n for c in cls.__mro__ for n, a in c.__dict__.items() if is_cached_property(a)})

    def clean_key(self, cls, name):
        for c in cls.__mro__:
            if is_cached_property(c.__dict__.get(name)):
                return (c.__name__, "#clean." + name)
        return None

    def track_caches(self):
        self.tracking, self.coherent = True, True
        self.reset_clean()

    def reset_clean(self):
        for n in self.schema.tracked:
            cls = self.schema.classes[n]
            for a in self.cached_names(cls):
                self.heap[self.clean_key(cls, a)] = z3.K(Ref, z3.BoolVal(False))

    def is_clean(self, obj, cls, name):
        return z3.Select(self.heap[self.clean_key(cls, name)], obj)

    def dict_view(self, obj):
        from .builtins_model import DictView

        if isinstance(obj, EObj) or obj.cls.__name__ not in self.schema.tracked:
            raise Unsupported("__dict__")
        return DictView(obj)

    def drop_cached(self, obj, name):
        key = self.clean_key(obj.cls, name)
        if self.tracking and key is not None:
            self.heap[key] = z3.Store(self.heap[key], obj.e, z3.BoolVal(True))

    def outdate(self):
        """A model field was written: what is stored may be outdated now."""
        if self.tracking and not self.spec_mode:
            if self.binders or self.ctx.parent is not None:
                raise Unsupported("a model field is written inside a loop")
            self.coherent = False
            self.reset_clean()

    def cached_read(self):
        """A stored value may be read, and values computed from it stored, while others are outdated."""
        if self.tracking and not self.spec_mode and not self.coherent:
            if self.binders or self.ctx.parent is not None:
                raise Unsupported("cached values are read inside a loop while some are outdated")
            self.reset_clean()

    def bind_attr(self, a, obj, owner, name, node=None):
        if isinstance(a, property):
            return self.call(BoundMethod(a.fget, obj, owner), [], {}, node)
        if is_cached_property(a):
            if isinstance(obj, EObj) and name in obj.attrs:
                return obj.attrs[name]
            if isinstance(obj, SRef) and obj.cls.__name__ in self.schema.tracked:
                self.cached_read()
            r = self.call(BoundMethod(a.func, obj, owner), [], {}, node)
            if isinstance(obj, EObj):
                obj.attrs[name] = r
            return r
        if isinstance(a, staticmethod):
            return a.__func__
        if isinstance(a, classmethod):
            return BoundMethod(a.__func__, self.type_of(obj), owner)
        if isinstance(a, types.FunctionType):
            return BoundMethod(a, obj, owner)
        if isinstance(a, W.Member):
            return W.bound_member(self, a, obj, node)
        return a

    @staticmethod
    def make_frame(name, parent, binding, cls_cell, first):
        return Frame(name, parent.globals, binding, parent=parent, cls_cell=cls_cell, first=first)

    @staticmethod
    def is_repo_class(cls):
        return getattr(cls, "__module__", "").split(".")[0] in ("jinete", "contracts")

    def setattr(self, obj, name, value, node=None):
        obj = self.deref(obj)
        if isinstance(obj, SRef):
            for c in obj.cls.__mro__:
                a = c.__dict__.get(name)
                if isinstance(a, types.MemberDescriptorType):
                    break
                if isinstance(a, property):
                    if a.fset is None:
                        raise Unsupported(f"assignment to property {name}")
                    self.call(BoundMethod(a.fset, obj, c), [value], {}, node)
                    return
            if obj.nullable:
                self.require(obj.e != NULL, AttributeError, f"None has no attribute {name!r}", node)
            if isinstance(value, (SSeq, SSet)):
                if value.view is not None:
                    raise Unsupported("one collection in two fields")
            owner, kind = self.field_owner(obj.cls, name)
            if kind is not None and kind.startswith(("set:", "list:")):
                self.generation[(owner, name)] = self.generation.get((owner, name), 0) + 1
            self.write_field(obj, name, value)
            return
        if isinstance(obj, EObj):
            for c in obj.cls.__mro__:
                a = c.__dict__.get(name)
                if isinstance(a, types.MemberDescriptorType):
                    break
                if isinstance(a, property):
                    if a.fset is None:
                        raise Unsupported(f"assignment to property {name}")
                    self.call(BoundMethod(a.fset, obj, c), [value], {}, node)
                    return
            if self.binders or self.ctx.parent is not None:
                raise Unsupported("attribute assignment inside a loop or comprehension")
            obj.attrs[name] = value
            return
        raise Unsupported(f"assignment to attribute of {describe(obj)}")

    def write_field(self, obj, name, value):
        owner, kind = self.field_owner(obj.cls, name)
        if kind is None:
            raise Unsupported(f"field {obj.cls.__name__}.{name} is not in the schema")
        if owner in self.schema.tracked:
            self.outdate()
        for suffix, sort, term in self.decompose(kind, value):
            arr = self.heap_array((owner, name + suffix), sort)
            self.heap[(owner, name + suffix)] = z3.Store(arr, obj.e, term)
        self.heap_version += 1000003 + next(self.counter)
        if isinstance(value, (LocalList, LocalSet)):
            value.moved = lambda: self.read_field(obj, obj.cls, name)

    def decompose(self, kind, v):
        """[(suffix, sort, term)] of a value stored under a kind."""
        v = self.deref(v)
        if kind.startswith("opt:"):
            n, val = self.opt_parts(v)
            out = [("#none", z3.BoolSort(), n)]
            for s, sort, t in self.decompose(kind[4:], val) if val is not None else []:
                out.append((s, sort, t))
            return out
        if kind.startswith("set:"):
            ek = kind[4:]
            s = self.as_set(v)
            asort = z3.ArraySort(self.sort_of(ek), z3.BoolSort())
            if s is None:
                return [("#set", asort, z3.K(self.sort_of(ek), z3.BoolVal(False)))]
            x = self.bound_of(ek)
            m = s.mem(x)
            if z3.is_select(m) and m.arg(1).eq(x) and x.decl().name() not in free_consts(m.arg(0)):
                return [("#set", asort, m.arg(0))]
            return [("#set", asort, self.fresh_array(x, m))]
        if kind.startswith("list:"):
            ek = kind[5:]
            s = self.to_seq(v)
            i = z3.Const(f"i!{next(self.counter)}", z3.IntSort())
            el = self.raw(s.get(i))
            if z3.is_select(el) and el.arg(1).eq(i) and i.decl().name() not in free_consts(el.arg(0)):
                arr = el.arg(0)
            else:
                arr = self.fresh_array(i, el)
            return [("#len", z3.IntSort(), s.length), ("#el", arr.sort(), arr)]
        if kind == "num":
            return [("", z3.RealSort(), to_real(self.znum(v)))]
        if kind == "int":
            return [("", z3.IntSort(), self.znum(v))]
        if kind == "bool":
            return [("", z3.BoolSort(), self.zbool(v))]
        if kind == "str":
            return [("", StrS, self.zstr(v))]
        if kind == "coords":
            if isinstance(v, SCoords):
                return [("", Coords, v.e)]
            return [("", Coords, self.coords_of(v))]
        if kind.startswith("ref"):
            if v is None:
                return [("", Ref, NULL)]
            if isinstance(v, SRef):
                return [("", Ref, v.e)]
        raise Unsupported(f"storing {describe(v)} as {kind}")

    def fresh_array(self, i, el):
        """The array with the given elements."""
        if self.binders or self.ctx.parent is not None:
            return z3.Lambda([i], el)
        arr = self.fresh_const(z3.ArraySort(i.sort(), el.sort()), "arr")
        self.fact(z3.ForAll([i], z3.Select(arr, i) == el, patterns=[z3.Select(arr, i)]))
        return arr

    def coords_of(self, v):
        """The immutable tuple with the elements of a sequence of numbers."""
        s = self.to_seq(v)
        i = z3.Const(f"i!{next(self.counter)}", z3.IntSort())
        c = self.aggregate("coords", self.to_iter(s), Coords)
        if ("coords", c.get_id()) not in self.instantiated:
            self.instantiated.add(("coords", c.get_id()))
            self.fact(z3.Function("coords.len", Coords, z3.IntSort())(c) == s.length)
            at = z3.Function("coords.at", Coords, z3.IntSort(), z3.RealSort())(c, i)
            self.fact(forall_pat([i], z3.Implies(z3.And(i >= 0, i < s.length), at == to_real(self.znum(s.get(i)))), [at]))
        return c

    # ------------------------------------------------------------------ calls

    def call(self, f, args, kwargs, node=None):
        self.check_deadline()
        f = self.deref(f)
        if isinstance(f, Builtin):
            return f.fn(*args, **kwargs)
        if hasattr(f, "vc_call"):
            return f.vc_call(self, args, kwargs, node)
        if isinstance(f, Closure):
            return self.call_closure(f, args, kwargs)
        if isinstance(f, BoundMethod):
            return self.call_function(f.func, [f.self] + list(args), kwargs, node)
        if isinstance(f, functools.partial):
            kw = dict(f.keywords)
            kw.update(kwargs)
            return self.call(f.func, list(f.args) + list(args), kw, node)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [f.__self__] + list(args), kwargs, node)
        if self.views and isinstance(f, types.FunctionType) and f in self.views:
            return self.views[f](self, args, kwargs, node)
        model = self.builtins.model_for(f)
        if model is not None:
            return model(self, args, kwargs, node)
        if isinstance(f, types.FunctionType):
            return self.call_function(f, list(args), kwargs, node)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs, node)
        if isinstance(f, (SRef, EObj)) or (not isinstance(f, SV) and self.is_repo_class(type(f))):
            m = self.find_method(f, "__call__") if isinstance(f, (SRef, EObj)) else None
            if m is not None:
                return self.call(m, args, kwargs, node)
            if not isinstance(f, SV):
                for c in type(f).__mro__:
                    if "__call__" in c.__dict__:
                        return self.call_function(c.__dict__["__call__"], [f] + list(args), kwargs, node)
        raise Unsupported(f"call of {describe(f)}")

    def bind_args(self, node_args, func_name, defaults, kwdefaults, args, kwargs):
        a = node_args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        pos = list(args)
        for k, x in enumerate(pos):
            if isinstance(x, StarArg):
                if a.vararg is None or k < len(names) or kwargs and any(n in kwargs for n in names):
                    raise Unsupported("* of unknown length in a call")
                rest_items = []
                for y in pos[len(names):]:
                    if isinstance(y, StarArg):
                        rest_items.extend(("v", b.value) if not b.binders and z3.is_true(b.guard) else ("b", b) for b in y.it.branches)
                    else:
                        rest_items.append(("v", y))
                out[a.vararg.arg] = LocalList(rest_items)
                pos = pos[: len(names)]
                break
        if len(pos) > len(names):
            if a.vararg is None:
                self.require(z3.BoolVal(False), TypeError, f"too many arguments for {func_name}")
                raise Infeasible()
            out[a.vararg.arg] = tuple(pos[len(names):])
            pos = pos[: len(names)]
        elif a.vararg is not None and a.vararg.arg not in out:
            out[a.vararg.arg] = ()
        for n, v in zip(names, pos):
            out[n] = v
        rest = dict(kwargs)
        unknown = rest.pop("**", None)
        if unknown is not None:
            rest = self.open_settings(unknown, rest, names, pos, [x.arg for x in a.kwonlyargs], a, out, func_name)
        for n in names[len(pos):]:
            if n in rest:
                out[n] = rest.pop(n)
        for n in names[: len(pos)]:
            if n in rest and a.kwarg is None:
                self.require(z3.BoolVal(False), TypeError, f"duplicate argument {n} for {func_name}")
                raise Infeasible()
            if n in rest:
                self.require(z3.BoolVal(False), TypeError, f"duplicate argument {n} for {func_name}")
                raise Infeasible()
        nd = len(defaults)
        for k, n in enumerate(names):
            if n not in out:
                j = k - (len(names) - nd)
                if j >= 0:
                    out[n] = defaults[j]
                else:
                    self.require(z3.BoolVal(False), TypeError, f"missing argument {n} of {func_name}")
                    raise Infeasible()
        for x in a.kwonlyargs:
            if x.arg in rest:
                out[x.arg] = rest.pop(x.arg)
            elif x.arg in kwdefaults:
                out[x.arg] = kwdefaults[x.arg]
            else:
                self.require(z3.BoolVal(False), TypeError, f"missing argument {x.arg} of {func_name}")
                raise Infeasible()
        if a.kwarg is not None and unknown is not None:
            out[a.kwarg.arg] = W.OpenDict(unknown.base, rest, self.taken)
        elif a.kwarg is not None:
            out[a.kwarg.arg] = LocalDict(rest)
        elif rest:
            self.require(z3.BoolVal(False), TypeError, f"unexpected arguments {sorted(rest)} for {func_name}")
            raise Infeasible()
        return out

    def open_settings(self, unknown, rest, names, pos, kwonly, a, out, func_name):
        """Distribute a mapping of unknown settings over the parameters of a call."""
        taken = set(unknown.minus)
        for k, v in unknown.d.items():
            rest[k] = v
        for k, n in enumerate(names + kwonly):
            if n in unknown.d or n in taken:
                continue
            if k < len(pos) and k < len(names) or n in rest:
                self.require(mk_not(unknown.base_has(n)), TypeError, f"duplicate argument {n} for {func_name}")
            elif self.branch(unknown.base_has(n)):
                rest[n] = unknown.base_get(n)
                taken.add(n)
        if a.kwarg is None:
            raise Unsupported("unknown settings for a function that takes no others")
        self.taken = taken
        return rest

    def call_closure(self, c, args, kwargs):
        node = c.node
        defaults, kwdefaults = getattr(c, "defaults", ()), {}
        if node.args.defaults:
            saved = self.frame
            self.frame = c.frame
            defaults = [self.eval(d) for d in node.args.defaults]
            self.frame = saved
        binding = self.bind_args(node.args, c.name, defaults, kwdefaults, args, kwargs)
        fr = Frame(c.name, c.frame.globals, binding, parent=c.frame, cls_cell=c.frame.cls_cell)
        return self.run_frame(fr, node)

    def call_function(self, func, args, kwargs, node=None, top=False):
        func = unwrap(func)
        if self.views and func in self.views and not (top and not self.spec_mode):
            return self.views[func](self, args, kwargs, node)
        contract = None if top else self.registry.for_function(func, args)
        if contract is not None:
            return self.call_contract(contract, func, args, kwargs, node)
        model = self.builtins.model_for(func)
        if model is not None:
            return model(self, args, kwargs, node)
        mod = getattr(func, "__module__", "") or ""
        if mod.split(".")[0] not in ("jinete", "contracts") and not top:
            raise Unsupported(f"call of external function {mod}.{func.__name__}")
        if getattr(func, "__isabstractmethod__", False) and not top:
            raise Unsupported(f"abstract method {func.__qualname__} without contract")
        fnode = function_ast(func)
        kwdefaults = func.__kwdefaults__ or {}
        binding = self.bind_args(fnode.args, func.__name__, func.__defaults__ or (), kwdefaults, args, kwargs)
        cells, cls_cell = {}, None
        for name, cell in zip(func.__code__.co_freevars, func.__closure__ or ()):
            try:
                val = cell.cell_contents
            except ValueError:
                continue
            if name == "__class__":
                cls_cell = val
            else:
                cells[name] = val
        first = args[0] if args else None
        fr = Frame(func.__qualname__, func.__globals__, binding, cells=cells, cls_cell=cls_cell, first=first)
        if top and not self.spec_mode:
            fr.contract = self.top_contract
        if not top and not self.spec_mode:
            self.inlined.add(f"{mod}:{func.__qualname__}")
        return self.run_frame(fr, fnode)

    frame = None

    def run_frame(self, fr, node):
        self.inline_depth += 1
        if self.inline_depth > MAX_INLINE:
            self.inline_depth = 0
            raise Unsupported(f"recursion through {fr.name} without a contract")
        saved = self.frame
        self.frame = fr
        self.call_stack.append((fr.name, getattr(node, "lineno", 0)))
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body)
            gen = is_generator(node)
            try:
                self.exec_body(node.body)
                result = None
            except ReturnSignal as r:
                result = r.value
            if gen:
                return SIter(fr.emitted)
            return result
        finally:
            self.frame = saved
            self.call_stack.pop()
            self.inline_depth -= 1

    def call_contract(self, contract, func, args, kwargs, node):
        """Replace a call by the contract of the callee."""
        if contract.assumed:
            self.assumptions.add(contract.assumed)
        sig = contract.signature(func)
        try:
            bound = sig.bind(*args, **kwargs)
        except TypeError as e:
            self.require(z3.BoolVal(False), TypeError, f"call of {contract.name}: {e}", node)
            raise Infeasible()
        bound.apply_defaults()
        binding = dict(bound.arguments)
        if "**" in kwargs:
            raise Unsupported("unknown settings for a function under contract")
        self.used_contracts.add(contract.name)
        if contract.requires and not self.spec_mode:
            for label, req in contract.requires:
                g = self.spec_bool(req, binding)
                self.oblige(g, f"precondition of {contract.name}: {label}", node)
                self.ctx.pc.append(g)
        if contract.custom is not None:
            return contract.custom(self, binding, node)
        if contract.expand is not None:
            return self.spec_value(contract.expand, binding)
        if contract.creates and not self.spec_mode:
            return self.call_creating(contract, binding, node)
        if contract.modifies is not None and not self.spec_mode:
            return self.call_modifying(contract, binding, node)
        terms = []
        for name, v in binding.items():
            if name in contract.ignore_args:
                continue
            terms.extend(self.arg_terms(v))
        tag = f"{contract.symbol}" + (f"@{self.heap_version}" if self.heap_version and not contract.heap_free else "")
        kind = contract.result_kind(binding, self)

        def mk(suffix, sort):
            if not terms:
                return z3.Const(tag + suffix, sort)
            return z3.Function(tag + suffix + "/" + ",".join(str(t.sort()) for t in terms), *[t.sort() for t in terms], sort)(*terms)

        result = self.build(kind, mk)
        key = (tag, tuple(t.sexpr() for t in terms))
        if key in self.instantiated or self.level >= self.unfold:
            return result
        self.instantiated.add(key)
        self.level += 1
        try:
            for label, ens in contract.ensures:
                g = self.spec_bool(ens, dict(binding, result=result), assume=True)
                self.fact(g)
        finally:
            self.level -= 1
        return result

    def old_state(self):
        """``old(lambda: e)``: the value of ``e`` in the state at this point."""
        eng = self
        heap, version, generation = dict(eng.heap), eng.heap_version, dict(eng.generation)

        def old(fn):
            h, v, g = eng.heap, eng.heap_version, eng.generation
            eng.generation = generation
            extra = {k: a for k, a in h.items() if k not in heap and z3.is_const(a) and a.decl().name().startswith("H0.")}
            eng.heap, eng.heap_version = {**extra, **heap}, version
            try:
                return eng.detach(eng.call(fn, [], {}))
            finally:
                eng.heap, eng.heap_version, eng.generation = h, v, g

        return Builtin("old", old)

    def modified_objects(self, c, binding):
        """{(class, field): references} of a contract's ``modifies`` (None: any object), evaluated in the current state."""
        out = {}
        for what, fns in c.modifies or ():
            cls, field = what.split(".")
            if fns is None:
                out[(cls, field)] = None
                continue
            refs = []
            for fn in fns if isinstance(fns, (list, tuple)) else [fns]:
                if getattr(fn, "each", False):
                    # a condition on the object
                    r = self.fresh_const(Ref, "each")
                    refs.append((r, self.spec_bool(fn, dict(binding, each=SRef(r, self.cls_of(cls))))))
                    continue
                v = self.deref(self.spec_value(fn, binding))
                if isinstance(v, SRef):
                    refs.append(v.e)
                elif v is not None:
                    raise Unsupported("modifies")
            out[(cls, field)] = refs
        return out

    def field_parts(self, owner, field):
        kind = self.schema.fields[owner][field]
        found = []
        saved = self.fact
        self.fact = lambda e: None
        try:
            self.build(kind, lambda suffix, sort: (found.append((suffix, sort)), z3.FreshConst(sort))[1])
        finally:
            self.fact = saved
        return found

    def check_frame(self, entry, targets, when=""):
        """Obligations: objects that existed on entry keep every field that may not change."""
        birth = BIRTH
        goals = {}
        for key, arr in self.heap.items():
            if key[1].startswith("#"):
                continue
            before = entry.get(key)
            if before is None:
                before = z3.Const("H0." + ".".join(key), arr.sort())
            if arr.eq(before):
                continue
            name = (key[0], key[1].split("#")[0])
            refs = targets.get(name, [])
            if refs is None:
                continue
            r = z3.Const("frame!r", Ref)
            goals.setdefault(name, []).append(z3.ForAll([r], z3.Implies(
                mk_and([birth(r) <= 0] + [mk_not(is_target(x, r)) for x in refs]), z3.Select(arr, r) == z3.Select(before, r))))
        for name, gs in sorted(goals.items()):
            self.oblige(mk_and(gs), f"{when}no other {'.'.join(name)} changes")

    def havoc_fields(self, targets):
        """Forget the fields of the objects of ``modifies`` clauses."""
        nested = bool(self.binders) or self.ctx.parent is not None
        for (owner, field), refs in targets.items():
            kind = self.schema.fields[owner][field]
            for suffix, sort in self.field_parts(owner, field):
                key = (owner, field + suffix)
                arr = self.heap_array(key, sort)
                if refs is None or nested or any(isinstance(x, tuple) for x in refs):
                    # (in a loop: only fit for an exit, which is executed again where the loop is left)
                    new = self.fresh_param(arr.sort(), "after." + ".".join(key))
                    if refs is not None and not nested:
                        r = z3.Const("frame!r", Ref)
                        self.fact(z3.ForAll([r], z3.Or(*[is_target(x, r) for x in refs], z3.Select(new, r) == z3.Select(arr, r)),
                                            patterns=[z3.Select(new, r)]))
                    arr = new
                    self.ages.append((new, self.births, True))
                else:
                    for r in refs:
                        val = self.fresh_const(sort, "after." + ".".join(key))
                        self.ages.append((val, self.births, False))
                        arr = z3.Store(arr, r, val)
                self.heap[key] = arr
            if kind.startswith(("set:", "list:")):
                self.generation[(owner, field)] = self.generation.get((owner, field), 0) + 1
        self.heap_version += 1000003 + next(self.counter)

    def call_modifying(self, contract, binding, node):
        """A call of a function that changes objects: forget what it may change, assume what it promises."""
        nested = bool(self.binders) or self.ctx.parent is not None
        for exc, label, cond in contract.raises:
            if self.branch(self.spec_bool(cond, binding)):
                self.raise_exc(exc, f"{contract.name}: {label}", node)
        if self.tracking and not self.coherent:
            raise Unsupported(f"{contract.name} is called while stored values are outdated")
        targets = self.modified_objects(contract, binding)
        binding = dict(binding, old=self.old_state())
        self.havoc_fields(targets)
        if self.tracking and not contract.track and not nested:
            self.outdate()
        result = self.fresh(contract.result_kind(binding, self), contract.symbol)
        for label, ens in contract.ensures:
            self.fact(self.spec_bool(ens, dict(binding, result=result), assume=True))
        return result

    def call_creating(self, contract, binding, node):
        """A call of a function that answers a new object and changes none.

        What the fields of objects hold that do not exist yet is arbitrary, so the new objects are taken from those that
        already hold what the contract promises: no field changes.
        """
        for exc, label, cond in contract.raises:
            if self.branch(self.spec_bool(cond, binding)):
                self.raise_exc(exc, f"{contract.name}: {label}", node)
        kind = contract.result_kind(binding, self)
        if not kind.startswith("ref:"):
            raise Unsupported("a created object of this kind")
        binding = dict(binding, old=self.old_state())
        mark, self.mark = self.mark, self.births
        result = SRef(self.newborn(contract.symbol), self.cls_of(kind[4:]))
        now, self.now = self.now, self.births
        try:
            for label, ens in contract.ensures:
                self.fact(self.spec_bool(ens, dict(binding, result=result), assume=True))
        finally:
            self.mark, self.now = mark, now
        return result

    def arg_terms(self, v):
        v = self.deref(v)
        if isinstance(v, (type, types.FunctionType)) or v is None:
            if v is None:
                return [NULL]
            return [self.zstr(f"<{getattr(v, '__qualname__', v)}>")]
        if isinstance(v, EObj):
            return [self.zstr(f"<obj {id(v)}>")]
        if isinstance(v, LocalDict):
            return [t for k in v.d for t in [self.zstr(str(k))] + self.arg_terms(v.d[k])]
        if is_set_value(v):
            s = self.as_set(v)
            if s is None:
                return [self.zstr("<empty set>")]
            x = self.bound_of(s.elem)
            return [z3.Lambda([x], s.mem(x))]
        return self.value_terms(v)

    def spec_value(self, fn, binding):
        """Evaluate a specification function on symbolic arguments; one merged value."""
        if isinstance(fn, tuple):
            raise Unsupported("bad specification")
        args = [binding[n] if n in binding else p.default for n, p in inspect.signature(fn).parameters.items()]
        self.spec_mode += 1
        try:
            res = self.sub_explore(lambda: self.call_function(fn, args, {}, top=True))
        finally:
            self.spec_mode -= 1
        good = [(mk_and(pc), v) for pc, k, v, _ in res if k in ("ok", "return")]
        if not good:
            raise Infeasible()
        return self.merge_values(good)

    def spec_bool(self, fn, binding, assume=False):
        if getattr(fn, "engine_level", False):
            return self.answered(lambda: fn(self, **{n: binding[n] for n in list(inspect.signature(fn).parameters)[1:]}))
        args = [binding[n] if n in binding else p.default for n, p in inspect.signature(fn).parameters.items()]
        self.spec_mode += 1
        try:
            res = self.sub_explore(lambda: self.call_function(fn, args, {}, top=True))
        finally:
            self.spec_mode -= 1
        if not res and self.feasible(z3.BoolVal(True)):
            raise Unsupported("a specification without an answer")
        out = []
        for pc, k, v, _ in res:
            if k == "raise":
                # a specification that fails does not hold
                out.append(z3.Implies(mk_and(pc), z3.BoolVal(False)))
                continue
            t = self.truth(v)
            t = z3.BoolVal(t) if isinstance(t, bool) else t
            out.append(z3.Implies(mk_and(pc), t) if pc else t)
        return mk_and(out)

    def answered(self, go):
        """A specification never ends a path that is possible."""
        try:
            return go()
        except Infeasible:
            if self.feasible(z3.BoolVal(True)):
                raise Unsupported("a specification without an answer") from None
            raise

    def instantiate(self, cls, args, kwargs, node=None):
        name = cls.__name__
        hook = self.class_hooks.get(cls)
        if hook is not None and not self.spec_mode:
            return hook(self, list(args), dict(kwargs), node)
        if name in self.schema.fields and self.schema.allocate.get(name):
            obj = self.alloc(cls)
            init = self.find_method(obj, "__init__")
            self.call(init, args, kwargs, node)
            return obj
        if not self.is_repo_class(cls):
            if issubclass(cls, BaseException):
                return EObj(cls, {"args": tuple(args)})
            raise Unsupported(f"instantiation of {cls.__module__}.{name}")
        obj = EObj(cls, made=True)
        init = self.find_method(obj, "__init__")
        if init is not None:
            self.call(init, args, kwargs, node)
        elif args or kwargs:
            if not issubclass(cls, BaseException):
                raise Unsupported(f"constructor of {name}")
        return obj

    def alloc(self, cls):
        """A new object.  In a loop or comprehension: one for every iteration (a function of the loop variables)."""
        if self.spec_mode:
            raise Unsupported("object creation in a specification")
        return SRef(self.newborn(f"new{cls.__name__}"), cls)

    def newborn(self, name):
        self.births = self.births + 1
        e = self.fresh_param(Ref, name)
        self.allocs[e.decl().name()] = self.births
        facts = [e != NULL, BIRTH(e) == self.births]
        for k, b in enumerate(self.binders):
            facts.append(z3.Function(f"of.{e.decl().name()}.{k}", Ref, b.sort())(e) == b)
        if self.binders:
            self.axioms.append(forall_pat(list(self.binders), mk_and(facts), [e]))
        elif self.ctx.parent is not None:
            self.axioms.extend(facts)
        else:
            for f in facts:
                self.fact(f)
        return e

    def age_facts(self):
        """What existed when a heap was current refers to what existed then."""
        out, seen = [BIRTH(NULL) <= 0], set()
        for term, when, guard in self.ages:
            if (term.get_id(), guard) in seen:
                continue
            seen.add((term.get_id(), guard))
            vs, t = [], term
            born = None
            while z3.is_array(t):
                v = z3.Const(f"age!{len(vs)}", t.sort().domain())
                vs.append(v)
                if t.sort().range() == z3.BoolSort():
                    born = (z3.Select(t, v), v)
                t = z3.Select(t, v)
            if born is None:
                if t.sort() != Ref:
                    continue
                cond, what = [], t
            else:
                if born[1].sort() != Ref:
                    continue
                cond, what = [born[0]], born[1]
            if guard and vs:
                cond.append(BIRTH(vs[0]) <= when)
            goal = z3.Implies(mk_and(cond), BIRTH(what) <= when)
            out.append(forall_pat(vs, goal, [t]) if vs else goal)
        return out

    # ------------------------------------------------------------------ statements

    def exec_body(self, stmts):
        for s in stmts:
            self.exec(s)

    def exec(self, s):
        m = getattr(self, "exec_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        return m(s)

    def exec_Pass(self, s):
        pass

    def exec_Global(self, s):
        raise Unsupported("global statement")

    def exec_Import(self, s):
        for a in s.names:
            mod = __import__(a.name)
            self.frame.locals[a.asname or a.name.split(".")[0]] = mod

    def exec_ImportFrom(self, s):
        import importlib

        name = "." * s.level + (s.module or "")
        pkg = self.frame.globals.get("__package__")
        mod = importlib.import_module(name, pkg)
        for a in s.names:
            self.frame.locals[a.asname or a.name] = getattr(mod, a.name)

    def exec_Expr(self, s):
        v = s.value
        if isinstance(v, ast.Constant):
            return
        if self.is_logging(v):
            return
        self.eval(v)

    def is_logging(self, v):
        if not (isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name)):
            return False
        try:
            o = self.frame.lookup(v.func.value.id)
        except Unsupported:
            return False
        return isinstance(o, logging.Logger)

    def exec_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def exec_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def exec_AugAssign(self, s):
        if isinstance(s.target, ast.Name):
            cur = self.frame.lookup(s.target.id)
            v = self.eval(s.value)
            self.assign(s.target, self.augment(cur, s.op, v, s))
        elif isinstance(s.target, ast.Attribute):
            obj = self.eval(s.target.value)
            cur = self.getattr(obj, self.mangled(s.target.attr), s)
            v = self.eval(s.value)
            self.setattr(obj, self.mangled(s.target.attr), self.augment(cur, s.op, v, s), s)
        else:
            raise Unsupported("augmented assignment to a subscript")

    def augment(self, cur, op, v, node):
        cur = self.deref(cur)
        if isinstance(cur, LocalList) and isinstance(op, ast.Add):
            self.builtins.list_extend(self, cur, v)
            return cur
        if isinstance(cur, LocalSet) and isinstance(op, ast.BitOr):
            self.builtins.set_update(self, cur, v)
            return cur
        if isinstance(cur, list) or isinstance(cur, set):
            raise Unsupported("mutation of a native container")
        if hasattr(cur, "vc_augment"):
            return cur.vc_augment(self, op, v, node)
        if isinstance(cur, LocalSet) and isinstance(op, ast.Sub):
            return self.binop(op, cur, v, node)
        return self.binop(op, cur, v, node)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.frame.locals[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), self.mangled(t.attr), v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unsupported("starred assignment")
            vals = self.unpack(v, len(t.elts), t)
            for x, y in zip(t.elts, vals):
                self.assign(x, y)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value)
            key = self.eval(t.slice)
            self.builtins.setitem(self, obj, key, v, t)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n, node=None):
        v = self.deref(v)
        if isinstance(v, tuple):
            if len(v) != n:
                self.require(z3.BoolVal(False), ValueError, "wrong number of values to unpack", node)
                raise Infeasible()
            return list(v)
        if isinstance(v, (LocalList, SSeq, SCoords)):
            s = self.to_seq(v)
            self.require(s.length == n, ValueError, "wrong number of values to unpack", node)
            return [s.get(z3.IntVal(k)) for k in range(n)]
        if isinstance(v, (list,)):
            return list(v)
        raise Unsupported(f"unpacking of {describe(v)}")

    def exec_Return(self, s):
        raise ReturnSignal(None if s.value is None else self.eval(s.value))

    def exec_If(self, s):
        if self.cond(s.test):
            self.exec_body(s.body)
        else:
            self.exec_body(s.orelse)

    def cond(self, test):
        return self.branch(self.truth(self.eval(test)))

    def exec_Assert(self, s):
        contract = self.frame.contract if self.frame is not None else None
        t = self.truth(self.eval(s.test))
        t = z3.BoolVal(t) if isinstance(t, bool) else t
        if self.spec_mode:
            if not self.branch(t):
                raise PyRaise(AssertionError, "spec")
            return
        if self.assert_mode == "assume":
            self.assumptions.add(f"assertion of {self.frame.name} line {s.lineno} assumed")
            self.ctx.pc.append(t)
            return
        top = self.top_contract
        if self.handled(AssertionError) or top is not None and any(exc is AssertionError for exc, _, _ in getattr(top, "raises", ())):
            if not self.branch(t):
                raise PyRaise(AssertionError, "assertion")
            return
        self.oblige(t, "assertion holds", s)
        self.ctx.pc.append(t)

    assert_mode = "prove"

    def exec_Raise(self, s):
        if s.exc is None:
            raise Unsupported("re-raise")
        exc = s.exc
        if isinstance(exc, ast.Call):
            cls = self.eval(exc.func)
        else:
            cls = self.eval(exc)
        if isinstance(cls, EObj):
            cls = cls.cls
        raise PyRaise(cls, "raised")

    def exec_Break(self, s):
        raise BreakSignal()

    def exec_Continue(self, s):
        raise ContinueSignal()

    def exec_FunctionDef(self, s):
        if s.decorator_list:
            raise Unsupported("decorated nested function")
        self.frame.locals[s.name] = Closure(s, self.frame, s.name)

    def exec_Try(self, s):
        if s.finalbody:
            raise Unsupported("try/finally")
        classes = []
        for h in s.handlers:
            if h.type is None:
                classes.append((BaseException,))
            else:
                t = self.eval(h.type)
                classes.append(t if isinstance(t, tuple) else (t,))
        self.handler_stack = self.handler_stack + [tuple(c for cs in classes for c in cs)]
        try:
            try:
                self.exec_body(s.body)
            finally:
                self.handler_stack = self.handler_stack[:-1]
        except PyRaise as e:
            for h, cs in zip(s.handlers, classes):
                if any(issubclass(e.exc, c) for c in cs):
                    if h.name:
                        self.frame.locals[h.name] = EObj(e.exc)
                    self.exec_body(h.body)
                    return
            raise
        self.exec_body(s.orelse)

    def exec_With(self, s):
        if not s.items:
            return self.exec_body(s.body)
        item = s.items[0]
        v = self.eval(item.context_expr)
        ent, ext = self.getattr(v, "__enter__"), self.getattr(v, "__exit__")
        r = self.call(ent, [], {})
        if item.optional_vars is not None:
            self.assign(item.optional_vars, r)
        try:
            if len(s.items) > 1:
                self.exec_With(ast.copy_location(ast.With(items=s.items[1:], body=s.body), s))
            else:
                self.exec_body(s.body)
        except (ReturnSignal, BreakSignal, ContinueSignal):
            self.call(ext, [None, None, None], {})
            raise
        except PyRaise as e:
            if self.call(ext, [type(e), e, None], {}) is not None:
                raise Unsupported("a context manager that may swallow exceptions")
            raise
        self.call(ext, [None, None, None], {})

    def exec_For(self, s):
        self.loops.exec_for(self, s)

    def exec_While(self, s):
        self.loops.exec_while(self, s)

    def exec_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.frame.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                o = self.deref(self.eval(t.value))
                if not hasattr(o, "vc_delitem"):
                    raise Unsupported("del")
                o.vc_delitem(self, self.deref(self.eval(t.slice)), s)
            else:
                raise Unsupported("del")

    def exec_ClassDef(self, s):
        W.class_def(self, s)

    # ------------------------------------------------------------------ expressions

    def eval(self, n):
        m = getattr(self, "eval_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__}")
        return m(n)

    def eval_Constant(self, n):
        return n.value

    def eval_Name(self, n):
        return self.frame.lookup(n.id)

    def mangled(self, name):
        """Private names of a class body."""
        if not name.startswith("__") or name.endswith("__"):
            return name
        fr = self.frame
        while fr.parent is not None:
            fr = fr.parent
        parts = [p for p in fr.name.split(".") if p != "<locals>"]
        return f"_{parts[-2].lstrip('_')}{name}" if len(parts) > 1 else name

    def eval_Attribute(self, n):
        return self.getattr(self.eval(n.value), self.mangled(n.attr), n)

    def eval_Tuple(self, n):
        out = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                v = self.deref(self.eval(x.value))
                if isinstance(v, tuple):
                    out.extend(v)
                else:
                    items = self.concrete_items(v)
                    if items is None:
                        return LocalListTuple(self, n)
                    out.extend(items)
            else:
                out.append(self.eval(x))
        return tuple(out)

    def concrete_items(self, v):
        v = self.deref(v)
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, LocalList) and all(t == "v" for t, _ in v.items):
            return [x for _, x in v.items]
        if isinstance(v, SIter) and all(not b.binders and z3.is_true(b.guard) for b in v.branches):
            return [b.value for b in v.branches]
        if isinstance(v, range):
            return list(v)
        if isinstance(v, LocalDict):
            return list(v.d)
        if isinstance(v, SSeq):
            ln = z3.simplify(v.length)
            if z3.is_int_value(ln) and ln.as_long() <= 16:
                return [v.get(z3.IntVal(k)) for k in range(ln.as_long())]
        return None

    def eval_List(self, n):
        items = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                for b in self.plain_iter(self.eval(x.value)).branches:
                    if not b.binders and z3.is_true(b.guard):
                        items.append(("v", b.value))
                    else:
                        items.append(("b", b))
            else:
                items.append(("v", self.eval(x)))
        return LocalList(items)

    def eval_Set(self, n):
        return LocalSet([("v", self.eval(x)) for x in n.elts])

    def eval_Dict(self, n):
        d, parts = {}, []
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.deref(self.eval(v))
                if isinstance(o, W.OpenDict):
                    parts += [d, o]
                    d = {}
                    continue
                if isinstance(o, dict):
                    o = LocalDict(o)
                if not isinstance(o, LocalDict):
                    raise Unsupported("dict unpacking")
                d.update(o.d)
                continue
            kk = self.eval(k)
            if isinstance(kk, SV):
                raise Unsupported("dict with a symbolic key")
            d[kk] = self.eval(v)
        if parts:
            return W.merged(self, parts + [d])
        if not n.keys and dict in self.class_hooks and not self.spec_mode:
            return self.class_hooks[dict](self, [], {}, n)
        return LocalDict(d)

    def eval_IfExp(self, n):
        return self.eval(n.body) if self.cond(n.test) else self.eval(n.orelse)

    def eval_Lambda(self, n):
        return Closure(n, self.frame)

    def eval_NamedExpr(self, n):
        v = self.eval(n.value)
        self.assign(n.target, v)
        return v

    def eval_BoolOp(self, n):
        is_and = isinstance(n.op, ast.And)
        v = None
        for k, x in enumerate(n.values):
            v = self.eval(x)
            if k == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(t, bool):
                if t != is_and:
                    return v
                continue
            rest = n.values[k + 1:]
            if isinstance(v, SBool) and all(is_simple(x) for x in rest):
                w = self.eval(ast.copy_location(ast.BoolOp(op=n.op, values=rest), n)) if len(rest) > 1 else self.eval(rest[0])
                if is_boolish(w):
                    z = self.zbool(w)
                    return SBool(mk_and([v.e, z]) if is_and else mk_or([v.e, z]))
                raise Unsupported("mixed boolean operands")
            if self.spec_mode and not self.no_join and isinstance(v, SBool):
                w = self.rest_of(n, k, v.e, is_and)
                if w is not None:
                    return SBool(w)
            if self.branch(t) != is_and:
                return v if not isinstance(v, SBool) else (not is_and)
        return v

    def rest_of(self, n, k, first, is_and):
        """In a specification: the operands after the k-th one evaluated one by one, the paths of each joined."""
        parts = [first]
        for x in n.values[k + 1:]:
            given = parts if is_and else [mk_not(p) for p in parts]
            try:
                res = self.sub_explore(lambda: self.eval(x), (), given)
            except Infeasible:
                return None
            out = []
            for pc, kind, v, _ in res:
                if kind != "ok":
                    return None
                v = z3.BoolVal(v) if isinstance(v, bool) else v.e if isinstance(v, SBool) else None
                if v is None:
                    return None
                out.append(z3.Implies(mk_and(pc), v) if pc else v)
            if not res:
                out = [z3.BoolVal(True)]  # not reached
            w = mk_and(out)
            parts.append(w)
        return mk_and(parts) if is_and else mk_or(parts)

    def eval_UnaryOp(self, n):
        v = self.eval(n.operand)
        if isinstance(n.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else SBool(mk_not(t))
        if isinstance(n.op, ast.USub):
            if not isinstance(v, SV):
                return -v
            return SNum(-self.znum(v))
        if isinstance(n.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def eval_BinOp(self, n):
        return self.binop(n.op, self.eval(n.left), self.eval(n.right), n)

    def binop(self, op, a, b, node=None):
        a, b = self.deref(a), self.deref(b)
        if not isinstance(a, SV) and not isinstance(b, SV) and not has_sv(a) and not has_sv(b):
            try:
                return native_binop(op, a, b)
            except Exception as e:
                self.require(z3.BoolVal(False), type(e), str(e), node)
                raise Infeasible()
        if is_set_value(a) and is_set_value(b) or (isinstance(op, (ast.BitOr, ast.BitAnd)) and (is_set_value(a) or is_set_value(b))):
            return self.builtins.set_binop(self, op, a, b)
        if isinstance(op, ast.BitAnd) and is_boolish(a) and is_boolish(b):
            return SBool(mk_and([self.zbool(a), self.zbool(b)]))
        if isinstance(op, ast.BitOr) and is_boolish(a) and is_boolish(b):
            return SBool(mk_or([self.zbool(a), self.zbool(b)]))
        if isinstance(op, ast.Sub) and is_set_value(a):
            return self.builtins.set_binop(self, op, a, b)
        if isinstance(op, ast.Add):
            if is_str(a) and is_str(b):
                return SStr(as_parts(a) + as_parts(b))
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if is_seq_value(a) and is_seq_value(b):
                x, y = self.plain_iter(a), self.plain_iter(b)
                out = LocalList()
                for br in x.branches + y.branches:
                    out.items.append(("v", br.value) if not br.binders and z3.is_true(br.guard) else ("b", br))
                return out
        if isinstance(op, ast.Mult) and isinstance(a, LocalList) and isinstance(b, int):
            return LocalList(a.items * b)
        x, y = self.num_operand(a, node), self.num_operand(b, node)
        if isinstance(op, ast.Div):
            self.require(y != 0, ZeroDivisionError, "division by zero", node)
            return SNum(to_real(x) / to_real(y))
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            self.require(y != 0, ZeroDivisionError, "division by zero", node)
            if z3.is_int(x) and z3.is_int(y):
                q = z3.If(y > 0, x / y, (-x) / (-y))
                return SNum(q if isinstance(op, ast.FloorDiv) else x - y * q)
            q = z3.ToReal(z3.ToInt(to_real(x) / to_real(y)))
            return SNum(q if isinstance(op, ast.FloorDiv) else to_real(x) - to_real(y) * q)
        if isinstance(op, ast.Pow):
            return self.builtins.power(self, a, b)
        if z3.is_int(x) != z3.is_int(y):
            x, y = to_real(x), to_real(y)
        if isinstance(op, ast.Add):
            return SNum(x + y)
        if isinstance(op, ast.Sub):
            return SNum(x - y)
        if isinstance(op, ast.Mult):
            return SNum(x * y)
        raise Unsupported(f"operator {type(op).__name__}")

    def num_operand(self, v, node):
        if v is None:
            self.require(z3.BoolVal(False), TypeError, "None used as a number", node)
            raise Infeasible()
        return self.znum(v)

    def eval_Compare(self, n):
        left = self.eval(n.left)
        out = []
        for op, c in zip(n.ops, n.comparators):
            right = self.eval(c)
            out.append(self.compare(op, left, right, n))
            left = right
        r = mk_and(out)
        r = z3.simplify(r) if not has_quant(r) else r
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return SBool(r)

    def compare(self, op, a, b, node):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            f = None
            if isinstance(a, SRef):
                for c in a.cls.__mro__:
                    if c is not object and "__ne__" in c.__dict__:
                        f = c.__dict__["__ne__"]
                        break
            if f is not None and isinstance(b, SRef):
                t = self.truth(self.call(BoundMethod(f, a), [b], {}))
                return z3.BoolVal(t) if isinstance(t, bool) else t
            return mk_not(self.eq(a, b))
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identical(a, b)
            return r if isinstance(op, ast.Is) else mk_not(r)
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return mk_not(self.contains(b, a))
        return self.order(op, a, b, node)

    def order(self, op, a, b, node):
        a, b = self.deref(a), self.deref(b)
        if is_set_value(a) and is_set_value(b) and isinstance(op, (ast.LtE, ast.GtE)):
            if isinstance(op, ast.GtE):
                a, b = b, a
            x, y = self.as_set(a), self.as_set(b)
            if x is None:
                return z3.BoolVal(True)
            e = self.bound_of(x.elem)
            return z3.ForAll([e], z3.Implies(x.mem(e), z3.BoolVal(False) if y is None else y.mem(e)))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self.lex(op, a, b, node)
        x, y = self.num_operand(a, node), self.num_operand(b, node)
        if z3.is_int(x) != z3.is_int(y):
            x, y = to_real(x), to_real(y)
        if isinstance(op, ast.Lt):
            return x < y
        if isinstance(op, ast.LtE):
            return x <= y
        if isinstance(op, ast.Gt):
            return x > y
        if isinstance(op, ast.GtE):
            return x >= y
        raise Unsupported("comparison operator")

    def lex(self, op, a, b, node):
        strict = isinstance(op, (ast.Lt, ast.Gt))
        if not a or not b:
            n, m = len(a), len(b)
            return z3.BoolVal({ast.Lt: n < m, ast.LtE: n <= m, ast.Gt: n > m, ast.GtE: n >= m}[type(op)])
        first_op = ast.Lt() if isinstance(op, (ast.Lt, ast.LtE)) else ast.Gt()
        return mk_or(
            [
                self.order(first_op, a[0], b[0], node),
                mk_and([self.eq(a[0], b[0]), self.lex(op, a[1:], b[1:], node)]),
            ]
        )

    def identical(self, a, b):
        a, b = self.deref(a), self.deref(b)
        if a is None or b is None:
            return self.eq(a, b)
        if isinstance(a, SRef) and isinstance(b, SRef):
            return a.e == b.e
        if isinstance(a, SV) and isinstance(b, SV) and type(a) is type(b):
            if a is b:
                return z3.BoolVal(True)
            if isinstance(a, (EObj, LocalList, LocalSet, LocalDict)):
                return z3.BoolVal(False)
            raise Unsupported("identity of values")
        if is_boolish(a) and is_boolish(b):
            return self.zbool(a) == self.zbool(b)
        if isinstance(a, SOpt) or isinstance(b, SOpt):
            raise Unsupported("identity of values")
        return z3.BoolVal(a is b)

    def eval_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            return SuperProxy(self.frame.cls_cell or self.outer_cls(), self.outer_first())
        if self.is_logging(n):
            return None
        f = self.eval(n.func)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                items = self.concrete_items(v)
                if items is None:
                    args.append(StarArg(self.plain_iter(v)))
                else:
                    args.extend(items)
            else:
                args.append(self.eval(a))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.deref(self.eval(k.value))
                if isinstance(d, W.OpenDict):
                    if "**" in kwargs:
                        raise Unsupported("two mappings of unknown settings in a call")
                    kwargs["**"] = W.OpenDict(d.base, d.d, d.minus)
                    continue
                if isinstance(d, LocalDict):
                    d = d.d
                if not isinstance(d, dict):
                    raise Unsupported("** of a symbolic mapping")
                for kk in d:
                    if kk in kwargs:
                        self.require(z3.BoolVal(False), TypeError, f"multiple values for keyword argument {kk!r}", n)
                        raise Infeasible()
                kwargs.update(d)
            else:
                if k.arg in kwargs:
                    self.require(z3.BoolVal(False), TypeError, f"multiple values for keyword argument {k.arg!r}", n)
                    raise Infeasible()
                kwargs[k.arg] = self.eval(k.value)
        if "**" in kwargs:
            d = kwargs["**"]
            for kk in kwargs:
                if kk in d.d:
                    self.require(z3.BoolVal(False), TypeError, f"multiple values for keyword argument {kk!r}", n)
                    raise Infeasible()
                if kk != "**":
                    self.require(mk_not(d.base_has(kk)), TypeError, f"{kk!r} is given once", n)
        return self.call(f, args, kwargs, n)

    def outer_cls(self):
        f = self.frame
        while f is not None:
            if f.cls_cell is not None:
                return f.cls_cell
            f = f.parent
        raise Unsupported("super() without a class")

    def outer_first(self):
        f = self.frame
        while f is not None:
            if f.first is not None:
                return f.first
            f = f.parent
        raise Unsupported("super() without an object")

    def eval_Starred(self, n):
        raise Unsupported("starred expression")

    def eval_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(str(v.value))
                continue
            val = self.eval(v.value)
            spec = ""
            if v.format_spec is not None:
                s = self.eval(v.format_spec)
                if not isinstance(s, str):
                    s = "".join(p for p in s.parts if isinstance(p, str)) if all(isinstance(p, str) for p in s.parts) else None
                if s is None:
                    raise Unsupported("computed format specification")
                spec = s
            if v.conversion not in (-1, 115):
                spec = f"!{chr(v.conversion)}" + spec
            parts.extend(self.format_parts(val, spec))
        s = SStr(parts)
        if all(isinstance(p, str) for p in s.parts):
            return "".join(s.parts)
        return s

    def format_parts(self, val, spec):
        val = self.deref(val)
        if spec == "" and is_str(val):
            return as_parts(val)
        if not isinstance(val, SV) and not has_sv(val):
            if spec.startswith("!"):
                return [format(repr(val), spec[2:])]
            return [format(val, spec)]
        if isinstance(val, SNum) and z3.is_int(val.e) and spec in ("", "d"):
            return [("f", "d", val)]
        if isinstance(val, SNum) and spec == ".0f" and z3.is_int(val.e):
            return [("f", "d", val)]
        return [("f", spec, val)]

    def eval_FormattedValue(self, n):
        raise Unsupported("formatted value")

    def eval_Subscript(self, n):
        obj = self.eval(n.value)
        if isinstance(n.slice, ast.Slice):
            lo = None if n.slice.lower is None else self.eval(n.slice.lower)
            hi = None if n.slice.upper is None else self.eval(n.slice.upper)
            st = None if n.slice.step is None else self.eval(n.slice.step)
            return self.builtins.slice_of(self, obj, lo, hi, st, n)
        return self.builtins.getitem(self, obj, self.eval(n.slice), n)

    def eval_Slice(self, n):
        return slice(
            None if n.lower is None else self.eval(n.lower),
            None if n.upper is None else self.eval(n.upper),
            None if n.step is None else self.eval(n.step),
        )

    def eval_GeneratorExp(self, n):
        return SIter(self.comprehension(n.generators, n.elt))

    def eval_ListComp(self, n):
        br = self.comprehension(n.generators, n.elt)
        return LocalList([("v", b.value) if not b.binders and z3.is_true(b.guard) else ("b", b) for b in br])

    def eval_SetComp(self, n):
        br = self.comprehension(n.generators, n.elt)
        return LocalSet([("v", b.value) if not b.binders and z3.is_true(b.guard) else ("b", b) for b in br])

    def eval_DictComp(self, n):
        br = self.comprehension(n.generators, ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()))
        if dict in self.class_hooks and not self.spec_mode:
            from . import logs

            return logs.of_branches(self, br)
        return self.builtins.dict_of_pairs(self, br)

    def eval_Yield(self, n):
        self.frame.emitted.append(Branch([], z3.BoolVal(True), None if n.value is None else self.eval(n.value)))
        return None

    def eval_YieldFrom(self, n):
        v = self.eval(n.value)
        self.frame.emitted.extend(self.plain_iter(v).branches)
        return None

    def comprehension(self, generators, elt):
        outer = self.frame
        fr = Frame(outer.name, outer.globals, {}, parent=outer, cls_cell=outer.cls_cell, first=outer.first)
        first_iter = self.plain_iter(self.eval(generators[0].iter))
        try:
            return self.comp_level(fr, generators, 0, elt, first_iter)
        except MutatesInside:
            if len(generators) > 1 or self.binders or self.ctx.parent is not None:
                raise
        # a comprehension with side effects: the loop it abbreviates
        g = generators[0]
        body = ast.Expr(ast.Yield(elt))
        for c in reversed(g.ifs):
            body = ast.If(c, [body], [])
        ast.fix_missing_locations(ast.copy_location(body, elt))
        loop = ast.For(target=g.target, iter=g.iter, body=[body], orelse=[])
        fr.locals, fr.emitted = {}, []
        saved, self.frame = self.frame, fr
        try:
            for b in first_iter.branches:
                if b.binders:
                    self.loops.loop_branch(self, loop, b, [body])
                elif z3.is_true(b.guard) or self.branch(b.guard):
                    self.assign(g.target, b.value)
                    self.exec_body([body])
        finally:
            self.frame = saved
        return fr.emitted

    def comp_level(self, fr, generators, k, elt, it):
        """Branches of the comprehension from level k on, iterating ``it``."""
        g = generators[k]
        out = []
        for br in it.branches:
            outer_locals = dict(fr.locals)

            def run():
                fr.locals = dict(outer_locals)
                saved = self.frame
                self.frame = fr
                try:
                    self.assign(g.target, br.value)
                    for c in g.ifs:
                        if not self.branch(self.truth(self.eval(c))):
                            return None
                    if k + 1 == len(generators):
                        return [Branch([], z3.BoolVal(True), self.eval(elt))]
                    nxt = self.plain_iter(self.eval(generators[k + 1].iter))
                    return self.comp_level(fr, generators, k + 1, elt, nxt)
                finally:
                    self.frame = saved

            if not br.binders and z3.is_true(br.guard):
                if self.ctx.parent is None and not g.ifs and k + 1 == len(generators):
                    r = run()
                    out.extend(r)
                    continue
                # an unconditional element: explore below, splitting only on its own filters
            res = self.sub_explore(run, br.consts, [br.cond] if not z3.is_true(br.cond) else [])
            fr.locals = outer_locals
            for pc, kind, v, _ in res:
                if kind == "raise":
                    self.comp_raise(br, pc, v)
            good = [(mk_and(pc), v) for pc, kind, v, _ in res if kind == "ok" and v is not None]
            out.extend(self.join_branches(br, good, all(kind == "raise" or v is not None for _, kind, v, _ in res)))
        return out

    def comp_raise(self, br, pc, e):
        """A path of a comprehension raises: it must be impossible (or is propagated when handled)."""
        cond = mk_and([br.cond] + list(pc))
        if self.spec_mode or self.handled(e.exc):
            ex = z3.Exists(br.consts, cond) if br.consts else cond
            if self.spec_mode and self.excluded(cond):
                return
            if self.branch(ex):
                raise PyRaise(e.exc, e.what)
            return
        ex = z3.Exists(br.consts, cond) if br.consts else cond
        self.oblige(mk_not(ex), f"no {e.exc.__name__}: {e.what}")
        self.fact(mk_not(ex))

    def join_branches(self, br, good, total=False):
        """Combine the per-path results of one comprehension branch (``total``: every iteration takes one of these paths)."""
        if not good:
            return []
        if all(len(v) == 1 and not v[0].binders for _, v in good):
            guards = [mk_and([c, v[0].guard]) for c, v in good]
            try:
                val = self.merge_values([(mk_and([c, v[0].guard]), v[0].value) for c, v in good])
                if total and all(z3.is_true(v[0].guard) for _, v in good):
                    return [Branch(br.binders, br.guard, val)]
                g = mk_and([br.guard, z3.simplify(mk_or(guards)) if not any(has_quant(x) for x in guards) else mk_or(guards)])
                return [Branch(br.binders, g, val)]
            except Unsupported:
                pass
        if len(good) == 1:
            c, v = good[0]
            return [Branch(list(br.binders) + list(b.binders), mk_and([br.guard, c, b.guard]), b.value) for b in v] \
                if len(v) == 1 else self.multi_branch(br, good)
        # several paths: try to merge branch-wise when the shapes agree
        shapes = {tuple(tuple(id(x.const) for x in b.binders) for b in v) for _, v in good}
        if all(len(v) == 1 for _, v in good):
            # different inner domains on different paths: rename to one binder when sorts agree
            sorts = {tuple(str(x.const.sort()) for x in v[0].binders) for _, v in good}
            if len(sorts) == 1:
                base = good[0][1][0]
                consts = base.consts
                doms, guards, vals = [], [], []
                for c, v in good:
                    b = v[0]
                    pairs = [(x, y) for x, y in zip(b.consts, consts) if not x.eq(y)]
                    b = subst_consts(b, pairs)
                    guards.append(mk_and([c, b.cond]))
                    vals.append((mk_and([c, b.guard]), b.value))
                val = self.merge_values(vals)
                binders = [Bnd(x, z3.BoolVal(True), all(v[0].binders[k].ordered for _, v in good)) for k, x in enumerate(consts)]
                return [Branch(list(br.binders) + binders, mk_and([br.guard, mk_or(guards)]), val)]
        return self.multi_branch(br, good)

    def multi_branch(self, br, good):
        """Several inner branches per outer element (the order between them is per element)."""
        if br.binders and any(len(v) != 1 for _, v in good):
            out = []
            for c, v in good:
                for b in v:
                    nb = Branch(list(br.binders) + list(b.binders), mk_and([br.guard, c, b.guard]), b.value)
                    out.append(nb)
            self.reordered = True
            return out
        out = []
        for c, v in good:
            for b in v:
                out.append(Branch(list(br.binders) + list(b.binders), mk_and([br.guard, c, b.guard]), b.value))
        return out

    reordered = False

    # ------------------------------------------------------------------ top level

    def explore(self, run):
        """Run ``run`` on every path."""
        work = [[]]
        self.paths = 0
        while work:
            prefix = work.pop()
            self.reset_path()
            self.ctx = PathCtx(prefix)
            self.frame = None
            self.handler_stack = []
            try:
                run()
            except Infeasible:
                pass
            work.extend(self.ctx.alts)
            self.paths += 1
            if self.paths > self.max_paths:
                raise Unsupported("too many paths")


class StarArg(SV):
    """``*iterable`` of unknown length in a call."""

    __slots__ = ("it",)

    def __init__(self, it):
        self.it = it


def LocalListTuple(eng, n):
    items = []
    for x in n.elts:
        if isinstance(x, ast.Starred):
            for b in eng.plain_iter(eng.eval(x.value)).branches:
                items.append(("v", b.value) if not b.binders and z3.is_true(b.guard) else ("b", b))
        else:
            items.append(("v", eng.eval(x)))
    return LocalList(items)


# ----------------------------------------------------------------------------------------------------------- helpers


def addends(e):
    e = z3.simplify(e)
    if z3.is_add(e):
        return list(e.children())
    if is_zero(e):
        return []
    return [e]


def is_zero(e):
    return (z3.is_int_value(e) and e.as_long() == 0) or (z3.is_rational_value(e) and e.as_fraction() == 0)


def common_addends(x, y):
    xs, ys = addends(x), addends(y)
    common = []
    for t in list(xs):
        for k, u in enumerate(ys):
            if t.eq(u):
                common.append(t)
                xs = [z for z in xs if z is not t]
                del ys[k]
                break
    return common, xs, ys


def sum_terms(ts, sort):
    if not ts:
        return z3.RealVal(0) if sort == z3.RealSort() else z3.IntVal(0)
    out = ts[0]
    for t in ts[1:]:
        out = out + t
    return out


def split_kinds(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch == "(":
            depth += 1
        if ch == ")":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def subst_consts(b, pairs):
    """Rename the binder constants of a branch."""
    if not pairs:
        return b
    ren = {x.get_id(): y for x, y in pairs}
    nb = subst_branch(b, pairs)
    for bd in nb.binders:
        if bd.const.get_id() in ren:
            bd.const = ren[bd.const.get_id()]
    return nb


def is_simple(n):
    """Expressions whose evaluation cannot raise or have effects depending on earlier operands."""
    if isinstance(n, ast.Compare):
        return all(is_simple(x) for x in [n.left] + n.comparators) and not any(
            isinstance(o, (ast.In, ast.NotIn)) for o in n.ops
        )
    if isinstance(n, (ast.Name, ast.Constant)):
        return True
    if isinstance(n, ast.UnaryOp):
        return is_simple(n.operand)
    if isinstance(n, ast.BoolOp):
        return all(is_simple(x) for x in n.values)
    if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
        return is_simple(n.left) and is_simple(n.right)
    return False


def is_target(x, r):
    """Whether ``r`` is the object (or one of the objects) of a ``modifies`` clause."""
    if isinstance(x, tuple):
        return z3.substitute(x[1], (x[0], r))
    return r == x


def unwrap(func):
    while hasattr(func, "__wrapped__"):
        func = func.__wrapped__
    return func


def is_cached_property(a):
    return type(a).__name__ in ("cached_property", "threaded_cached_property") and hasattr(a, "func")


def is_boolish(v):
    return isinstance(v, (bool, SBool))


def is_num(v):
    return isinstance(v, (int, float, SNum)) or isinstance(v, (bool, SBool))


def is_str(v):
    return isinstance(v, (str, SStr))


def as_parts(v):
    if isinstance(v, str):
        return [v] if v else []
    return list(v.parts)


def is_set_value(v):
    return isinstance(v, (SSet, LocalSet, set, frozenset)) or hasattr(v, "vc_set") or (isinstance(v, SIter) and v.kind == "set")


def is_seq_value(v):
    return isinstance(v, (SSeq, LocalList, SIter, tuple, list))


def is_iterable_value(v):
    return isinstance(v, (SSeq, LocalList, SIter, tuple, list))


def has_sv(v):
    if isinstance(v, SV):
        return True
    if isinstance(v, (tuple, list)):
        return any(has_sv(x) for x in v)
    return False


def category(v):
    if is_num(v):
        return "num"
    if is_str(v):
        return "str"
    if isinstance(v, (SRef, EObj)):
        return "obj"
    if is_set_value(v):
        return "set"
    if is_seq_value(v) or isinstance(v, SCoords):
        return "seq"
    if v is None:
        return "none"
    return type(v).__name__


def is_injective(b, allocs=()):
    if not isinstance(b.value, SRef):
        return False
    if len(b.binders) == 1 and b.value.e.eq(b.binders[0].const):
        return True
    return b.value.e.decl().name() in allocs and all(any(c.eq(x) for x in b.value.e.children()) for c in b.consts)


def common_class(a, b):
    for c in a.__mro__:
        if issubclass(b, c):
            return c
    return object


def native_binop(op, a, b):
    import operator

    table = {
        ast.Add: operator.add,
        ast.Sub: operator.sub,
        ast.Mult: operator.mul,
        ast.Div: operator.truediv,
        ast.FloorDiv: operator.floordiv,
        ast.Mod: operator.mod,
        ast.Pow: operator.pow,
        ast.BitAnd: operator.and_,
        ast.BitOr: operator.or_,
        ast.BitXor: operator.xor,
    }
    return table[type(op)](a, b)


def describe(v):
    if isinstance(v, SV):
        return type(v).__name__ + (f"<{v.cls.__name__}>" if isinstance(v, (SRef, EObj)) else "")
    return type(v).__name__
