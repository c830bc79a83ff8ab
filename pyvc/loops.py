"""Loop rules: unbounded summaries of ``for`` and ``while`` loops.

The body is executed once for an arbitrary iteration, starting from an arbitrary value of every carried variable; the
summary is only accepted when the way each carried variable changes does not depend on the other iterations (sums,
conjunctions, disjunctions, extrema, appended elements, bulk writes) or when an invariant is given by the contract.
"""
from __future__ import annotations

import ast

import z3

from . import engine as E
from .maps import SMap, SPool
from .values import (
    NULL,
    Bnd,
    Branch,
    EObj,
    Infeasible,
    LocalList,
    LocalSet,
    Ref,
    SBool,
    SIter,
    SNum,
    SOpt,
    SRef,
    SV,
    Unsupported,
    free_consts,
    has_quant,
    mk_and,
    mk_ite,
    mk_not,
    mk_or,
    subst_branch,
    subst_value,
    to_real,
)

TRUE = z3.BoolVal(True)


class ReadsMutated(Unsupported):
    """The loop reads a collection that it changes."""


class Poison(object):
    """The items of a collection that a loop mutates: it may only be appended to."""

    def __init__(self, before=()):
        self.added = []
        self.before = before

    def append(self, x):
        self.added.append(x)

    def extend(self, xs):
        self.added.extend(xs)

    def _no(self, *a, **k):
        raise ReadsMutated("a collection that the loop mutates is read inside the loop")

    __iter__ = __len__ = __bool__ = __getitem__ = __setitem__ = insert = pop = _no


# ------------------------------------------------------------------------------------------------------------ for


def current(eng, key, like):
    if key in eng.heap:
        return eng.heap[key]
    return z3.Const("H0." + ".".join(key), like.sort())


def is_newborn(eng, ref, older=()):
    return z3.is_app(ref) and ref.decl().name() in eng.allocs and ref.decl().name() not in older


def only_newborn(eng, arr, start, older):
    try:
        return all(is_newborn(eng, w.value[0], older) for w in writes_of(eng, arr, start))
    except Unsupported:
        return False


def births_summary(eng, b, oks, keys, older):
    """What the fields of the objects hold that the iterations created: stated as facts (nothing else ever refers to them)."""
    for key in keys:
        for pc, v, eff in oks:
            if key not in eff.heap:
                continue
            start = keys[key]
            if start is None:
                start = current(eng, key, eff.heap[key])
            groups = {}
            for w in writes_of(eng, eff.heap[key], start):
                ref, val = w.value
                if not is_newborn(eng, ref, older):
                    continue
                if not all(any(c.eq(x) for x in ref.children()) for c in b.consts):
                    raise Unsupported("an object created before the loop")
                if w.consts:
                    raise Unsupported("bulk writes to created objects")
                groups.setdefault(ref.get_id(), (ref, []))[1].append((w.guard, val))
            for ref, ws in groups.values():
                cond, value = ws[-1]
                for g, x in reversed(ws[:-1]):
                    value = z3.If(g, x, value) if not z3.is_true(g) else x
                    cond = mk_or([cond, g])
                now = z3.Select(current(eng, key, eff.heap[key]), ref)
                body = mk_and([b.cond] + list(pc) + [cond])
                eng.fact(E.forall_pat(b.consts, z3.Implies(body, now == value), [ref]))


def exec_for(eng, s):
    fr = eng.frame
    k = fr.loop_count
    fr.loop_count += 1
    inv = loop_invariant(eng, k)
    source = eng.eval(s.iter)
    if inv is not None:
        return inv.exec_for(eng, s, source)
    it = eng.to_iter(source)
    body = list(s.body)
    broke = False
    for b in it.branches:
        if not b.binders:
            if not z3.is_true(b.guard) and not eng.branch(b.guard):
                continue
            eng.assign(s.target, b.value)
            try:
                eng.exec_body(body)
            except E.ContinueSignal:
                pass
            except E.BreakSignal:
                broke = True
                break
            continue
        if loop_branch(eng, s, b, body):
            broke = True
            break
    if not broke:
        eng.exec_body(s.orelse)


def loop_invariant(eng, k):
    c = eng.frame.contract
    if c is None or not getattr(c, "loops", None):
        return None
    return c.loops.get(k)


def loop_branch(eng, s, b, body):
    """One symbolic branch of a for loop.  True if the loop was left by ``break``."""
    fr = eng.frame
    assigned = E.assigned_names(body) | E.assigned_names([s.target])
    temps = E.assigned_names([s.target])
    inner = set()       # (names that loops inside the body may assign)
    for x in body:
        for y in ast.walk(x):
            if isinstance(y, (ast.For, ast.While)):
                inner |= E.assigned_names([y])
    carried = {}
    for n in sorted(assigned - temps):
        if n in fr.locals:
            carried[n] = fr.locals[n]
    scal, others = {}, []
    taken_out(eng, body, carried)
    for n, v in carried.items():
        sym = symbolic_like(eng, v, n)
        if sym is None:
            others.append(n)
        else:
            scal[n] = (v, sym)
    before = dict(fr.locals)

    def run():
        fr.locals = dict(before)
        for n in others:
            v = before[n]
            if not isinstance(v, (LocalList, LocalSet, SMap, SPool)):
                fr.locals.pop(n, None)
        for n, (_, sym) in scal.items():
            fr.locals[n] = sym
        n0 = len(fr.emitted)
        emitted = fr.emitted
        fr.emitted = []
        try:
            eng.assign(s.target, b.value)
            try:
                eng.exec_body(body)
            except (E.ContinueSignal, E.BreakSignal) as sig:
                sig.payload = (dict(fr.locals), fr.emitted)
                raise
            return dict(fr.locals), fr.emitted
        finally:
            fr.emitted = emitted

    saved_obl = len(eng.obligations)
    doms = [b.cond] if not z3.is_true(b.cond) else []
    # pass 1: what does the body mutate?
    older = set(eng.allocs)
    quiet = eng.quiet
    eng.quiet += 1
    try:
        res = eng.sub_explore(run, b.consts, doms, effects=True)
    finally:
        eng.quiet = quiet
    first = res
    mutated = set()
    heapkeys = set()
    for r in res:
        if r[1] == "ok":      # (the iteration that leaves the loop is executed on its own)
            mutated |= set(r[3].deltas)
            heapkeys |= r[3].written
    # (fields of objects that the iteration creates itself, and of no other ones, need no summary)
    own = {k for k in heapkeys if all(r[1] != "ok" or k not in r[3].written or only_newborn(eng, r[3].heap[k], current(eng, k, r[3].heap[k]), older)
                                      for r in first)}
    heapkeys -= own
    # pass 2: for an arbitrary iteration
    mids = {}
    try:
        res = eng.sub_explore(run, b.consts, doms, effects=True, poison=mutated, havoc=heapkeys, mids=mids)
    except ReadsMutated:
        fr.locals = before
        res = with_seen_sets(eng, b, run, doms, mutated, heapkeys, first, mids)
    fr.locals = before
    carried_names = set()
    for n, (_, sym) in scal.items():
        for t in eng.value_terms(sym):
            carried_names |= free_consts(t)
    mid_names = {m.decl().name() for m in mids.values()}
    for pc, kind, v, eff in res:
        if kind == "raise":
            eng.comp_raise(b, pc, v)
    stops = [(pc, kind, v, eff) for pc, kind, v, eff in res if kind in ("return", "break")]
    oks = [(pc, v, eff) for pc, kind, v, eff in res if kind == "ok"]
    for pc, *_ in res:
        for c in pc:
            if free_consts(c) & mid_names:
                raise Unsupported("loop reads a field that it writes")

    if stops:
        stop = mk_or([mk_and(pc) for pc, *_ in stops])
        if free_consts(stop) & carried_names:
            raise Unsupported("the loop exit depends on earlier iterations")
        found = eng.exists_branch(b, stop)
        if eng.branch(found):
            ren = [(c, eng.fresh_param(c.sort(), "at")) for c in b.consts]
            wb = subst_branch(b, ren)
            eng.ctx.pc.append(mk_and([wb.cond, z3.substitute(stop, *ren)]))
            ordered = all(x.ordered for x in b.binders)
            if ordered:
                pre = E_lex(b, ren)
                eng.fact(eng.forall_branch(Branch(b.binders, mk_and([b.guard, pre]), None), mk_not(stop)))
                prefix = Branch(b.binders, mk_and([b.guard, pre]), b.value)
            else:
                prefix = None
            if any(has_effect(eng, scal, v, eff) for pc, v, eff in oks):
                if prefix is None:
                    raise Unsupported("effects before the exit of an unordered loop")
                apply_summary(eng, prefix, scal, others, oks, before, mids, carried_names, older, inner)
            else:
                drop(eng, others, before, oks, inner)
            eng.assign(s.target, wb.value)
            try:
                eng.exec_body(body)
            except E.BreakSignal:
                return True
            except E.ContinueSignal:
                raise Infeasible()
            raise Infeasible()
        eng.fact(eng.forall_branch(b, mk_not(stop)))
    apply_summary(eng, b, scal, others, oks, before, mids, carried_names, older, inner)
    for n in temps | (assigned - set(before)):
        fr.locals.pop(n, None)
    return False


def taken_out(eng, body, carried):
    """Sets that the loop takes elements out of are kept as pools."""
    import ast

    names = set()
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Sub) and isinstance(x.target, ast.Name):
                names.add(x.target.id)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("remove", "discard", "difference_update") \
                    and isinstance(x.func.value, ast.Name):
                names.add(x.func.value.id)
    if eng.binders or eng.ctx.parent is not None:
        return
    for n in names:
        fr = eng.frame
        v = eng.deref(fr.locals.get(n))
        if not isinstance(v, LocalSet) or v.moved is not None:
            continue
        kind = eng.set_elem_kind(v) if v.items else None
        if kind is None or not kind.startswith("ref:"):
            continue
        cls = eng.cls_of(kind[4:])
        if any("__eq__" in c.__dict__ for c in cls.__mro__ if c is not object):
            continue
        s = eng.as_set(v)
        pool = SPool(eng, cls).holding(eng, s.mem)
        v.moved = lambda pool=pool: pool
        for m, w in list(fr.locals.items()):
            if w is v:
                fr.locals[m] = pool
        if n in carried:
            carried[n] = pool


def with_seen_sets(eng, b, run, doms, mutated, heapkeys, first, mids):
    """The rule for sets that collect what was visited: ``if x not in seen: seen.add(x); ...``.

    Candidate invariant: before an iteration such a set holds its initial elements and the values added (or found to be
    there already) by every earlier iteration.  It is checked here for an arbitrary iteration; when it cannot be shown the
    loop is not supported.
    """
    from . import values as V

    if not all(x.ordered for x in b.binders):
        raise Unsupported("a set that the loop reads and changes, in no particular order")
    consts = {c.decl().name() for c in b.consts}
    given, value = {}, {}
    for _, kind, _, eff in first:
        for i, (obj, added) in eff.deltas.items():
            if not isinstance(obj, LocalSet):
                continue
            if len(added) != 1 or added[0][0] != "v" or (i in value and not value[i].eq(eng.raw(added[0][1]))):
                raise Unsupported("a set that the loop reads and changes in several ways")
            value[i] = eng.raw(added[0][1])
            given[i] = added[0][1]
    ren = [(c, z3.Const(f"y!{next(eng.counter)}", c.sort())) for c in b.consts]
    earlier = subst_branch(b, ren)
    dom = [E.Bnd(n, x.dom, x.ordered) for x, (_, n) in zip(earlier.binders, ren)]
    guard = mk_and([earlier.guard, E_lex_terms([n for _, n in ren], [c for c, _ in ren])])
    start = {}
    for i in value:
        start[i] = list(V.LIVE[i].items) + [("b", Branch(dom, guard, subst_value(given[i], ren)))]
    res = eng.sub_explore(run, b.consts, doms, effects=True, poison=set(mutated) - set(value), havoc=heapkeys, mids=mids, given=start)
    for pc, kind, v, eff in res:
        for i, val in value.items():
            added = eff.deltas.get(i, (None, []))[1]
            if added:
                if len(added) != 1 or added[0][0] != "v" or not eng.raw(added[0][1]).eq(val):
                    raise Unsupported("a set that the loop reads and changes in several ways")
                continue
            if kind != "ok":
                continue
            probe = LocalSet(start[i])
            V.LIVE.pop()
            there = eng.local_set_mem(probe, val)
            if not entailed(eng, doms + list(pc), there):
                raise Unsupported("no invariant for a set that the loop reads and changes")
            # as if it had been added again
            eff.deltas[i] = (V.LIVE[i], [("v", given[i])])
    return res


def E_lex_terms(cs, ts):
    from .builtins_model import lex_before

    return lex_before(cs, ts)


def entailed(eng, hyps, goal):
    s = z3.Solver()
    s.set("timeout", 4000)
    s.add(*eng.axioms, *eng.all_pc(), *hyps)
    s.add(mk_not(goal))
    eng.solver_calls += 1
    return s.check() == z3.unsat


def E_lex(b, ren):
    from .builtins_model import lex_before

    return lex_before([c for c, _ in ren], [t for _, t in ren])


def has_effect(eng, scal, v, eff):
    locs, emitted = v
    if emitted or eff.deltas or eff.written:
        return True
    for n, (_, sym) in scal.items():
        if locs.get(n) is not sym:
            return True
    return False


def drop(eng, others, before, oks, inner):
    fr = eng.frame
    for n in others:
        if any(v[0][n] is not before[n] if n in v[0] else n in inner for _, v, _ in oks):
            fr.locals.pop(n, None)


def symbolic_like(eng, v, name):
    """A symbol for an arbitrary value of a carried variable, or None."""
    if isinstance(v, (bool, SBool)):
        return SBool(eng.fresh_const(z3.BoolSort(), f"loop.{name}"))
    if isinstance(v, int) or (isinstance(v, SNum) and v.is_int):
        return SNum(eng.fresh_const(z3.IntSort(), f"loop.{name}"))
    if isinstance(v, (float, SNum)):
        return SNum(eng.fresh_const(z3.RealSort(), f"loop.{name}"))
    if isinstance(v, tuple) and v and all(E.is_num(x) and not E.is_boolish(x) for x in v):
        return tuple(symbolic_like(eng, x, f"{name}.{k}") for k, x in enumerate(v))
    return None


def apply_summary(eng, b, scal, others, oks, before, mids, carried_names, older=(), inner=frozenset()):
    fr = eng.frame
    for n, (init, sym) in scal.items():
        news = [(mk_and(pc), v[0].get(n, sym)) for pc, v, _ in oks]
        if not news:
            continue
        if any(n not in v[0] for _, v, _ in oks):
            fr.locals.pop(n, None)
            continue
        if all(x is sym for _, x in news):
            fr.locals[n] = init
            continue
        try:
            fr.locals[n] = fold_value(eng, b, init, sym, news, carried_names)
        except Unsupported:      # (its value after the loop is not known: a later use of it is out of reach)
            fr.locals.pop(n, None)
    for n in others:
        v = before[n]
        if any(vv[0][n] is not v if n in vv[0] else n in inner for _, vv, _ in oks):
            fr.locals.pop(n, None)
    # emitted elements
    if any(v[1] for _, v, _ in oks):
        check_independent([(pc, v[1]) for pc, v, _ in oks], carried_names, mids)
        good = [(mk_and(pc), v[1]) for pc, v, _ in oks if v[1]]
        fr.emitted.extend(eng.join_branches(b, good, len(good) == len(oks)))
    # appended elements
    muts = {}
    for pc, v, eff in oks:
        for i, (obj, added) in eff.deltas.items():
            muts.setdefault(i, (obj, []))[1].append((pc, added))
    for obj, contribs in muts.values():
        good = []
        for pc, added in contribs:
            brs = [Branch([], TRUE, x) if t == "v" else x for t, x in added]
            check_independent([(pc, brs)], carried_names, mids)
            good.append((mk_and(pc), brs))
        if obj.moved is not None:
            raise Unsupported("mutation of a stored collection in a loop")
        obj.items.extend(("b", x) for x in eng.join_branches(b, good, len(contribs) == len(oks)))
    # bulk writes
    if mids:
        bulk_writes(eng, b, oks, mids, carried_names, older)
    keys = {k: None for pc, v, eff in oks for k in eff.written if k not in mids}
    if keys:
        bad = set(carried_names) | {m.decl().name() for m in mids.values()}
        for pc, v, eff in oks:
            for k in eff.written & set(keys):
                for w in writes_of(eng, eff.heap[k], current(eng, k, eff.heap[k])):
                    if not is_newborn(eng, w.value[0], older):
                        raise Unsupported("a loop writes fields in a way that was not foreseen")
                    if any(free_consts(t) & bad for t in list(w.value) + [w.guard] + list(pc)):
                        raise Unsupported("an iteration depends on earlier ones")
        births_summary(eng, b, oks, keys, older)


def check_independent(contribs, names, mids):
    bad = set(names) | {m.decl().name() for m in mids.values()}
    if not bad:
        return
    for pc, brs in contribs:
        for c in pc:
            if free_consts(c) & bad:
                raise Unsupported("an iteration depends on earlier ones")
        for br in brs:
            for t in terms_of(br.value) + [br.guard]:
                if free_consts(t) & bad:
                    raise Unsupported("an iteration depends on earlier ones")


def terms_of(v):
    if isinstance(v, (SNum, SBool, SRef)):
        return [v.e]
    if isinstance(v, tuple):
        return [t for x in v for t in terms_of(x)]
    if isinstance(v, SOpt):
        return [v.isnone] + terms_of(v.val)
    if hasattr(v, "e"):
        return [v.e]
    return []


def writes_of(eng, arr, mid):
    """[Branch(binders, condition, (reference, value))]: the writes that turn ``mid`` into ``arr``, latest first."""
    out = []
    while not arr.eq(mid):
        if z3.is_store(arr):
            out.append(Branch([], TRUE, (arr.arg(1), arr.arg(2))))
            arr = arr.arg(0)
        elif z3.is_app(arr) and arr.decl().name() in eng.bulk:
            old, cases, params = eng.bulk[arr.decl().name()]
            pairs = [(p, a) for p, a in zip(params, arr.children()) if not p.eq(a)]
            out.extend(subst_raw(c, pairs) for c in cases)
            arr = z3.substitute(old, *pairs) if pairs else old
        else:
            raise Unsupported("bulk write")
    return out


def subst_raw(b, pairs):
    if not pairs:
        return b
    nb = subst_branch(Branch(b.binders, b.guard, None), pairs)
    return Branch(nb.binders, nb.guard, tuple(z3.substitute(x, *pairs) for x in b.value))


def bulk_writes(eng, b, oks, mids, carried_names, older=()):
    bad = set(carried_names) | {m.decl().name() for m in mids.values()}
    names = {c.decl().name() for c in b.consts}
    for key, mid in mids.items():
        cases = []
        for pc, v, eff in oks:
            writes = writes_of(eng, eff.heap[key], mid)
            writes, newborn = [w for w in writes if not is_newborn(eng, w.value[0], older)], [w for w in writes if is_newborn(eng, w.value[0], older)]
            for w in newborn:
                if any(free_consts(t) & bad for t in list(w.value) + [w.guard] + list(pc)):
                    raise Unsupported("an iteration depends on earlier ones")
            for w in writes:
                for t in list(w.value) + [w.guard] + [x.dom for x in w.binders] + list(pc):
                    if free_consts(t) & bad:
                        raise Unsupported("an iteration depends on earlier ones")
            if len({w.value[1].get_id() for w in writes}) > 1:
                raise Unsupported("several writes to one field in an iteration")
            for w in writes:
                cases.append(Branch(list(b.binders) + list(w.binders), mk_and([b.guard, mk_and(pc), w.guard]), w.value))
        if eng.pools.get(key[0]) == "strict":
            removed_once(eng, b, cases)
        store_all(eng, key, cases, names)
        births_summary(eng, b, oks, {key: mid}, older)
        if "#clean." not in key[1]:
            eng.heap_version += 1000003 + next(eng.counter)


def store_all(eng, key, cases, names=frozenset()):
    """Many writes to a field at once: of (reference, value) for every branch."""
    old = eng.heap[key]
    r = z3.Const(f"r!{next(eng.counter)}", Ref)
    out = z3.Select(old, r)
    for w in cases:
        ref, val = w.value
        if free_consts(val) & {c.decl().name() for c in w.consts}:
            if len(w.consts) == 1 and ref.eq(w.consts[0]) and free_consts(val) & names:
                val = z3.substitute(val, (w.consts[0], r))
            else:
                raise Unsupported("bulk write of a value that depends on the iteration")
        elif len({c.value[1].get_id() for c in cases}) > 1:
            raise Unsupported("bulk writes of different values")
        hit = eng.exists_branch(w, ref == r)
        out = z3.If(hit, val, out)
    params = list(eng.binders)
    new = eng.fresh_param(old.sort(), "bulk." + ".".join(key), params)
    eng.fact(z3.ForAll([r], z3.Select(new, r) == out, patterns=[z3.Select(new, r)]))
    for w in cases:
        ref, val = w.value
        if w.consts and not free_consts(val) & {c.decl().name() for c in w.consts} \
                and {c.decl().name() for c in w.consts} <= free_consts(ref) and not z3.is_const(ref):
            eng.fact(E.forall_pat(w.consts, z3.Implies(w.cond, z3.Select(new, ref) == val), [ref]))
    eng.bulk[new.decl().name()] = (old, cases, params)
    eng.heap[key] = new


def removed_once(eng, b, cases):
    """No iteration takes out of a set what another one has taken out."""
    if any(not z3.is_false(w.value[1]) for w in cases):
        raise Unsupported("a loop that adds to a set and takes out of it")
    k = len(b.consts)
    for w in cases:
        for u in cases:
            ren = [(c, z3.Const(f"other!{next(eng.counter)}", c.sort())) for c in u.consts]
            v = subst_raw(u, ren)
            mine, theirs = w.consts[:k], [n for _, n in ren[:k]]
            same = mk_and([x == y for x, y in zip(mine, theirs)])
            goal = z3.Implies(z3.And(w.cond, v.cond, z3.Not(same)), w.value[0] != v.value[0])
            vs = list(w.consts) + [n for _, n in ren]
            eng.oblige(z3.ForAll(vs, goal), "no iteration takes out of the set what another one has taken out")


# ------------------------------------------------------------------------------------------------------------ folds


def fold_value(eng, b, init, sym, news, carried_names):
    if isinstance(sym, tuple):
        out = []
        for k in range(len(sym)):
            comp = []
            for c, v in news:
                if not isinstance(v, tuple) or len(v) != len(sym):
                    raise Unsupported("a tuple changes its length in a loop")
                comp.append((c, v[k]))
            out.append(fold_value(eng, b, init[k], sym[k], comp, carried_names))
        return tuple(out)
    new = eng.merge_values(news)
    if isinstance(sym, SBool):
        e = eng.zbool(new)
        ft = z3.simplify(z3.substitute(e, (sym.e, z3.BoolVal(True)))) if not has_quant(e) else z3.substitute(e, (sym.e, z3.BoolVal(True)))
        ff = z3.simplify(z3.substitute(e, (sym.e, z3.BoolVal(False)))) if not has_quant(e) else z3.substitute(e, (sym.e, z3.BoolVal(False)))
        others = carried_names - {sym.e.decl().name()}
        for f in (ft, ff):
            if free_consts(f) & others:
                raise Unsupported("a flag depends on other loop variables")
        start = eng.zbool(init)
        if z3.is_false(ff):
            return SBool(mk_and([start, eng.forall_branch(b, ft)]))
        if z3.is_true(ft):
            return SBool(mk_or([start, eng.exists_branch(b, ff)]))
        raise Unsupported("a flag is overwritten in a loop")
    if isinstance(sym, SNum):
        e = eng.znum(new)
        old = sym.e
        if not z3.is_int(e) and z3.is_int(old):
            old = z3.ToReal(old)
        delta = split_delta(e, old, sym.e)
        if delta is not None and not (free_consts(delta) & carried_names):
            return eng.sum_of(SIter([Branch(b.binders, b.guard, SNum(delta))]), SNum(eng.znum(init)))
        prod = fold_product(eng, b, init, sym, e, carried_names)
        if prod is not None:
            return prod
        return fold_extremum(eng, b, init, sym, e, carried_names)
    raise Unsupported("loop variable")


def fold_product(eng, b, init, sym, e, carried_names):
    from .builtins_model import product_of

    if not z3.is_int(e) or not z3.is_int(sym.e):
        return None
    factor = z3.simplify(z3.substitute(e, (sym.e, z3.IntVal(1))))
    if free_consts(factor) & carried_names or not z3.is_true(z3.simplify(z3.simplify(sym.e * factor) == z3.simplify(e))):
        return None
    return SNum(z3.simplify(eng.znum(init) * product_of(eng, b, factor)))


def split_delta(e, old, var):
    """e - old with the loop variable cancelled, also below if-then-else."""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        c, x, y = e.children()
        if var.decl().name() in free_consts(c):
            return None
        dx, dy = split_delta(x, old, var), split_delta(y, old, var)
        if dx is None or dy is None:
            return None
        return mk_ite(c, dx, dy)
    d = z3.simplify(e - old)
    if var.decl().name() in free_consts(d):
        return None
    return d


def fold_extremum(eng, b, init, sym, e, carried_names):
    if not (z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE):
        raise Unsupported("a number changes in a way that depends on earlier iterations")
    c, x, y = e.children()
    v = sym.e
    for t, flip in ((x, False), (y, True)):
        o = y if not flip else x
        if not z3.simplify(o).eq(v) or v.decl().name() in free_consts(t) or free_consts(t) & carried_names:
            continue
        cond = c if not flip else z3.Not(c)
        for is_max in (True, False):
            s = z3.Solver()
            s.set("timeout", 500)
            strict = t > v if is_max else t < v
            weak = t >= v if is_max else t <= v
            s.add(z3.Or(z3.And(strict, z3.Not(cond)), z3.And(cond, z3.Not(weak))))
            if s.check() == z3.unsat:
                it = SIter([Branch([], TRUE, SNum(eng.znum(init))), Branch(b.binders, b.guard, SNum(t))])
                return eng.extremum(it, is_max, None, False)
    raise Unsupported("a number changes in a way that depends on earlier iterations")


def fold(eng, it, init, step):
    """functools.reduce(f, it, init)."""
    acc = init
    for b in it.branches:
        if not b.binders:
            if not z3.is_true(b.guard):
                new = eng.in_scope(Branch([], b.guard, None), lambda: step(acc, b.value))
                acc = eng.ite(b.guard, new, acc)
            else:
                acc = step(acc, b.value)
            continue
        sym = symbolic_like(eng, acc, "acc")
        if sym is None:
            raise Unsupported("reduce over this kind of value")
        names = set()
        for t in eng.value_terms(sym):
            names |= free_consts(t)
        res = eng.sub_explore(lambda: step(sym, b.value), b.consts, [b.cond])
        news = []
        for pc, kind, v, _ in res:
            if kind == "raise":
                eng.comp_raise(b, pc, v)
                continue
            news.append((mk_and(pc), v))
        if not news:
            continue
        acc = fold_value(eng, b, acc, sym, news, names)
    return acc


# ------------------------------------------------------------------------------------------------------------ while


def exec_while(eng, s):
    fr = eng.frame
    k = fr.loop_count
    fr.loop_count += 1
    inv = loop_invariant(eng, k)
    if inv is not None:
        return inv.exec_while(eng, s)
    # loops that are decided by concrete values are executed
    for _ in range(40):
        v = test_of(eng, s)
        t = eng.truth(v)
        if isinstance(t, z3.ExprRef):
            t = z3.simplify(t)
            t = True if z3.is_true(t) else False if z3.is_false(t) else t
        if not isinstance(t, bool):
            break
        if not t:
            eng.exec_body(s.orelse)
            return
        try:
            eng.exec_body(s.body)
        except E.BreakSignal:
            return
        except E.ContinueSignal:
            pass
    return walk(eng, s)


def test_of(eng, s):
    """The condition of a loop; its paths are kept apart (as they are in code) so that equal walks get equal symbols."""
    eng.no_join += 1
    try:
        return eng.eval(s.test)
    finally:
        eng.no_join -= 1


def walk(eng, s):
    """``while cond(c): acc += f(c); c = next(c)`` over object references."""
    fr = eng.frame
    assigned = E.assigned_names(s.body)
    carried = {n: fr.locals[n] for n in sorted(assigned) if n in fr.locals}
    cursors = {n: v for n, v in carried.items() if isinstance(v, SRef)}
    if len(cursors) != 1 or s.orelse:
        raise Unsupported("while loop without an invariant")
    cname, start = next(iter(cursors.items()))
    scal = {}
    for n, v in carried.items():
        if n == cname:
            continue
        sym = symbolic_like(eng, v, n)
        if sym is None:
            raise Unsupported("while loop variable")
        scal[n] = (v, sym)
    c = z3.Const(f"cur!{next(eng.counter)}", Ref)
    cur = SRef(c, start.cls, False)
    before = dict(fr.locals)

    def setup():
        fr.locals = dict(before)
        fr.locals[cname] = cur
        for n, (_, sym) in scal.items():
            fr.locals[n] = sym

    def test():
        setup()
        t = eng.truth(test_of(eng, s))
        return SBool(z3.BoolVal(t) if isinstance(t, bool) else t)

    dom = c != NULL
    eng.assumptions.add(
        f"the walk over previous stops in {fr.name} ends and never leaves the route (its stops form a chain)"
    )
    nbr = Branch([Bnd(c, dom, False)], TRUE, None)
    saved, eng.quiet = eng.quiet, eng.quiet + 1
    try:
        cond = eng.zbool(no_raise_scope(eng, nbr, test))

        def run():
            setup()
            eng.exec_body(s.body)
            return dict(fr.locals)

        res = eng.sub_explore(run, [c], [dom, cond])
    finally:
        eng.quiet = saved
        fr.locals = before
    oks = []
    for pc, kind, v, _ in res:
        if kind == "raise":
            continue  # leaving the chain: excluded by the recorded assumption
        if kind != "ok":
            raise Unsupported("exit from a walk")
        oks.append((mk_and(pc), v))
    if not oks:
        raise Unsupported("walk")
    names = {t.decl().name() for _, sym in scal.values() for t in eng.value_terms(sym)}
    nxt = eng.merge_values([(pc, v[cname]) for pc, v in oks])
    if not isinstance(nxt, SRef):
        raise Unsupported("walk step")
    if (free_consts(cond) | free_consts(nxt.e)) & names:
        raise Unsupported("a walk that depends on its accumulators")
    st = Branch([], TRUE, start)
    for n, (init, sym) in scal.items():
        new = eng.merge_values([(pc, v[n]) for pc, v in oks])
        if new is sym:
            continue
        if not isinstance(sym, SNum):
            raise Unsupported("walk accumulator")
        e = eng.znum(new)
        old = sym.e
        if not z3.is_int(e) and z3.is_int(old):
            old = z3.ToReal(old)
        delta = split_delta(e, old, sym.e)
        if delta is None or free_consts(delta) & names:
            raise Unsupported("walk accumulator")
        fr.locals[n] = SNum(E.Engine.add_terms(eng.znum(init), walk_sum(eng, st, c, dom, cond, nxt, delta)))
    end = eng.aggregate("walkend", SIter([st, Branch([Bnd(c, dom, False)], cond, (nxt,))]), Ref)
    eng.fact(z3.And(end != NULL, mk_not(z3.substitute(cond, (c, end)))))
    fr.locals[cname] = SRef(end, nxt.cls, False)


def walk_sum(eng, st, c, dom, cond, nxt, delta):
    """Sum of a term along a walk (linear in the term)."""
    delta = z3.simplify(to_real(delta))
    if z3.is_add(delta):
        total = None
        for t in delta.children():
            x = walk_sum(eng, st, c, dom, cond, nxt, t)
            total = x if total is None else total + x
        return total
    if z3.is_mul(delta) and delta.num_args() == 2 and z3.is_rational_value(delta.arg(0)):
        return delta.arg(0) * walk_sum(eng, st, c, dom, cond, nxt, delta.arg(1))
    it = SIter([st, Branch([Bnd(c, dom, False)], cond, (nxt, SNum(delta)))])
    return eng.aggregate("walk", it, z3.RealSort())


def no_raise_scope(eng, b, fn):
    res = eng.sub_explore(fn, b.consts, [b.cond])
    good = [(mk_and(pc), v) for pc, kind, v, _ in res if kind == "ok"]
    bad = [mk_and(pc) for pc, kind, v, _ in res if kind == "raise"]
    if not good:
        raise Unsupported("walk condition")
    v = eng.merge_values(good)
    if bad:
        v = SBool(mk_and([mk_not(mk_or(bad)), eng.zbool(v)]))
    return v


# ------------------------------------------------------------------------------------------------------------ invariants


class Invariant(object):
    """A loop invariant over named local variables.

    ``kinds``: {local name: kind} of the variables the loop changes (a kind may be a function of the engine); collections
    the loop changes in place are named too.  ``invs``: [(label, specification function)] whose parameters are names of
    locals (plus ``i`` and ``n``, the completed and total number of iterations of a for loop).  The loop may change nothing
    else: that is checked.
    """

    def __init__(self, kinds, invs, heap=(), ghosts=None, maps=()):
        self.kinds, self.invs = kinds, invs
        self.ghosts = ghosts or {}     # {name of a ghost record: {attribute: kind}} that the loop changes
        self.own_maps = list(maps)     # fn(eng) -> a mapping (SMap) that the loop changes
        self.modifies = list(heap)     # what the loop may change: as the ``modifies`` of a contract

    def binding(self, eng, fn, extra):
        import inspect

        names = list(inspect.signature(fn).parameters)
        if getattr(fn, "engine_level", False):
            names = names[1:]
        out = {}
        for n in names:
            if n in extra:
                out[n] = extra[n]
            elif n in eng.ghosts and n not in eng.frame.locals:
                out[n] = eng.ghosts[n]
            else:
                out[n] = eng.frame.lookup(n)
        return out

    def check(self, eng, when, extra):
        for label, fn in self.invs:
            eng.oblige(eng.spec_bool(fn, self.binding(eng, fn, extra)), f"loop invariant {when}: {label}")

    def assume(self, eng, extra):
        for label, fn in self.invs:
            eng.fact(eng.spec_bool(fn, self.binding(eng, fn, extra), assume=True))

    def havoc(self, eng, body):
        from . import values as V

        if eng.binders or eng.ctx.parent is not None:
            raise Unsupported("a loop with an invariant inside a loop or expression")
        later = eng.fresh_const(z3.IntSort(), "births")
        eng.fact(later >= eng.births)
        eng.births = later
        fr = eng.frame
        names = E.assigned_names(body)
        self.own = set()
        self.maps = set()
        for n in names:
            if n in self.kinds:
                fr.locals[n] = self.arbitrary(eng, n)
            elif n in fr.locals:
                del fr.locals[n]
        for n, kind in self.kinds.items():
            if n in names:
                continue
            if n not in fr.locals:
                raise Unsupported(f"no variable {n}")
            old = fr.locals[n]
            if any(v is old for m, v in fr.locals.items() if m != n) or any(v is old for o in V.LIVE for v in vars_of(o)):
                raise Unsupported(f"{n} is shared")
            fr.locals[n] = self.arbitrary(eng, n)
            self.own.add(id(fr.locals[n]))
        for fn in self.own_maps:
            m = fn(eng)
            m.arbitrary(eng)
            self.maps.add(m.name)
        for g, attrs in self.ghosts.items():
            o = eng.ghosts[g]
            for a, kind in attrs.items():
                o.attrs[a] = eng.fresh(kind, f"ghost.{a}")
            self.own.add(id(o))
        self.before = dict(eng.heap)
        self.targets = eng.modified_objects(self, {**eng.ghosts, **fr.locals})
        if eng.tracking and not eng.coherent:
            raise Unsupported("a loop with an invariant while stored values are outdated")
        if self.targets:
            eng.havoc_fields(self.targets)
        self.heap = (dict(eng.heap), eng.heap_version)
        self.live = [(o, E.snapshot(o)) for o in V.LIVE if id(o) not in self.own]
        self.trace = len(eng.trace)

    def arbitrary(self, eng, n):
        new = self.arbitrary0(eng, n)
        if isinstance(new, SMap):
            self.maps.add(new.name)
        return new

    def arbitrary0(self, eng, n):
        """An arbitrary value of the kind of a loop variable; its initial value must be of that kind."""
        kind, old = self.kinds[n], eng.frame.locals.get(n)
        new = kind(eng) if callable(kind) else eng.fresh(kind, f"loop.{n}")
        ok = getattr(kind, "accepts", None)
        if ok is not None:
            good = isinstance(eng.deref(old), ok) if isinstance(ok, (type, tuple)) else ok(eng.deref(old))
        else:
            good = old is None or E.category(old) == E.category(new) or isinstance(new, SOpt)
        if not good:
            raise Unsupported(f"the loop variable {n} is of another kind")
        return new

    def frame(self, eng):
        """Nothing but the declared variables changed."""
        for key in set(eng.heap) | set(self.before):
            if key[0].startswith("map!") and key[0] not in self.maps:
                if key not in eng.heap or (key in self.before and not eng.heap[key].eq(self.before[key])):
                    raise Unsupported("a loop with an invariant changes a dict")
        if (eng.heap_version != self.heap[1] and not self.targets) or len(eng.trace) != self.trace:
            raise Unsupported("a loop with an invariant changes objects")
        if eng.tracking and not eng.coherent:
            raise Unsupported("a loop with an invariant leaves stored values outdated")
        if self.targets and eng.heap_version != self.heap[1]:
            eng.check_frame(self.before, self.targets, "in the loop, ")
        for o, st in self.live:
            new = E.snapshot(o)
            if isinstance(st, dict):
                if isinstance(o, EObj):
                    if not eng.benign_attrs(o, st, new):
                        raise Unsupported("a loop with an invariant changes an object")
                elif new != st:
                    raise Unsupported("a loop with an invariant changes a dict")
            elif len(st[0]) != len(new[0]) or any(a is not b for a, b in zip(st[0], new[0])):
                raise Unsupported("a loop with an invariant changes another collection")

    def exec_while(self, eng, s):
        self.check(eng, "holds initially", {})
        eng.havoc_trace()
        self.havoc(eng, s.body)
        self.assume(eng, {})
        if eng.branch(eng.truth(eng.eval(s.test))):
            try:
                eng.exec_body(s.body)
            except E.ContinueSignal:
                pass
            except E.BreakSignal:
                self.frame(eng)
                return
            self.frame(eng)
            self.check(eng, "is preserved", {})
            raise Infeasible()
        eng.exec_body(s.orelse)

    def exec_for(self, eng, s, source):
        fr = eng.frame
        source = eng.deref(source)
        if hasattr(source, "vc_next"):
            return self.exec_iterator(eng, s, source)
        it = eng.to_iter(source)
        if len(it.branches) == 1 and len(it.branches[0].binders) == 1 and not it.branches[0].binders[0].ordered \
                and z3.eq(it.branches[0].consts[0].sort(), E.Ref):
            return self.exec_unordered(eng, s, it.branches[0])
        if len(it.branches) == 1 and len(it.branches[0].binders) > 1 and not all(x.ordered for x in it.branches[0].binders):
            return self.exec_some(eng, s, it.branches[0])
        seq = eng.to_seq(source)
        n = SNum(seq.length)
        self.check(eng, "holds initially", {"i": SNum(z3.IntVal(0)), "n": n})
        eng.havoc_trace()
        self.havoc(eng, s.body)
        i = eng.fresh_const(z3.IntSort(), "iter")
        eng.fact(z3.And(i >= 0, i <= seq.length))
        self.assume(eng, {"i": SNum(i), "n": n})
        if eng.branch(i < seq.length):
            eng.assign(s.target, seq.get(i))
            try:
                eng.exec_body(s.body)
            except E.ContinueSignal:
                pass
            except E.BreakSignal:
                self.frame(eng)
                return
            self.frame(eng)
            self.check(eng, "is preserved", {"i": SNum(i + 1), "n": n})
            raise Infeasible()
        for x in E.assigned_names([s.target]):
            fr.locals.pop(x, None)
        eng.exec_body(s.orelse)

    def exec_unordered(self, eng, s, b):
        """A loop over the elements of a set in some order; ``seen`` is the set of those already visited."""
        from .values import SSet

        c = b.consts[0]
        dom = lambda x: z3.substitute(b.cond, (c, x))
        seen_by = lambda mem: {"seen": SSet(mem, "ref")}
        self.check(eng, "holds initially", seen_by(lambda x: z3.BoolVal(False)))
        eng.havoc_trace()
        self.havoc(eng, s.body)
        arr = eng.fresh_const(z3.ArraySort(E.Ref, z3.BoolSort()), "seen")
        seen = lambda x: z3.Select(arr, x)
        x = z3.Const(f"x!{next(eng.counter)}", E.Ref)
        eng.fact(E.forall_pat([x], z3.Implies(seen(x), dom(x)), [seen(x)]))
        self.assume(eng, seen_by(seen))
        cur = eng.fresh_const(E.Ref, "visited")
        if eng.branch(eng.fresh_const(z3.BoolSort(), "another")):
            eng.fact(z3.And(dom(cur), z3.Not(seen(cur))))
            eng.assign(s.target, subst_branch(b, [(c, cur)]).value)
            eng.frame.locals["#visited"] = E.SRef(cur, object)
            eng.frame.locals["#seen"] = SSet(seen, "ref")
            try:
                eng.exec_body(s.body)
            except E.ContinueSignal:
                pass
            except E.BreakSignal:
                self.frame(eng)
                return
            self.frame(eng)
            self.check(eng, "is preserved", seen_by(lambda y: z3.Or(seen(y), y == cur)))
            raise Infeasible()
        eng.fact(z3.ForAll([x], z3.Implies(dom(x), seen(x))))
        eng.frame.locals.pop("#visited", None)
        for n in E.assigned_names([s.target]):
            eng.frame.locals.pop(n, None)
        eng.exec_body(s.orelse)

    def exec_some(self, eng, s, b):
        """A loop over items in no order that is known: any of them may be next, nothing is known of which were there."""
        self.check(eng, "holds initially", {})
        eng.havoc_trace()
        self.havoc(eng, s.body)
        self.assume(eng, {})
        ren = [(c, eng.fresh_const(c.sort(), "visited")) for c in b.consts]
        if eng.branch(eng.fresh_const(z3.BoolSort(), "another")):
            w = subst_branch(b, ren)
            eng.fact(w.cond)
            eng.assign(s.target, w.value)
            try:
                eng.exec_body(s.body)
            except E.ContinueSignal:
                pass
            except E.BreakSignal:
                self.frame(eng)
                return
            self.frame(eng)
            self.check(eng, "is preserved", {})
            raise Infeasible()
        for n in E.assigned_names([s.target]):
            eng.frame.locals.pop(n, None)
        eng.exec_body(s.orelse)

    def exec_iterator(self, eng, s, source):
        """A loop over an iterator whose answers depend on what the loop does in between."""
        self.check(eng, "holds initially", {})
        eng.havoc_trace()
        self.havoc(eng, s.body)
        self.assume(eng, {})
        try:
            x = source.vc_next(eng, s)
        except E.PyRaise as e:
            if not issubclass(e.exc, StopIteration):
                raise
            for x in E.assigned_names([s.target]):
                eng.frame.locals.pop(x, None)
            eng.exec_body(s.orelse)
            return
        eng.assign(s.target, x)
        try:
            eng.exec_body(s.body)
        except E.ContinueSignal:
            pass
        except E.BreakSignal:
            self.frame(eng)
            return
        self.frame(eng)
        self.check(eng, "is preserved", {})
        raise Infeasible()


def vars_of(o):
    if isinstance(o, EObj):
        return [v for v in o.attrs.values()]
    if isinstance(o, (LocalList, LocalSet)):
        return [x for t, x in o.items if t == "v"] if isinstance(o.items, list) else []
    return list(o.d.values())
