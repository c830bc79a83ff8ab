"""Discharging obligations with z3 (and cvc5 as a second back end)."""
from __future__ import annotations

import copy
import itertools
import subprocess
import tempfile
import time

import z3

from .values import NULL, free_consts, mk_and, mk_not, to_real

_k = itertools.count()


def fn_names(e, out, seen):
    todo = [e]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            todo.extend(x.children())


def relevant_aggs(ob):
    names, seen = set(), set()
    fn_names(ob.goal, names, seen)
    goal_names = set(names)
    for h in ob.hyps:
        fn_names(h, names, seen)
    by = {a.fn.name(): a for a in ob.aggs}
    todo = [a for n, a in by.items() if n in names]
    got = {a.fn.name() for a in todo}
    out = list(todo)
    while todo:
        a = todo.pop()
        more = set()
        for b in a.branches:
            fn_names(b.cond, more, set())
            for v in b.value:
                fn_names(v, more, set())
        for n in more:
            if n in by and n not in got:
                got.add(n)
                out.append(by[n])
                todo.append(by[n])
    return out, goal_names


def shape(a):
    return (
        a.kind,
        a.extra,
        str(a.fn.range()),
        tuple((tuple(str(c.sort()) for c in b.consts), tuple(str(v.sort()) for v in b.value)) for b in a.branches),
    )


def fresh_params(a, tag):
    ren = [(p, z3.Const(f"{p.decl().name()}~{tag}{next(_k)}", p.sort())) for p in a.params]
    return ren


def skolem(sort, params):
    k = next(_k)
    if not params:
        return z3.Const(f"sk!{k}", sort)
    return z3.Function(f"sk!{k}", *[p.sort() for p in params], sort)(*params)


def inst(b, ren, consts):
    sub = ren + list(zip(b.consts, consts))
    cond = z3.substitute(b.cond, *sub) if sub else b.cond
    vals = [z3.substitute(v, *sub) if sub else v for v in b.value]
    return cond, vals


def same(u, v):
    if u.sort().eq(v.sort()):
        return u == v
    return to_real(u) == to_real(v)


def quantify(params, body, apps):
    if not params:
        return body
    pats = [z3.MultiPattern(*apps)] if len(apps) > 1 else [apps[0]]
    try:
        return z3.ForAll(params, body, patterns=pats)
    except z3.Z3Exception:
        return z3.ForAll(params, body)


def congruence(a, b):
    ra, rb = fresh_params(a, "a"), fresh_params(b, "b")
    params = [p for _, p in ra] + [p for _, p in rb]
    app_a = z3.substitute(a.app, *ra) if ra else a.app
    app_b = z3.substitute(b.app, *rb) if rb else b.app
    prem = []
    for x, y in zip(a.branches, b.branches):
        sk = [skolem(c.sort(), params) for c in x.consts]
        ca, va = inst(x, ra, sk)
        cb, vb = inst(y, rb, sk)
        eqs = [same(u, v) for u, v in zip(va, vb)]
        prem.append(z3.And(ca == cb, z3.Implies(ca, mk_and(eqs)) if eqs else z3.BoolVal(True)))
    return quantify(params, z3.Implies(mk_and(prem), app_a == app_b), [app_a, app_b])


def sum_facts(a):
    ra = fresh_params(a, "s")
    params = [p for _, p in ra]
    app = z3.substitute(a.app, *ra) if ra else a.app
    out = []
    b = a.branches[0]
    for rel in ("ge", "le", "zero"):
        sk = [skolem(c.sort(), params) for c in b.consts]
        c, v = inst(b, ra, sk)
        t = v[0]
        p = {"ge": t >= 0, "le": t <= 0, "zero": t == 0}[rel]
        q = {"ge": app >= 0, "le": app <= 0, "zero": app == 0}[rel]
        out.append(quantify(params, z3.Implies(z3.Implies(c, p), q), [app]))
    return out


def sum_order(a, b):
    """Same domain, smaller terms: smaller sum."""
    ra, rb = fresh_params(a, "a"), fresh_params(b, "b")
    params = [p for _, p in ra] + [p for _, p in rb]
    app_a = z3.substitute(a.app, *ra) if ra else a.app
    app_b = z3.substitute(b.app, *rb) if rb else b.app
    x, y = a.branches[0], b.branches[0]
    sk = [skolem(c.sort(), params) for c in x.consts]
    ca, va = inst(x, ra, sk)
    cb, vb = inst(y, rb, sk)
    prem = z3.And(ca == cb, z3.Implies(ca, to_real(va[0]) <= to_real(vb[0])))
    return quantify(params, z3.Implies(prem, to_real(app_a) <= to_real(app_b)), [app_a, app_b])


def lemmas(ob):
    aggs, goal_names = relevant_aggs(ob)
    out = []
    groups = {}
    for a in aggs:
        groups.setdefault(shape(a), []).append(a)
    for g in groups.values():
        for i, a in enumerate(g):
            for b in g[i + 1:]:
                out.append(congruence(a, b))
            if a.params and len(g) <= 3:
                out.append(congruence(a, a))
    for a in aggs:
        if a.kind == "sum":
            out.extend(sum_facts(a))
    return out


# (one solver without preprocessing, instantiation by patterns only, share of the time)
STRATEGIES = ((True, True, 0.2), (True, False, 0.4), (False, False, 1.0))


def prove(ob, timeout_ms=8000, seeds=(0,)):
    t0 = time.time()
    lem = lemmas(ob)
    status, detail, model = "unknown", "", None
    for seed in seeds:
        for simple, ematching, share in STRATEGIES:
            s = z3.SimpleSolver() if simple else z3.Solver()
            s.set("timeout", max(300, int(timeout_ms * share)))
            if ematching:
                s.set("smt.mbqi", False)
                s.set("smt.auto_config", False)
            if seed:
                s.set("random_seed", seed)
            s.add(*ob.hyps)
            s.add(*lem)
            s.add(mk_not(ob.goal))
            r = s.check()
            if r == z3.unsat:
                status = "proved"
                break
            if r == z3.sat and not ematching:
                status = "refuted"
                try:
                    detail = model_text(s.model())
                except Exception:
                    detail = "model"
                break
            detail = s.reason_unknown()
        if status != "unknown":
            break
    ob.status, ob.detail, ob.seconds, ob.backend = status, detail, time.time() - t0, "z3"
    return ob


def model_text(m, limit=40):
    out = []
    for d in m.decls()[:limit]:
        t = f"{d.name()} = {m[d]}"
        out.append(t[:200].replace("\n", " "))
    return "; ".join(out)[:3000]


def cvc5_check(ob, seconds=20):
    """Second opinion: True when cvc5 also finds the negated obligation unsatisfiable."""
    s = z3.Solver()
    s.add(*ob.hyps)
    s.add(*lemmas(ob))
    s.add(mk_not(ob.goal))
    text = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2") as f:
        f.write(text)
        f.flush()
        try:
            r = subprocess.run(["cvc5", f"--tlimit={seconds * 1000}", f.name], capture_output=True, text=True, timeout=seconds + 10)
        except (subprocess.TimeoutExpired, FileNotFoundError):
            return None
    first = (r.stdout.strip().splitlines() or [""])[0]
    return {"unsat": True, "sat": False}.get(first)


def piecewise(ob, timeout_ms):
    """A conjunction the solver gave up on, one conjunct at a time (the earlier ones may be used for the later ones)."""
    if not z3.is_and(ob.goal):
        return ob
    t0 = time.time()
    hyps = list(ob.hyps)
    for g in ob.goal.children():
        if time.time() - t0 > 3 * timeout_ms / 1000:
            return ob
        part = copy.copy(ob)
        part.hyps, part.goal, part.status = hyps, g, None
        prove(part, timeout_ms)
        if part.status != "proved":
            return ob
        hyps = hyps + [g]
    ob.status, ob.detail, ob.seconds = "proved", "", ob.seconds + time.time() - t0
    return ob


def rescue(ob, seconds=25):
    """Another chance for an obligation the first solver gave up on: other seeds, another z3, cvc5, side by side."""
    t0 = time.time()
    lem = lemmas(ob)
    s = z3.Solver()
    s.add(*ob.hyps)
    s.add(*lem)
    s.add(mk_not(ob.goal))
    text = s.to_smt2()
    patterns = ["smt.mbqi=false", "smt.auto_config=false"]
    with tempfile.TemporaryDirectory() as d:
        f = f"{d}/o.smt2"
        with open(f, "w") as h:
            h.write(text)
        with open(f"{d}/c.smt2", "w") as h:
            h.write("(set-logic ALL)\n" + text)
        runs = [["z3-new", f"-T:{seconds}", "smt.random_seed=5", f], ["z3", f"-T:{seconds}", "smt.random_seed=3", *patterns, f],
                ["z3-new", f"-T:{seconds}", "smt.random_seed=11", *patterns, f], ["cvc5", f"--tlimit={seconds * 1000}", f"{d}/c.smt2"]]
        live = {}
        for cmd in runs:
            try:
                live[subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)] = cmd[0]
            except OSError:
                pass
        found = None
        while live and not found and time.time() - t0 < seconds + 5:
            for p in list(live):
                if p.poll() is None:
                    continue
                back = live.pop(p)
                if (p.stdout.read().strip().splitlines() or [""])[0] == "unsat":
                    found = back
            time.sleep(0.05)
        for p in live:
            p.kill()
            p.wait()
    ob.seconds += time.time() - t0
    if found:
        ob.status, ob.detail, ob.backend = "proved", "", found
    return ob


def consistent(hyps, timeout_ms=3000):
    """Vacuity guard: the assumptions of a function must not contradict each other."""
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    s.add(*hyps)
    return s.check() != z3.unsat
