"""Verifies the contracts of one property against the source of /repo and writes a report.

    python3-vt -m pyvc.verify --property C02 [--tier quick|thorough] [--only NAME] [--out FILE] [-v]
"""
from __future__ import annotations

import argparse
import importlib
import inspect
import json
import multiprocessing as mp
import os
import pkgutil
import sys
import time
import traceback

from rt import env  # noqa: F401  (puts /repo's working tree on the path)

import z3

from . import discharge as D
from . import values as V
from .engine import Engine, ReturnSignal
from .spec import Contract, Lemma, Missing, R, S, resolve
from .values import Builtin, Infeasible, PyRaise, Unsupported, mk_not

WORKERS = int(os.environ.get("PYVC_WORKERS", "6"))


def load():
    import contracts

    for m in sorted(x.name for x in pkgutil.iter_modules(contracts.__path__)):
        importlib.import_module(f"contracts.{m}")


class Report(object):
    def __init__(self, name):
        self.name = name
        self.obligations = []
        self.functions = []
        self.inlined = set()
        self.used = set()
        self.assumptions = set()
        self.solver_time = 0.0
        self.unsupported = []
        self.guards = {"reachable_exits": 0, "paths": 0, "vacuous": []}
        self.cross = {"cvc5_agrees": 0, "cvc5_no_answer": 0}

    def to_json(self):
        return {
            "name": self.name, "obligations": self.obligations, "functions": self.functions, "inlined": sorted(self.inlined),
            "used": sorted(self.used), "assumptions": sorted(self.assumptions), "solver_time": self.solver_time,
            "unsupported": self.unsupported, "guards": self.guards, "cross": self.cross,
        }


# ----------------------------------------------------------------------------------------------------- one contract


def bind(eng, contract, func):
    """Arbitrary arguments of the kinds the contract declares."""
    args, kwargs, binding = [], {}, {}
    sig = inspect.signature(func)
    for name, p in sig.parameters.items():
        if name in contract.params:
            kind = contract.params[name]
            v = kind(eng) if callable(kind) else eng.fresh(kind, name)
        elif p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD):
            continue
        elif p.default is not p.empty:
            v = p.default
            if p.kind == p.KEYWORD_ONLY or kwargs:
                continue
        else:
            raise Missing(f"{contract.target}: parameter {name!r} is not described by the contract")
        binding[name] = v
        if p.kind == p.VAR_POSITIONAL:
            args.extend(v)
        elif p.kind == p.KEYWORD_ONLY or kwargs:
            kwargs[name] = v
        else:
            args.append(v)
    for name in contract.params:
        if name not in sig.parameters and not name.startswith("_"):
            raise Missing(f"{contract.target}: no parameter {name!r} any more")
        if name.startswith("_") and name not in binding:
            kind = contract.params[name]
            binding[name] = kind(eng) if callable(kind) else eng.fresh(kind, name)
    return args, kwargs, binding


def run_contract(eng, c, rep):
    func = c.function()
    views = {resolve(t)[0]: fn for t, fn in c.views.items()}
    hyp_sets, returned = [], []

    def run():
        eng.assert_mode = c.assert_mode
        eng.views = dict(views)
        if c.setup is not None:
            args, kwargs, binding = c.setup(eng)
        else:
            args, kwargs, binding = bind(eng, c, func)
        if c.track:
            eng.track_caches()
        binding["old"] = eng.old_state()
        binding["entry"] = binding
        for label, req in c.requires:
            g = eng.spec_bool(req, binding, assume=True)
            eng.ctx.pc.append(g)
        eng.top_contract, eng.ghosts = c, binding
        entry_heap, targets = dict(eng.heap), eng.modified_objects(c, binding)
        raised = None
        try:
            result = eng.call_function(func, args, kwargs, top=True)
        except PyRaise as e:
            raised = e
        hyp_sets.append((list(eng.axioms) + eng.all_pc(), eng.unfold))
        if raised is not None:
            for exc, label, cond in c.raises:
                if issubclass(raised.exc, exc):
                    goal = eng.spec_bool(cond, binding)
                    eng.oblige(goal, f"raises only when: {label}")
                    for lab2, fn in c.raise_posts:
                        eng.oblige(eng.spec_bool(fn, binding), f"when it raises: {lab2}")
                    eng.check_frame(entry_heap, {}, "when it raises, ")
                    return
            eng.oblige(z3.BoolVal(False), f"no {raised.exc.__name__} ({raised.what})")
            return
        if c.frame and not c.assumed:
            eng.check_frame(entry_heap, targets)
        for fn in c.hints:
            fn(eng, binding, result)
        for exc, label, cond in c.raises:
            eng.oblige(mk_not(eng.spec_bool(cond, binding)), f"raises whenever: {label}")
        for label, ens in c.ensures_:
            eng.oblige(eng.spec_bool(ens, dict(binding, result=result)), label)
        for label, fn in c.checks:
            eng.answered(lambda: fn(eng, binding, result))
        returned.append(True)

    eng.explore(run)
    if not returned and (c.ensures_ or c.checks):
        raise Unsupported("no path returns")
    return hyp_sets


def run_lemma(eng, lem, rep):
    hyp_sets = []

    def run():
        binding = {}
        for n, kind in lem.params.items():
            binding[n] = kind(eng) if callable(kind) else eng.fresh(kind, n)
        for fn in lem.assumes:
            eng.ctx.pc.append(eng.spec_bool(fn, binding, assume=True))
        goal = eng.spec_bool(lem.fn, binding)
        hyp_sets.append((list(eng.axioms) + eng.all_pc(), eng.unfold))
        eng.oblige(goal, lem.name)

    eng.explore(run)
    return hyp_sets


RESCUE_S = 60  # after an item's budget, for obligations the solver gave up on


def verify_item(item, tier, verbose=False):
    rep = Report(item.name)
    t0 = time.time()
    budget = item.budget * (1 if tier == "quick" else 4)
    timeout = int(os.environ.get("PYVC_TIMEOUT_MS", 8000 if tier == "quick" else 30000))
    depths = list(item.unfold)
    if tier == "thorough":
        depths.append(depths[-1] + 1)
    best = None
    for k, depth in enumerate(depths):
        eng = Engine(R, S, unfold=depth, timeout_ms=timeout, max_paths=getattr(item, "max_paths", 300), deadline=t0 + budget)
        rep.guards["paths"] = 0
        try:
            hyps = (run_contract if isinstance(item, Contract) else run_lemma)(eng, item, rep)
        except Missing as e:
            rep.unsupported.append(f"{item.name}: {e}")
            return rep
        except Unsupported as e:
            if verbose:
                traceback.print_exc()
            rep.unsupported.append(f"{item.name}: {e}")
            return rep
        except RecursionError:
            rep.unsupported.append(f"{item.name}: recursion limit of the generator")
            return rep
        rep.guards["paths"] = eng.paths
        rep.inlined |= eng.inlined
        rep.used |= eng.used_contracts
        rep.assumptions |= eng.assumptions
        obs = []
        good = True
        rescue_until = t0 + 2 * budget + RESCUE_S
        for ob in eng.obligations:
            if ob.status is None:
                left = t0 + budget - time.time()
                ms = int(max(500, min(timeout, left * 1000)))
                D.prove(ob, ms, seeds=(0,) if k + 1 < len(depths) else (0, 7))
                rep.solver_time += ob.seconds
                if ob.status == "unknown" and k + 1 == len(depths) and good and time.time() < rescue_until:
                    D.piecewise(ob, timeout)
                    if ob.status == "unknown":
                        D.rescue(ob)
                    rep.guards["rescued"] = rep.guards.get("rescued", 0) + (ob.status == "proved")
            obs.append(ob)
            if ob.status != "proved":
                good = False
                if k + 1 < len(depths):
                    break
        if good or k + 1 == len(depths):
            best = obs
            if hyps is not None:
                live = 0
                for h, _ in hyps[:40]:
                    if D.consistent(h, 1500):
                        live += 1
                        if live >= 3:
                            break
                rep.guards["reachable_exits"] = live
                if not live and good:
                    rep.guards["vacuous"].append(item.name)
            break
    if not best:
        rep.guards["vacuous"].append(item.name)
        rep.unsupported.append(f"{item.name}: no obligation was generated")
        return rep
    if rep.guards["vacuous"]:
        rep.unsupported.append(f"{item.name}: the preconditions contradict each other")
        return rep
    for n, ob in enumerate(best):
        rep.obligations.append({"name": f"{item.name}: {ob.name}", "where": ob.where, "status": ob.status,
                                "detail": ob.detail if ob.status != "proved" else "", "back_end": ob.backend})
        if tier == "thorough" and ob.status == "proved" and ob.backend == "z3" and time.time() < t0 + budget:
            r = D.cvc5_check(ob)
            rep.cross["cvc5_agrees" if r else "cvc5_no_answer"] += 1
            if r is False:
                rep.obligations[-1].update(status="unknown", detail="cvc5 finds a counter-model where z3 found a proof")
    if isinstance(item, Contract):
        rep.functions.append(item.target)
    return rep


# ----------------------------------------------------------------------------------------------------- scheduling


def child(conn, item, tier):
    try:
        rep = verify_item(item, tier).to_json()
    except BaseException:
        rep = Report(item.name)
        rep.unsupported.append(f"{item.name}: the generator broke: {traceback.format_exc()[-700:]}")
        rep = rep.to_json()
    conn.send(rep)
    conn.close()


def run_all(items, tier, limit):
    todo = sorted(items, key=lambda i: -i.budget)
    running, out = [], []
    end = time.time() + limit
    while todo or running:
        while todo and len(running) < WORKERS and time.time() < end:
            item = todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=child, args=(b, item, tier))
            p.start()
            b.close()
            running.append((p, a, item, time.time()))
        time.sleep(0.02)
        for r in list(running):
            p, a, item, t0 = r
            done = None
            if a.poll():
                try:
                    done = a.recv()
                except EOFError:
                    done = None
                p.join()
            elif not p.is_alive():
                done = None
                p.join()
            elif time.time() - t0 > item.budget * (2 if tier == "quick" else 6) + RESCUE_S + 40 or time.time() > end:
                p.kill()
                p.join()
            else:
                continue
            running.remove(r)
            if done is None:
                rep = Report(item.name)
                rep.unsupported.append(f"{item.name}: no answer within its time")
                done = rep.to_json()
            out.append(done)
        if time.time() > end and todo:
            for item in todo:
                rep = Report(item.name)
                rep.unsupported.append(f"{item.name}: no time left")
                out.append(rep.to_json())
            todo = []
    return out


def items_of(prop):
    out = [c for c in R.contracts if prop in c.props and not c.assumed]
    out += [l for l in R.lemmas if prop in l.props]
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--only")
    ap.add_argument("--out")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    sys.setrecursionlimit(20000)
    load()
    R.index()
    items = items_of(a.property) if a.property else [i for i in R.contracts + R.lemmas if i.props and not getattr(i, "assumed", None)]
    if a.only:
        items = [i for i in items if a.only in i.name]
    t0 = time.time()
    if a.v:
        reports = [verify_item(i, a.tier, True).to_json() for i in items]
    else:
        reports = run_all(items, a.tier, 350 if a.tier == "quick" else 700)
    obs = [o for r in reports for o in r["obligations"]]
    used = sorted({u for r in reports for u in r["used"]})
    own = {i.name for i in items}
    lib = sorted({u for u in used if u not in own})
    doc = {
        "obligations": obs,
        "functions": sorted({f for r in reports for f in r["functions"]}),
        "inlined_functions": sorted({f for r in reports for f in r["inlined"]}),
        "back_ends": {**{b: sum(o["back_end"] == b for o in obs) for b in sorted({"z3", "simplifier"} | {o["back_end"] for o in obs if o["back_end"]})},
                      **{k: sum(r["cross"][k] for r in reports) for k in ("cvc5_agrees", "cvc5_no_answer")}},
        "solver_time_s": round(sum(r["solver_time"] for r in reports), 2),
        "guards": {"items": len(reports), "rescued": sum(r["guards"].get("rescued", 0) for r in reports), "paths": sum(r["guards"]["paths"] for r in reports),
                   "items_with_reachable_exit": sum(r["guards"]["reachable_exits"] > 0 for r in reports),
                   "vacuous": [v for r in reports for v in r["guards"]["vacuous"]]},
        "unsupported": [u for r in reports for u in r["unsupported"]],
        "assumptions": sorted({x for r in reports for x in r["assumptions"]}),
        "trusted_base": ["z3 (SMT back end; cvc5 and an older z3 on obligations it gives up on)", "pyvc: the VC generator of /verif/pyvc and its models of Python built-ins"]
        + [f"contract used at call sites, proved under its own property or assumed: {u}" for u in lib],
        "wall_s": round(time.time() - t0, 2),
    }
    if a.out:
        with open(a.out, "w") as f:
            json.dump(doc, f, indent=1)
    else:
        for r in sorted(reports, key=lambda r: r["name"]):
            st = {}
            for o in r["obligations"]:
                st[o["status"]] = st.get(o["status"], 0) + 1
            print(f'{r["name"]}: {st} paths={r["guards"]["paths"]} {r["solver_time"]:.1f}s {r["unsupported"] or ""}')
            for o in r["obligations"]:
                if o["status"] != "proved":
                    print("    ", o["status"], o["name"], o["where"], o["detail"][:300 if not a.v else 3000])
        print("wall", doc["wall_s"], "solver", doc["solver_time_s"])
    return 0


if __name__ == "__main__":
    sys.exit(main())
