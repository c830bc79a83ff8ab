"""C19: the solving pipeline.  Loader, algorithm, storer and dispatcher are unknown classes; what they are given is checked."""
import z3

from jinete.algorithms.abc import Algorithm
from jinete.dispatchers.abc import Dispatcher
from jinete.dispatchers.static import StaticDispatcher
from jinete.loaders.abc import Loader
from jinete.models.objectives import DialARideObjective, HashCodeObjective, TaxiSharingObjective
from jinete.models.results import Result
from jinete.solvers import Solver
from jinete.storers.abc import Storer
from pyvc.spec import R
from pyvc.values import EObj, Ref, SNum, SRef, mk_and
from pyvc.world import OpenDict, Unknown, same_settings, unknown_class

from .c05_trips_routes import a_fleet, a_job
from .c14_searches import the_job


class World(object):
    """One instance, one algorithm, one storer: what happened to them."""

    def __init__(self, eng):
        self.events = eng.trace
        self.job, self.fleet = a_job(eng), a_fleet(eng)
        self.result = eng.fresh("ref:Result", "result")
        self.kw = {n: OpenDict(z3.Const(f"{n} settings", Ref)) for n in ("loader", "algorithm", "storer", "dispatcher")}
        w = self

        def created(name):
            def init(eng, obj, args, kwargs, node):
                eng.effect(f"new {name}", args, kwargs)
                if name == "loader":
                    obj.attrs["job"], obj.attrs["fleet"] = w.job, w.fleet

            return init

        def optimize(eng, obj, args, kwargs, node):
            eng.effect("optimize", args, kwargs)
            return w.result

        def store(eng, obj, args, kwargs, node):
            eng.effect("store", args, kwargs)

        self.loader = unknown_class("AnyLoader", __init__=created("loader"))
        self.algorithm = unknown_class("AnyAlgorithm", __init__=created("algorithm"), optimize=optimize)
        self.storer = unknown_class("AnyStorer", __init__=created("storer"), store=store)

    def check(self, eng, result, tuned=True, stored=True):
        names = [e[0] for e in eng.trace]
        want = ["new loader", "new algorithm", "optimize"] + (["new storer", "store"] if stored else [])
        eng.oblige(z3.BoolVal(names == want), "one instance is loaded, optimised once and its result delivered once, in this order")
        if names != want:
            return
        common = {"new loader": {}, "new algorithm": {"fleet": self.fleet, "job": self.job}, "new storer": {"result": self.result}}
        for name, args, kwargs in eng.trace:
            if name in common:
                base = self.kw[name.split()[1]] if tuned else None
                eng.oblige(z3.BoolVal(not args), f"{name}: settings are given by name")
                inputs = {k: (lambda v, x=x: z3.BoolVal(v is x) if isinstance(x, EObj) else v.e == x.e) for k, x in common[name].items()}
                eng.oblige(same_settings(eng, kwargs, base, inputs), f"{name}: precisely its inputs and its own settings")
            else:
                eng.oblige(z3.BoolVal(not args and not kwargs), f"{name}: no arguments")
        eng.oblige(eng.identical(result, self.result), "the result is returned")


def absent(w, name, keys):
    return mk_and([z3.Not(w.kw[name].base_has(k)) for k in keys])


# ------------------------------------------------------------------------------------------------ the dispatcher

for with_storer in (True, False):
    c = R.add("jinete.dispatchers.static:StaticDispatcher.run", props=["C19"], opaque=False, variant="" if with_storer else "without a storer")

    def arrange(eng, with_storer=with_storer):
        w = World(eng)
        self = eng.instantiate(StaticDispatcher, [w.loader, w.algorithm] + ([w.storer] if with_storer else []), {})
        return [self], {}, {"self": self, "_w": w}

    c.arrange(arrange)

    @c.check("loads, optimises and delivers once")
    def _(eng, binding, result, with_storer=with_storer):
        binding["_w"].check(eng, result, tuned=False, stored=with_storer)


# ------------------------------------------------------------------------------------------------ the solver

c = R.add("jinete.solvers:Solver.solve", props=["C19"], opaque=False)


@c.arrange
def _(eng):
    w = World(eng)
    self = eng.instantiate(Solver, [], {
        "algorithm": w.algorithm, "algorithm_kwargs": w.kw["algorithm"], "loader": w.loader, "loader_kwargs": w.kw["loader"],
        "storer": w.storer, "storer_kwargs": w.kw["storer"]})
    eng.fact(absent(w, "algorithm", ["fleet", "job", "self"]))
    eng.fact(absent(w, "storer", ["result", "self"]))
    eng.fact(absent(w, "loader", ["self"]))
    return [self], {}, {"self": self, "_w": w}


@c.check("loads, optimises and delivers once, everything as configured")
def _(eng, binding, result):
    binding["_w"].check(eng, result)


c = R.add("jinete.solvers:Solver.solve", props=["C19"], opaque=False, variant="any dispatcher")


@c.arrange
def _(eng):
    w = World(eng)
    seen = []

    def init(eng, obj, args, kwargs, node):
        eng.effect("new dispatcher", args, kwargs)

    def run(eng, obj, args, kwargs, node):
        eng.effect("run", args, kwargs)
        return w.result

    base = unknown_class("AnyDispatcher", __init__=init, run=run)
    self = eng.instantiate(Solver, [], {
        "algorithm": w.algorithm, "algorithm_kwargs": w.kw["algorithm"], "loader": w.loader, "loader_kwargs": w.kw["loader"],
        "storer": w.storer, "storer_kwargs": w.kw["storer"], "dispatcher": base, "dispatcher_kwargs": w.kw["dispatcher"]})
    for name in w.kw:
        eng.fact(absent(w, name, ["fleet", "job", "result", "self", "loader_cls", "algorithm_cls", "storer_cls"]))
    return [self], {}, {"self": self, "_w": w}


@c.check("the dispatcher runs once, with the configured classes and its own settings")
def _(eng, binding, result):
    w = binding["_w"]
    trace = list(eng.trace)
    ok = [e[0] for e in trace] == ["new dispatcher", "run"]
    eng.oblige(z3.BoolVal(ok), "one dispatcher runs once")
    if not ok:
        return
    _, args, kwargs = trace[0]
    names = ("loader_cls", "algorithm_cls", "storer_cls")
    given = {**dict(zip(names, args)), **{k: v for k, v in kwargs.items() if k in names}}
    eng.oblige(z3.BoolVal(set(given) == set(names)), "the dispatcher gets the three classes")
    eng.oblige(same_settings(eng, {k: v for k, v in kwargs.items() if k not in names}, w.kw["dispatcher"], {}), "and its own settings")
    eng.oblige(z3.BoolVal(not trace[1][1] and not trace[1][2]), "run takes no arguments")
    for n, inputs in (("loader_cls", {}), ("algorithm_cls", {"fleet": w.fleet, "job": w.job}), ("storer_cls", {"result": w.result})):
        del eng.trace[:]
        eng.instantiate(given[n], [], dict(inputs))
        part = n.split("_")[0]
        ok = [e[0] for e in eng.trace] == [f"new {part}"]
        eng.oblige(z3.BoolVal(ok), f"the {part} class creates the configured {part}")
        if ok:
            right = {k: (lambda v, x=x: z3.BoolVal(v is x)) for k, x in inputs.items()}
            eng.oblige(z3.BoolVal(not eng.trace[0][1]), f"{part}: no positional settings")
            eng.oblige(same_settings(eng, eng.trace[0][2], w.kw[part], right), f"{part}: what the dispatcher gives and its own settings")
    eng.oblige(eng.identical(result, w.result), "the result is returned")


# ------------------------------------------------------------------------------------------------ the result

c = R.add("jinete.algorithms.abc:Algorithm.optimize", props=["C19"], opaque=False)


@c.arrange
def _(eng):
    plan = eng.fresh("ref:Planning", "plan")

    def optimize(eng, obj, args, kwargs, node):
        eng.effect("_optimize", args, kwargs)
        return plan

    cls = unknown_class("SomeAlgorithm", Algorithm, _optimize=optimize)
    self = EObj(cls, {"job": a_job(eng), "fleet": a_fleet(eng)})
    return [self], {}, {"self": self, "_plan": plan}


@c.check("the algorithm, its plan and the time it took")
def _(eng, binding, result):
    eng.oblige(z3.BoolVal([e[0] for e in eng.trace] == ["_optimize"]), "optimised once")
    ok = isinstance(result, EObj) and issubclass(result.cls, Result)
    eng.oblige(z3.BoolVal(ok), "a result")
    if ok:
        eng.oblige(z3.BoolVal(eng.getattr(result, "algorithm") is binding["self"]), "the algorithm")
        eng.oblige(eng.identical(eng.getattr(result, "planning"), binding["_plan"]), "its plan")
        eng.oblige(eng.znum(eng.getattr(result, "computation_time")) >= 0, "a computation time that is not negative")


for objective in (DialARideObjective, TaxiSharingObjective, HashCodeObjective):
    c = R.add("jinete.models.jobs:Job.objective", props=["C12"], opaque=False, variant=objective.__name__)

    def arrange(eng, objective=objective):
        self = a_job(eng, objective)
        return [self], {}, {"self": self}

    c.arrange(arrange)

    @c.check("one objective of the configured kind")
    def _(eng, binding, result, objective=objective):
        eng.oblige(z3.BoolVal(isinstance(result, EObj) and result.cls is objective), "of the configured kind")
        eng.oblige(z3.BoolVal(eng.getattr(binding["self"], "objective") is result), "the same one every time")
