"""C14: multi-run searches.  The runs themselves are unknown code: run k answers the result RUN(k), whatever it is."""
import z3

from jinete.algorithms.abc import Algorithm
from jinete.algorithms.heuristics.local_search.algorithm import LocalSearchAlgorithm
from jinete.algorithms.metaheuristics.grasp import GraspAlgorithm
from jinete.algorithms.metaheuristics.iterative import IterativeAlgorithm
from jinete.algorithms.metaheuristics.sequential import SequentialAlgorithm
from jinete.models.objectives import DialARideObjective, HashCodeObjective, TaxiSharingObjective
from jinete.models.results import Result
from pyvc.builtins_model import SomeRandom
from pyvc.loops import Invariant
from pyvc.spec import R, engine_level
from pyvc.values import NULL, EObj, Ref, SNum, SRef, SSeq, mk_and, mk_not, mk_or
from pyvc.world import Facade, Ghost, OpenDict, Unknown, UnknownClass, lookup, method, positional, same, same_settings, settings

from .c05_trips_routes import a_fleet, a_job
from .c12_objectives import value_of

M = "jinete.algorithms.metaheuristics."
RUN = z3.Function("run", z3.IntSort(), Ref)


def run_result(k):
    return SRef(RUN(k), Result)


def value(eng, self, r):
    return value_of(eng, {"self": eng.getattr(self, "_objective"), "value": r}, None)


def better(eng, self, a, b):
    """The value of result a exceeds that of result b."""
    x, y = value(eng, self, a), value(eng, self, b)
    out, ties = [], []
    for p, q in zip(x, y):
        out.append(mk_and(ties + [p.e > q.e]))
        ties.append(p.e == q.e)
    return mk_or(out)


def best_of(eng, self, r, count, start=None):
    """r is one of the first ``count`` runs' results (or the start), and none of them exceeds it."""
    k = z3.Int("k!run")
    one = [z3.Exists([k], z3.And(0 <= k, k < count, RUN(k) == r.e))]
    none = [z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < count), mk_not(better(eng, self, run_result(k), r))))]
    if start is not None:
        one.append(r.e == start.e)
        none.append(mk_not(better(eng, self, start, r)))
    return mk_and([mk_or(one)] + none)


def the_job(eng, objective):
    job = a_job(eng, objective)
    job.attrs["_objective"] = eng.instantiate(objective, [], {})    # as Job.objective keeps it (contract below)
    return job


def ghost(eng, **attrs):
    o = EObj(Ghost, {k: SNum(z3.IntVal(v)) for k, v in attrs.items()})
    eng.ghosts["_log"] = o
    eng.assumptions.add("a run of a configured algorithm does not change the results of earlier runs")
    return o


def finished(eng, log):
    """The member ``optimize`` / ``improve`` of a run: it is over."""

    def go(eng, args, kwargs, node):
        eng.oblige(z3.BoolVal(not args and not kwargs), "a run is started without further settings", node)
        n = eng.znum(log.attrs["count"])
        log.attrs["count"] = SNum(n + 1)
        eng.fact(RUN(n) != NULL)
        return run_result(n)

    return method(go)


def int_seed(eng, v):
    return z3.BoolVal(hasattr(v, "e") and z3.is_int(getattr(v, "e", None)) or isinstance(v, int))


# ------------------------------------------------------------------------------------------------ the iterative search


def iterative(objective):
    c = R.add(M + "iterative:IterativeAlgorithm._optimize", props=["C14"], opaque=False, variant=objective.__name__,
              loops={0: Invariant({"best": "ref?:Result"}, [
                  ("one run per iteration", engine_level(lambda eng, i, _log: eng.eq(_log.attrs["count"], i))),
                  ("the best so far", engine_level(lambda eng, self, best, i: so_far(eng, self, best, i))),
              ], ghosts={"_log": {"count": "int"}})})

    def so_far(eng, self, best, i):
        n = eng.znum(i)
        if best is None:
            return n == 0
        r = SRef(best.e, Result)
        return z3.And((best.e == NULL) == (n == 0), z3.Implies(n > 0, best_of(eng, self, r, n)))

    def arrange(eng):
        log = ghost(eng, count=0)
        args, kwargs = eng.fresh("list:ref:Unknown", "args"), OpenDict(z3.Const("settings", Ref))
        self = EObj(IterativeAlgorithm, {
            "fleet": a_fleet(eng), "job": the_job(eng, objective), "episodes": eng.fresh("int", "episodes"), "random": SomeRandom(),
            "restart_mode": eng.fresh("bool", "restart_mode"), "args": args, "kwargs": kwargs})
        entry_args, entry_kwargs = args, OpenDict(kwargs.base)

        def new(eng, a, k, node):
            count = eng.znum(log.attrs["count"])
            eng.oblige(eng.spec_bool(lambda a, b: [x for x in a] == [x for x in b], {"a": positional(eng, a), "b": entry_args}),
                       "a run is built with the configured positional arguments", node)
            want = {"seed": lambda v: int_seed(eng, v)}
            given, initial = "initial" in {**settings(k)[1], **getattr(settings(k)[0], "d", {})}, lookup(eng, k, "initial")[1]
            restart = eng.truth(self.attrs["restart_mode"])
            chained = mk_and([mk_not(restart), count > 0])
            eng.oblige(chained if given else mk_not(chained), "a run gets an initial result exactly when restarts are off and there is one", node)
            if given:
                eng.oblige(best_of(eng, self, SRef(initial.e, Result), count), "the initial result is the best so far", node)
                want["initial"] = lambda v: z3.BoolVal(True)
            eng.oblige(same_settings(eng, k, entry_kwargs, want), "a run gets the configured settings, a seed and nothing else", node)
            return Facade("the algorithm of a run", {"optimize": finished(eng, log)})

        self.attrs["algorithm_cls"] = UnknownClass("algorithm", new, [Algorithm])
        return [self], {}, {"self": self, "_log": log}

    c.arrange(arrange)

    @c.pre("at least one episode")
    def _(self):
        return self.episodes >= 1

    @c.check("after as many runs as configured, the plan of one whose value no other exceeds")
    def _(eng, binding, result):
        self, log = binding["self"], binding["_log"]
        n = eng.znum(self.attrs["episodes"])
        eng.oblige(eng.znum(log.attrs["count"]) == n, "exactly the configured number of runs")
        k = z3.Int("k!best")
        plan = lambda j: eng.identical(eng.getattr(run_result(j), "planning"), result)
        eng.oblige(z3.Exists([k], z3.And(0 <= k, k < n, plan(k), best_of(eng, self, run_result(k), n))),
                   "the plan of a run whose value no other exceeds")


for o in (DialARideObjective, TaxiSharingObjective, HashCodeObjective):
    iterative(o)


# ------------------------------------------------------------------------------------------------ the local search


def local_search(objective):
    def best_since(eng, self, best, no_improvement_count, _log):
        """The best so far is the start or a run's result from before the rounds counted as without improvement."""
        n, c = eng.znum(_log.attrs["count"]), eng.znum(no_improvement_count)
        k = z3.Int("k!since")
        return z3.And(0 <= c, c <= n, z3.Or(best.e == self.attrs["initial"].e,
                                            z3.Exists([k], z3.And(0 <= k, k < n - c, RUN(k) == best.e))))

    c = R.add("jinete.algorithms.heuristics.local_search.algorithm:LocalSearchAlgorithm._optimize", props=["C14"], opaque=False,
              variant=objective.__name__,
              loops={0: Invariant({"best": "ref:Result", "no_improvement_count": "int"}, [
                  ("rounds are counted", engine_level(lambda eng, _log: eng.znum(_log.attrs["count"]) >= 0)),
                  ("the best so far", engine_level(
                      lambda eng, self, best, _log: best_of(eng, self, best, eng.znum(_log.attrs["count"]), self.attrs["initial"]))),
                  ("no improvement in the rounds counted", engine_level(best_since)),
              ], ghosts={"_log": {"count": "int"}})})

    def arrange(eng):
        log = ghost(eng, count=0)
        initial = eng.fresh("ref:Result", "initial")
        self = EObj(LocalSearchAlgorithm, {
            "fleet": a_fleet(eng), "job": the_job(eng, objective), "initial": initial, "args": eng.fresh("list:ref:Unknown", "args"),
            "kwargs": OpenDict(z3.Const("settings", Ref)), "no_improvement_threshold": eng.fresh("int", "threshold")})

        def new(eng, a, k, node):
            eng.oblige(z3.BoolVal(len(a) + len(k) == 1 and set(k) <= {"result"}), "a round is built from one result", node)
            r = eng.deref((a + list(k.values()))[0])
            eng.oblige(best_of(eng, self, SRef(r.e, Result), eng.znum(log.attrs["count"]), initial), "a round starts from the best so far", node)
            return Facade("the strategy of a round", {"improve": finished(eng, log)})

        self.attrs["strategy_cls"] = UnknownClass("strategy", new)
        return [self], {}, {"self": self, "_log": log}

    c.arrange(arrange)

    @c.check("the plan of the best of all, unchanged for as many rounds as configured")
    def _(eng, binding, result):
        self, log = binding["self"], binding["_log"]
        n, initial = eng.znum(log.attrs["count"]), self.attrs["initial"]
        threshold = eng.znum(self.attrs["no_improvement_threshold"])
        r = z3.Const("r!best", Ref)
        k = z3.Int("k!since")
        plan = eng.identical(eng.getattr(SRef(r, Result), "planning"), result)
        since = z3.Or(z3.And(r == initial.e, n >= threshold), z3.Exists([k], z3.And(0 <= k, k + threshold < n, RUN(k) == r)),
                      threshold <= 0)
        eng.oblige(z3.Exists([r], z3.And(plan, best_of(eng, self, SRef(r, Result), n, initial))),
                   "the plan of the initial result or of a round's that no other exceeds")
        eng.oblige(z3.Exists([r], z3.And(plan, best_of(eng, self, SRef(r, Result), n, initial), since)),
                   "none of the last rounds, as many as configured, brought it")


for o in (DialARideObjective, TaxiSharingObjective, HashCodeObjective):
    local_search(o)

# ------------------------------------------------------------------------------------------------ the chain

STAGE = z3.Function("stage settings", z3.IntSort(), Ref)


def chain():
    def so_far(eng, self, current, i):
        n = eng.znum(i)
        e = NULL if current is None else current.e
        first = self.attrs["initial"].e
        return z3.And(z3.Implies(n == 0, e == first), z3.Implies(n > 0, z3.And(e == RUN(n - 1), e != NULL)))

    c = R.add(M + "sequential:SequentialAlgorithm._optimize", props=["C14"], opaque=False,
              loops={0: Invariant({"current": "ref?:Result"}, [
                  ("one run per stage", engine_level(lambda eng, i, _log: eng.eq(_log.attrs["count"], i))),
                  ("the previous stage's result", engine_level(so_far)),
              ], ghosts={"_log": {"count": "int"}})})

    def arrange(eng):
        log = ghost(eng, count=0)
        self = EObj(SequentialAlgorithm, {"fleet": a_fleet(eng), "job": a_job(eng), "random": SomeRandom(), "initial": eng.fresh("ref?:Result", "initial")})
        n = eng.fresh_const(z3.IntSort(), "stages")
        eng.fact(n >= 0)

        def stage(i):
            def new(eng, a, k, node):
                count = eng.znum(log.attrs["count"])
                base = OpenDict(STAGE(i))
                eng.oblige(i == count, "the stages run in order", node)
                eng.oblige(z3.BoolVal(not a), "a stage gets its settings by name", node)
                before = z3.If(count > 0, RUN(count - 1), self.attrs["initial"].e)
                want = {"initial": lambda v: (NULL if v is None else v.e) == before}
                for key, right in (("fleet", lambda v: same(eng, v, self.attrs["fleet"])), ("job", lambda v: same(eng, v, self.attrs["job"])),
                                   ("seed", lambda v: int_seed(eng, v))):
                    if not eng.branch(base.base_has(key)):
                        want[key] = right
                eng.oblige(same_settings(eng, k, base, want), "a stage gets its own settings, the missing common ones and the previous result", node)
                return Facade("the algorithm of a stage", {"optimize": finished(eng, log)})

            return UnknownClass("stage", new, [Algorithm]), OpenDict(STAGE(i))

        self.attrs["algorithms_cls"] = SSeq(n, stage)
        return [self], {}, {"self": self, "_log": log, "_n": SNum(n)}

    c.arrange(arrange)

    @c.pre("at least one stage")
    def _(_n):
        return _n >= 1

    @c.pre("the settings of a stage are not named like the pieces of the chain")
    @engine_level
    def _(eng):
        i = z3.Int("i!stage")
        return z3.ForAll([i], mk_and([mk_not(OpenDict(STAGE(i)).base_has(k)) for k in ("self", "cls", "initial")]))

    @c.check("the last stage's plan")
    def _(eng, binding, result):
        n = binding["_n"].e
        eng.oblige(eng.znum(binding["_log"].attrs["count"]) == n, "every stage runs once")
        eng.oblige(eng.identical(eng.getattr(run_result(n - 1), "planning"), result), "the last stage's plan")


chain()
