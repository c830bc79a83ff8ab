"""Contracts of the search algorithms evaluated at run time: C09, C10, C11, C14."""
import itertools

from . import env  # noqa: F401
from . import gen, ref
from .harness import Skip, Violation, case, check, near
from .models2 import read_some, same_observations
from jinete.algorithms import (
    GraspAlgorithm,
    InsertionAlgorithm,
    IterativeAlgorithm,
    LocalSearchAlgorithm,
    SequentialAlgorithm,
)
from jinete.algorithms.abc import Algorithm
from jinete.algorithms.heuristics.insertion import (
    BestStatelessInsertionIterator,
    InsertionStrategy,
    IntensiveInsertionStrategy,
    RankingInsertionIterator,
    SamplingInsertionStrategy,
    StatelessInsertionIterator,
    TailInsertionStrategy,
)
from jinete.algorithms.heuristics.local_search import (
    OneShiftLocalSearchStrategy,
    ReallocationLocalSearchStrategy,
    TwoOPTLocalSearchStrategy,
)
from jinete.models import (
    DialARideObjective,
    EarliestLastDepartureTimeRouteCriterion,
    HashCodeObjective,
    HashCodeRouteCriterion,
    Job,
    LongestUtilTimeRouteCriterion,
    PlannedTrip,
    Planning,
    Result,
    Route,
    ShortestTimeRouteCriterion,
    Stop,
    TaxiSharingObjective,
)

OBJECTIVES = [DialARideObjective, TaxiSharingObjective, HashCodeObjective]
CRITERIA = [EarliestLastDepartureTimeRouteCriterion, ShortestTimeRouteCriterion, LongestUtilTimeRouteCriterion, HashCodeRouteCriterion]

# ---------------------------------------------------------------------------------------------------------------- C09


def pair_of(cand, trip):
    """The pair of places at which a candidate inserts the trip."""
    pts = [pt for pt in ref.planned(cand) if pt.trip is trip]
    check(len(pts) == 1, "candidate without exactly one planned trip for the inserted trip", len(pts))
    idx = {id(s): k for k, s in enumerate(cand.stops)}
    return idx[id(pts[0].pickup)] - 1, idx[id(pts[0].delivery)] - 1


def candidate_ok(r, trip, cand, i, j, feasible_wanted):
    gen.well_formed(cand, check)
    check(cand.vehicle is r.vehicle, "candidate with another vehicle")
    n = len(r.stops)
    check(len(cand.stops) == n + 2, "candidate with a wrong number of stops")
    p, d = cand.stops[i + 1], cand.stops[j + 1]
    check(p.position is trip.origin.position and d.position is trip.destination.position, "positions of the new stops")
    check(p.vehicle is r.vehicle and d.vehicle is r.vehicle, "vehicle of the new stops")
    check([x.trip for x in p.pickup_planned_trips] == [trip] and not p.delivery_planned_trips, "pickup stop of the inserted trip", i, j)
    check([x.trip for x in d.delivery_planned_trips] == [trip] and not d.pickup_planned_trips, "delivery stop of the inserted trip", i, j)
    pt = next(iter(p.pickup_planned_trips))
    check(pt.vehicle is r.vehicle and pt.pickup is p and pt.delivery is d, "planned trip of the inserted trip")
    rest = [s for k, s in enumerate(cand.stops) if k not in (i + 1, j + 1)]
    for a, b in zip(r.stops, rest):
        check(
            a.position is b.position and a.vehicle is b.vehicle
            and {id(x.trip) for x in a.pickup_planned_trips} == {id(x.trip) for x in b.pickup_planned_trips}
            and {id(x.trip) for x in a.delivery_planned_trips} == {id(x.trip) for x in b.delivery_planned_trips},
            "the other stops are not kept in order", i, j,
        )
    same_observations(gen.observe(cand), gen.observe(gen.rebuild(cand)), "candidate reports stale values")
    v = ref.route_verdict(cand)
    if feasible_wanted:
        check(cand.feasible, "infeasible candidate")
        check(v.ok or v.margin < 1e-7, "candidate reported feasible although it is not", i, j)


def expected_pairs(name, n, count, pairs):
    every = set(itertools.combinations(range(n), 2))
    if name == "Tail":
        return pairs == [(n - 2, n - 1)]
    if name == "Intensive":
        return len(pairs) == len(every) and set(pairs) == every
    return len(set(pairs)) == len(pairs) and set(pairs) <= every and len(pairs) == min(count, len(every))


@case("C09", weight=5)
def c09_candidates(rng):
    w = gen.world(rng, n_trips=rng.randint(1, 5), n_vehicles=1)
    k = rng.randint(1, min(3, len(w.trips)))
    new, old = w.trips[:k], w.trips[k:]
    r = gen.route(rng, w.vehicles[0], old, merge=rng.random() < 0.3)
    if rng.random() < 0.5:
        gen.observe(r)
    struct, exp = gen.structure(r), gen.observe(gen.rebuild(r))
    n = len(r.stops)
    name = rng.choice(["Tail", "Intensive", "Sampling", "Sampling", "Base"])
    only = rng.choice([True, False, None])
    init = rng.choice([True, False])
    single = rng.random() < 0.4
    arg = new[0] if single else (iter(new) if rng.random() < 0.5 else list(new))
    served = [new[0]] if single else new
    kw = {} if only is None else {"only_feasible": only}
    count = rng.choice([1, 2, 3, 5, 128])
    if name == "Base":
        pq = sorted(rng.sample(range(n), 2))
        strategy = InsertionStrategy(only_feasible=init) if rng.random() < 0.8 or not init else InsertionStrategy()
        got = strategy.compute(r, arg, pq[0], pq[1], **kw)
    elif name == "Tail":
        strategy = TailInsertionStrategy(only_feasible=init)
        got = strategy.compute(r, arg, **kw)
    elif name == "Intensive":
        strategy = IntensiveInsertionStrategy(only_feasible=init)
        got = strategy.compute(r, arg, **kw)
    else:
        strategy = SamplingInsertionStrategy(seed=rng.randint(0, 99), only_feasible=init)
        got = strategy.compute(r, arg, count=count, **kw) if count != 128 or rng.random() < 0.5 else strategy.compute(r, arg, **kw)
    feas = init if only is None else only
    check(isinstance(got, list), "candidates are not a list")
    check(gen.structure(r) == struct, "producing candidates changed the given route")
    same_observations(gen.observe(r), exp, "producing candidates changed what the given route reports")
    per = {id(t): [] for t in served}
    olds = sorted(id(pt.trip) for pt in ref.planned(r))
    for c in got:
        trips = sorted(id(pt.trip) for pt in ref.planned(c))
        extra = [t for t in served if sorted(olds + [id(t)]) == trips]
        check(len(extra) == 1, "candidate does not serve exactly the route's trips plus one of the new ones")
        t = extra[0]
        i, j = pair_of(c, t)
        candidate_ok(r, t, c, i, j, feas)
        per[id(t)].append((i, j))
    gen.cold(r)
    same_observations(gen.observe(r), exp, "producing candidates changed the given route")
    for t in served:
        pairs = per[id(t)]
        if not feas:
            if name == "Base":
                check(pairs == [tuple(pq)], "places of the base strategy", pairs, pq)
            else:
                check(expected_pairs(name, n, count, pairs), f"places tried by the {name} strategy", n, count, pairs)
        else:
            check(len(set(pairs)) == len(pairs), "repeated candidate", pairs)
            if name == "Tail":
                check(set(pairs) <= {(n - 2, n - 1)}, "places of the tail strategy", pairs)
            if name == "Base":
                check(set(pairs) <= {tuple(pq)}, "places of the base strategy", pairs)
    # feasible candidates are exactly the feasible ones among all candidates of the same places
    if feas and name in ("Tail", "Intensive", "Base"):
        if name == "Base":
            every = strategy.compute(r, list(served), pq[0], pq[1], only_feasible=False)
        else:
            every = strategy.compute(r, list(served), only_feasible=False)
        ok = sum(1 for c in every if c.feasible)
        check(ok == len(got), "a feasible candidate was dropped (or an infeasible one kept)", name, ok, len(got))


@case("C09", weight=2)
def c09_default_schedule(rng):
    """Insertion into loose routes: what is legal without any planned start is never lost."""
    w = gen.world(rng, n_trips=rng.randint(1, 4), n_vehicles=1, loose=True)
    r = gen.route(rng, w.vehicles[0], w.trips[1:], merge=False, planned_starts=False)
    if not ref.route_verdict(r).ok:
        raise Skip()
    for t in w.trips:
        if rng.random() < 0.3:
            t.origin.earliest = gen.half(rng, 0, 90)
            t.__dict__.pop("destination_earliest", None)
    gen.cold(r)
    t = w.trips[0]
    for c in IntensiveInsertionStrategy().compute(r, t, only_feasible=False):
        gen.well_formed(c, check)
        same_observations(gen.observe(c), gen.observe(gen.rebuild(c)), "candidate reports stale values")


# ---------------------------------------------------------------------------------------------------------------- C10

ITERATORS = [RankingInsertionIterator, RankingInsertionIterator, StatelessInsertionIterator, BestStatelessInsertionIterator]
STRATEGIES = [TailInsertionStrategy, IntensiveInsertionStrategy, SamplingInsertionStrategy]


def iterator_setup(rng, w):
    cls = rng.choice(ITERATORS)
    kw = {"strategy_cls": rng.choice(STRATEGIES + [None]), "criterion_cls": rng.choice(CRITERIA + [None])}
    if cls is RankingInsertionIterator:
        kw["neighborhood_max_size"] = rng.choice([None, None, 24, 1, 2])
        kw["randomized_size"] = rng.choice([1, 1, 1, 2])
    elif cls is BestStatelessInsertionIterator:
        kw["randomized_size"] = rng.choice([1, 1, 2])
    if rng.random() < 0.3 and cls is not StatelessInsertionIterator:
        kw["seed"] = rng.randint(0, 50)
    return cls, kw


def bookkeeping(it, w, base, msg):
    routes = list(it._routes)
    check(len(routes) == len(w.vehicles) and {id(r.vehicle) for r in routes} == {id(v) for v in w.vehicles}, msg + ": not exactly one route per vehicle")
    planned = [id(pt.trip) for r in routes for pt in ref.planned(r)]
    check(len(set(planned)) == len(planned), msg + ": a trip is planned twice")
    pending = set(map(id, it.pending_trips))
    check(len(pending) == len(list(it.pending_trips)), msg + ": pending twice")
    want = {id(t) for t in w.trips} | base
    check(not pending & set(planned), msg + ": a trip is both pending and planned")
    check(pending | set(planned) == want, msg + ": a trip is neither pending nor planned", len(pending), len(planned), len(want))


def initial_routes(rng, w):
    """Feasible routes with some of the trips, or None."""
    if rng.random() < 0.5:
        return None
    out = []
    parts = gen.split(rng, [t for t in w.trips if rng.random() < 0.6], len(w.vehicles))
    for v, p in zip(w.vehicles, parts):
        r = gen.route(rng, v, p, merge=False, planned_starts=False)
        x = ref.route_verdict(r)
        while p and not (x.ok and x.margin > 1e-7):
            p = p[:-1]
            r = gen.route(rng, v, p, merge=False, planned_starts=False)
            x = ref.route_verdict(r)
        out.append(r)
    return out


def feasible_empty(w):
    return all(ref.route_verdict(Route(v)).ok and ref.route_verdict(Route(v)).margin > 1e-7 for v in w.vehicles)


@case("C10", weight=4)
def c10_steps(rng):
    w = gen.world(rng, n_trips=rng.randint(0, 6), n_vehicles=rng.randint(1, 3), loose=rng.random() < 0.6)
    cls, kw = iterator_setup(rng, w)
    init = initial_routes(rng, w)
    if init is not None:
        kw["routes"] = set(init)
        before = [(r, gen.structure(r)) for r in init]
    jobtrips = set(w.job.trips)
    it = cls(fleet=w.fleet, job=w.job, **kw)
    bookkeeping(it, w, set(), "initially")
    steps = 0
    while True:
        try:
            c = next(it)
        except StopIteration:
            break
        old = {id(pt.trip) for r in it._routes if r.vehicle is c.vehicle for pt in ref.planned(r)}
        new = {id(pt.trip) for pt in ref.planned(c)}
        check(old <= new, "a proposal drops trips of its vehicle")
        check(new - old <= set(map(id, it.pending_trips)), "a proposal adds trips that are not pending")
        check(len(new) == len(ref.planned(c)) and new != old, "a proposal adds nothing or repeats a trip")
        check(c.feasible, "infeasible proposal of a strategy for feasible routes")
        it._set_route(c)
        check(any(r is c for r in it._routes), "accepted proposal is not the vehicle's route")
        bookkeeping(it, w, set(), f"after {steps + 1} proposals")
        steps += 1
        check(steps <= len(w.trips), "more proposals than trips")
    check(w.job.trips == jobtrips, "the job's trips changed")
    if init is not None:
        for r, s in before:
            check(gen.structure(r) == s, "the initial routes were modified")


def nothing_left(w, routes, pending, strategy):
    """No pending trip fits at any place of a loaded route, nor of (some) empty route."""
    loaded = [r for r in routes if ref.planned(r)]
    empty = [r for r in routes if not ref.planned(r)]
    for r in loaded:
        for t in pending:
            check(not strategy.compute(r, t), "a trip remains pending although a loaded vehicle could still take it")
    if empty:
        check(any(all(not strategy.compute(r, t) for t in pending) for r in empty), "a trip remains pending although every empty vehicle could take it")


@case("C10", weight=4)
def c10_algorithm(rng):
    w = gen.world(rng, n_trips=rng.randint(0, 6), n_vehicles=rng.randint(1, 3), loose=rng.random() < 0.6)
    cls, kw = iterator_setup(rng, w)
    if rng.random() < 0.2:
        cls = None
        kw = {k: v for k, v in kw.items() if k in ("strategy_cls", "criterion_cls")}
    init = initial_routes(rng, w)
    initial = None
    if init is not None:
        initial = gen.result(w, init)
        before = [(r, gen.structure(r), gen.observe(r)) for r in init]
    alg = InsertionAlgorithm(fleet=w.fleet, job=w.job, iterator_cls=cls, initial=initial, **kw)
    res = alg.optimize()
    plan = res.planning
    rs = list(plan.routes)
    check(res.algorithm is alg and res.computation_time >= 0, "result of the algorithm")
    check(len(rs) == len(w.vehicles) and {id(r.vehicle) for r in rs} == {id(v) for v in w.vehicles}, "not one route per vehicle")
    planned = [id(pt.trip) for r in rs for pt in ref.planned(r)]
    check(len(planned) == len(set(planned)), "a trip is planned twice")
    check(set(planned) <= {id(t) for t in w.trips}, "a planned trip was not requested")
    for r in rs:
        gen.well_formed(r, check)
    start_ok = feasible_empty(w) if init is None else all(ref.route_verdict(r).ok and ref.route_verdict(r).margin > 1e-7 for r in init)
    if start_ok:
        for r in rs:
            v = ref.route_verdict(r)
            check(v.ok or v.margin < 1e-7, "infeasible route although all were feasible at the start")
            check(r.feasible, "route not reported feasible although all were at the start")
    if init is not None:
        for r, s, o in before:
            mine = next(x for x in rs if x.vehicle is r.vehicle)
            have = {id(pt.trip) for pt in ref.planned(mine)}
            check({id(pt.trip) for pt in ref.planned(r)} <= have, "a trip of the initial result was lost")
            check(mine is not r, "the initial result's route was reused")
            check(gen.structure(r) == s, "the initial result was modified")
            same_observations(gen.observe(r), o, "the initial result was modified")
        check({id(r) for r in initial.planning.routes} == {id(r) for r in init}, "the initial result was modified")
    sc = kw.get("strategy_cls")
    full = cls in (StatelessInsertionIterator, BestStatelessInsertionIterator) or kw.get("neighborhood_max_size", 24) in (None, 24)
    if sc in (TailInsertionStrategy, IntensiveInsertionStrategy) and full:
        pending = [t for t in w.trips if id(t) not in set(planned)]
        if pending:
            nothing_left(w, rs, pending, sc())


# ---------------------------------------------------------------------------------------------------------------- C11

LOCAL = [ReallocationLocalSearchStrategy, OneShiftLocalSearchStrategy, TwoOPTLocalSearchStrategy]


def feasible_result(rng, n_trips=None, n_vehicles=None):
    w = gen.world(rng, n_trips=rng.randint(1, 6) if n_trips is None else n_trips, n_vehicles=rng.randint(1, 3) if n_vehicles is None else n_vehicles, loose=True)
    for t in w.trips:
        if rng.random() < 0.5:
            t.origin.latest = gen.half(rng, 20, 250)
        if rng.random() < 0.4:
            t.timeout = gen.half(rng, 15, 150)
    if rng.random() < 0.2:
        for v in w.vehicles:
            v.identifier = "V"
    w.objective_cls = rng.choice(OBJECTIVES)
    w.job = Job(set(w.trips), objective_cls=w.objective_cls)
    rs, kept = [], []
    parts = gen.split(rng, w.trips, len(w.vehicles))
    planned_starts = rng.random() < 0.25
    for v, p in zip(w.vehicles, parts):
        r = None
        while r is None:
            c = gen.route(rng, v, p, merge=False, planned_starts=planned_starts)
            x = ref.route_verdict(c)
            if x.ok and x.margin > 1e-6:
                r = c
            elif p:
                p = p[:-1]
            else:
                raise Skip()
        rs.append(r)
        kept += p
    w.trips = kept
    w.job.trips = set(kept)
    return w, gen.result(w, rs)


def plan_ok(w, routes, msg):
    rs = list(routes)
    check(len(rs) == len(w.vehicles) and {id(r.vehicle) for r in rs} == {id(v) for v in w.vehicles}, msg + ": not exactly one route per vehicle")
    trips = [id(pt.trip) for r in rs for pt in ref.planned(r)]
    check(sorted(trips) == sorted(id(t) for t in w.trips), msg + ": trips lost or duplicated", len(trips), len(w.trips))
    for r in rs:
        gen.well_formed(r, check)
        v = ref.route_verdict(r)
        check(v.ok or v.margin < 1e-7, msg + ": infeasible route")
        check(r.feasible, msg + ": route reported infeasible")
        same_observations(gen.observe(r), gen.observe(gen.rebuild(r)), msg + ": stale values")


def not_worse(new, old, msg):
    for a, b in zip(new, old):
        if near(a, b, 1e-9):
            continue
        check(a > b, msg, new, old)
        return


@case("C11", weight=5)
def c11_strategies(rng):
    w, res = feasible_result(rng)
    obj = w.job.objective
    if ref.bonus_rounding(obj, res.routes):
        raise Skip()
    before = [(r, gen.structure(r), gen.observe(r)) for r in res.routes]
    ids = {id(r) for r in res.routes}
    base = ref.objective_of_plan(obj, res.routes)
    cls = rng.choice(LOCAL)
    copy = rng.random() < 0.75
    s = cls(res) if copy and rng.random() < 0.5 else cls(res, with_copy=copy)
    out = s.improve()
    plan_ok(w, out.planning.routes, cls.__name__)
    not_worse(ref.objective_of_plan(obj, out.planning.routes), base, f"{cls.__name__} worsens the objective")
    not_worse(obj.optimization_function(out), base, f"{cls.__name__} worsens the objective")
    if copy:
        check(out is not res and {id(r) for r in res.planning.routes} == ids, "the given result was modified")
        for r, st, o in before:
            check(gen.structure(r) == st, "the given result was modified")
            same_observations(gen.observe(r), o, "the given result was modified")
            gen.cold(r)
            same_observations(gen.observe(r), o, "the given result was modified")
    else:
        check(out is res, "without copying, the given result is the one improved")


@case("C11", weight=2)
def c11_algorithm(rng):
    w, res = feasible_result(rng)
    obj = w.job.objective
    if ref.bonus_rounding(obj, res.routes):
        raise Skip()
    before = [(r, gen.structure(r), gen.observe(r)) for r in res.routes]
    base = ref.objective_of_plan(obj, res.routes)
    kw = {"strategy_cls": rng.choice(LOCAL + [None])}
    if rng.random() < 0.5:
        kw["no_improvement_threshold"] = rng.choice([1, 2])
    alg = LocalSearchAlgorithm(initial=res, fleet=w.fleet, job=w.job, **kw)
    out = alg.optimize()
    plan_ok(w, out.planning.routes, "local search")
    not_worse(ref.objective_of_plan(obj, out.planning.routes), base, "local search worsens the objective")
    for r, st, o in before:
        check(gen.structure(r) == st, "the given result was modified")
        same_observations(gen.observe(r), o, "the given result was modified")


@case("C11", weight=1)
def c11_repeated(rng):
    """Strategies one after the other on the same result (caches stay warm)."""
    w, res = feasible_result(rng, n_vehicles=rng.randint(2, 3))
    obj = w.job.objective
    if ref.bonus_rounding(obj, res.routes):
        raise Skip()
    value = ref.objective_of_plan(obj, res.routes)
    for _ in range(3):
        cls = rng.choice(LOCAL)
        res = cls(res, with_copy=rng.random() < 0.5).improve()
        plan_ok(w, res.planning.routes, cls.__name__)
        new = ref.objective_of_plan(obj, res.planning.routes)
        not_worse(new, value, f"{cls.__name__} worsens the objective")
        value = new


# ---------------------------------------------------------------------------------------------------------------- C14


class Script(object):
    """Shared record of a scripted algorithm's runs."""

    def __init__(self, plans):
        self.plans, self.runs = plans, []


def scripted(script):
    class ScriptedAlgorithm(Algorithm):
        def __init__(self, fleet, job, *args, initial=None, **kwargs):
            super().__init__(fleet, job)
            self.initial, self.extra = initial, (args, kwargs)

        def _optimize(self):
            script.runs.append((self, self.initial, self.extra, self.fleet, self.job))
            return script.plans[len(script.runs) - 1]

    return ScriptedAlgorithm


def plans_for(rng, w, n):
    out = []
    for _ in range(n):
        rs = gen.routes(rng, w, leave_out=rng.choice([0.0, 0.3, 0.8]))
        out.append(Planning(set(rs)))
    if n > 1 and rng.random() < 0.5:  # equal values
        k = rng.randrange(n - 1)
        out[n - 1] = Planning({gen.rebuild(r) for r in out[k].routes})
    return out


@case("C14", weight=3)
def c14_iterative(rng):
    w = gen.world(rng, metric="M")
    n = rng.randint(1, 5)
    plans = plans_for(rng, w, n)
    obj = w.job.objective
    vals = [obj.optimization_function(p) for p in plans]
    script = Script(plans)
    restart = rng.random() < 0.5
    kw = {"marker": object()} if rng.random() < 0.5 else {}
    alg = IterativeAlgorithm(episodes=n, algorithm_cls=scripted(script), restart_mode=restart, fleet=w.fleet, job=w.job, **kw)
    res = alg.optimize()
    check(len(script.runs) == n, "number of runs", len(script.runs), n)
    best = max(vals)
    check(res.planning in plans and vals[plans.index(res.planning)] == best, "the plan returned is not the best one seen", vals)
    check(res.planning is plans[vals.index(best)], "the plan returned is not the first best one seen", vals)
    for k, (a, initial, extra, fleet, job) in enumerate(script.runs):
        check(fleet is w.fleet and job is w.job, "run on another fleet or job")
        for key in kw:
            check(extra[1].get(key) is kw[key], "settings not passed to the run")
        check("seed" in extra[1], "run without its own seed")
        if restart or k == 0:
            check(initial is None, "a run of a restarting search starts from a previous result", k)
        else:
            b = plans[vals.index(max(vals[:k]))]
            check(initial is not None and initial.planning is b, "a run does not start from the best result so far", k, vals)
    check(res.algorithm is alg and res.computation_time >= 0, "result")


@case("C14", weight=2)
def c14_iterative_defaults(rng):
    w = gen.world(rng, n_trips=rng.randint(0, 3), n_vehicles=2, metric="M")
    script = Script(plans_for(rng, w, 3))
    IterativeAlgorithm(algorithm_cls=scripted(script), fleet=w.fleet, job=w.job).optimize()
    check(len(script.runs) == 3, "default number of runs", len(script.runs))
    check(all(r[1] is None for r in script.runs), "restarts are on by default")


@case("C14", weight=2)
def c14_sequential(rng):
    w = gen.world(rng, metric="M")
    n = rng.randint(1, 4)
    plans = plans_for(rng, w, n)
    script = Script(plans)
    classes = [scripted(script) for _ in range(n)]
    settings = [{"mark": k} if rng.random() < 0.6 else {} for k in range(n)]
    given = [dict(s) for s in settings]
    init = gen.result(w, []) if rng.random() < 0.5 else None
    alg = SequentialAlgorithm(initial=init, algorithms_cls=list(zip(classes, settings)), fleet=w.fleet, job=w.job)
    res = alg.optimize()
    check(len(script.runs) == n, "number of chained runs", len(script.runs), n)
    check(res.planning is plans[-1], "the plan returned is not the last one")
    for k, (a, initial, extra, fleet, job) in enumerate(script.runs):
        check(type(a) is classes[k], "algorithms not run in order", k)
        check(fleet is w.fleet and job is w.job, "run on another fleet or job")
        exp = init if k == 0 else None
        if k == 0:
            check(initial is exp, "first algorithm does not start from the initial result")
        else:
            check(initial is not None and initial.planning is plans[k - 1], "an algorithm does not start from the previous result", k)
        check({a: b for a, b in extra[1].items() if a == "mark"} == settings[k], "settings of a chained algorithm")
    check(settings == given, "the configured settings were modified")


@case("C14", weight=3)
def c14_local_search(rng):
    """Scripted strategies: best-so-far and stopping rule."""
    w = gen.world(rng, n_trips=2, n_vehicles=1, metric="M")
    w.job = Job(set(w.trips), objective_cls=TaxiSharingObjective)
    t = w.trips[0]
    t.capacity = 1

    def plan_with(value):
        """A plan whose objective value is determined by the ride time."""
        v = w.vehicles[0]
        f = Stop(v, v.origin_position, None)
        p = Stop(v, t.origin.position, f)
        d = Stop(v, t.destination.position, p)
        PlannedTrip(v, t, p, d)
        d.starting_time = 1000.0 + value
        return Planning({Route(v, [f, p, d])})

    obj = w.job.objective
    initial = Result(gen.AlgorithmStub(w.fleet, w.job), plan_with(rng.randint(0, 4)), 0.0)
    values = [rng.randint(0, 6) for _ in range(30)]
    results = [Result(initial.algorithm, plan_with(v), 0.0) for v in values]
    calls = []

    class Strategy(object):
        def __init__(self, result, *args, **kwargs):
            self.result = result

        def improve(self):
            check(len(calls) < 30, "the search does not stop")
            calls.append(self.result)
            return results[len(calls) - 1]

    threshold = rng.randint(1, 3)
    alg = LocalSearchAlgorithm(initial=initial, no_improvement_threshold=threshold, strategy_cls=Strategy, fleet=w.fleet, job=w.job)
    res = alg.optimize()
    val = lambda r: obj.optimization_function(r)
    best, best_r, count, k = val(initial), initial, 0, 0
    while count < threshold and k < 30:
        check(k < len(calls), "stopped before the configured number of rounds without improvement", k, threshold, values[:k])
        check(calls[k] is best_r, "a round does not start from the best result so far", k)
        if val(results[k]) > best:
            best, best_r, count = val(results[k]), results[k], 0
        else:
            count += 1
        k += 1
    check(k == len(calls), "went on after the configured number of rounds without improvement", k, len(calls), threshold, values[:len(calls)])
    check(val(res.planning) == best, "returned something worse than the best it saw", values[:k])
    check(res.planning is best_r.planning, "returned another plan than the best it saw")


@case("C14", weight=2)
def c14_grasp(rng):
    w = gen.world(rng, n_trips=rng.randint(1, 3), n_vehicles=rng.randint(1, 2), loose=True, metric="M")
    w.job = Job(set(w.trips), objective_cls=rng.choice(OBJECTIVES))
    obj = w.job.objective
    e1, e2, e3 = rng.randint(1, 2), rng.randint(1, 3), rng.randint(1, 2)
    first, second = [], []
    pool = plans_for(rng, w, 60)
    log = []

    class First(Algorithm):
        def __init__(self, fleet, job, *args, **kwargs):
            super().__init__(fleet, job)
            self.kw = kwargs

        def _optimize(self):
            p = pool[len(log)]
            log.append(("construct", self.kw.get("initial"), p))
            return p

    class Second(Algorithm):
        def __init__(self, fleet, job, *args, **kwargs):
            super().__init__(fleet, job)
            self.kw = kwargs

        def _optimize(self):
            p = pool[len(log)]
            log.append(("improve", self.kw.get("initial"), p))
            return p

    alg = GraspAlgorithm(
        first_solution_kwargs={"episodes": e1, "algorithm_cls": First},
        local_search_kwargs={"algorithms_cls": [(Second, {})]},
        fleet=w.fleet, job=w.job, episodes=e2,
    )
    res = alg.optimize()
    per = e1 + 3
    check([x[0] for x in log] == (["construct"] * e1 + ["improve"] * 3) * e2, "GRASP is not the iteration of construct-then-improve", [x[0] for x in log], e1, e2)
    outs = []
    for k in range(e2):
        run = log[k * per: (k + 1) * per]
        cons = [x[2] for x in run[:e1]]
        vals = [obj.optimization_function(p) for p in cons]
        built = cons[vals.index(max(vals))]
        check(all(x[1] is None for x in run[:e1]), "a construction does not start from scratch")
        imps = run[e1:]
        check(imps[0][1] is not None and imps[0][1].planning is built, "the improvement does not start from the best construction")
        best, bv = imps[0][2], obj.optimization_function(imps[0][2])
        for x in imps[1:]:
            check(x[1] is not None and x[1].planning is best, "an improvement round does not start from the best so far")
            v = obj.optimization_function(x[2])
            if v > bv:
                best, bv = x[2], v
        outs.append((bv, best))
    m = max(v for v, _ in outs)
    check(res.planning is next(p for v, p in outs if v == m), "GRASP does not return the best run's plan")


@case("C14", weight=1)
def c14_real(rng):
    """Real algorithms end to end."""
    w = gen.world(rng, n_trips=rng.randint(1, 4), n_vehicles=rng.randint(1, 2), loose=True, metric="M")
    w.job = Job(set(w.trips), objective_cls=rng.choice(OBJECTIVES))
    obj = w.job.objective
    kind = rng.randrange(3)
    if kind == 0:
        alg = IterativeAlgorithm(fleet=w.fleet, job=w.job, restart_mode=rng.random() < 0.5)
    elif kind == 1:
        alg = SequentialAlgorithm(
            fleet=w.fleet, job=w.job,
            algorithms_cls=[(InsertionAlgorithm, {}), (LocalSearchAlgorithm, {"strategy_cls": rng.choice(LOCAL)})],
        )
    else:
        alg = GraspAlgorithm(
            first_solution_kwargs={"episodes": 1}, local_search_kwargs={"no_improvement_threshold": 1},
            fleet=w.fleet, job=w.job, episodes=1,
        )
    res = alg.optimize()
    rs = list(res.planning.routes)
    check(len(rs) == len(w.vehicles), "one route per vehicle")
    trips = [id(pt.trip) for r in rs for pt in ref.planned(r)]
    check(len(trips) == len(set(trips)), "a trip is planned twice")
    check(res.feasible, "infeasible plan")
