"""C13: scores of routes, and picking and sorting by them."""
import z3

from jinete.models import criterions as M
from pyvc.engine import StarArg
from pyvc.spec import R
from pyvc.values import SNum

from .c12_objectives import complete

K = "jinete.models.criterions:"
MINIMISE = ("EarliestLastDepartureTimeRouteCriterion", "ShortestAveragePlannerTripDurationCriterion", "ShortestTimeRouteCriterion")
MAXIMISE = ("LongestTimeRouteCriterion", "LongestUtilTimeRouteCriterion", "HashCodeRouteCriterion")
WORST = {**{n: float("inf") for n in MINIMISE}, **{n: float("-inf") for n in MAXIMISE}}


def criterion(name):
    def make(eng):
        return eng.instantiate(getattr(M, name), [], {})

    return make


def last_departure(route):
    return route.stops[len(route.stops) - 1].departure_time


def average_duration(route):
    n = sum(1 for s in route.stops for p in s.pickup_planned_trips)
    if n == 0:
        return 0
    return sum(p.delivery.starting_time - p.pickup.departure_time for s in route.stops for p in s.pickup_planned_trips) / n


def duration(route):
    return last_departure(route) - route.stops[0].departure_time


def direct_distance(route):
    return sum(p.trip.origin.position.distance_to(p.trip.destination.position) for s in route.stops for p in s.pickup_planned_trips)


def earned(route):
    return sum(
        p.trip.origin.position.distance_to(p.trip.destination.position)
        + (p.trip.on_time_bonus if p.pickup.departure_time == p.trip.origin_earliest else 0)
        for s in route.stops
        for p in s.pickup_planned_trips
    )


def scoring(name, measure):
    worst = WORST[name]
    c = R.add(K + name + ".scoring", params=dict(self=criterion(name), route="ref:Route"), result="num", props=["C13"], opaque=False,
              assert_mode="assume")

    @c.pre("the route has a first and a last stop")
    def _(route):
        return len(route.stops) >= 2

    @c.pre("planned trips are planned completely")
    def _(route):
        return all(complete(p) for s in route.stops for p in s.pickup_planned_trips)

    @c.post("the documented measure, the worst possible if infeasible")
    def _(route, result):
        return result == (measure(route) if route.feasible else worst)


scoring("EarliestLastDepartureTimeRouteCriterion", last_departure)
scoring("ShortestAveragePlannerTripDurationCriterion", average_duration)
scoring("ShortestTimeRouteCriterion", duration)
scoring("LongestTimeRouteCriterion", duration)
scoring("LongestUtilTimeRouteCriterion", direct_distance)
scoring("HashCodeRouteCriterion", earned)


# ------------------------------------------------------------------------------------------------ ranking
#
# Callers know a score only as some function of the criterion and the route, as it is now.


def score_of(eng, binding, node):
    r = eng.raw(binding["route"])
    return SNum(z3.Function(f"score@{eng.heap_version}", r.sort(), z3.RealSort())(r))


class AnyCriterion(M.RouteCriterion):
    """Some criterion: the ranking does not depend on how routes are scored."""

    def scoring(self, route):
        raise NotImplementedError


R.add("contracts.c13_criterions:AnyCriterion.scoring", custom=score_of, assumed="proved for every criterion under C13")


def some(name):
    """Any scoring in the direction of a criterion, as set by its own constructor."""

    def make(eng):
        direction = eng.getattr(eng.instantiate(getattr(M, name), [], {}), "direction")
        return eng.instantiate(AnyCriterion, [], {"name": "any", "direction": direction})

    return make


def list_param(eng):
    from pyvc.builtins_model import list_of

    s = eng.fresh("list:ref:Route", "routes")
    return list_of(eng, s), list_of(eng, s)


def ranking(name):
    minimise = name in MINIMISE

    def better(a, b):
        return a < b if minimise else a > b

    c = R.add(K + "RouteCriterion.best", props=["C13"], opaque=False, variant=name)

    def arrange(eng):
        self = some(name)(eng)
        args = eng.fresh("list:ref?:Route", "args")
        return [self, StarArg(eng.to_iter(args))], {}, {"self": self, "args": args}

    c.arrange(arrange)

    @c.post("nothing exactly when there are no candidates")
    def _(args, result):
        return (result is None) == all(a is None for a in args)

    @c.post("the first of the candidates with the best score")
    def _(self, args, result):
        if result is None:
            return True
        value = self.scoring(result)
        return any(
            args[k] is result
            and all(args[j] is None or not better(self.scoring(args[j]), value) for j in range(len(args)))
            and all(args[j] is None or better(value, self.scoring(args[j])) for j in range(k))
            for k in range(len(args))
        )

    for method in ("sorted", "nbest"):
        for inplace in (False, True):
            c = R.add(K + "RouteCriterion." + method, props=["C13"], opaque=False, variant=f"{name}, in place {inplace}")
            sort_contract(c, method, name, minimise, inplace)


def sort_contract(c, method, name, minimise, inplace):
    def arrange(eng):
        self = some(name)(eng)
        routes, before = list_param(eng)
        n = eng.fresh("int", "n")
        args = [self, routes, inplace] if method == "sorted" else [self, n, routes, inplace]
        return args, {}, {"self": self, "routes": routes, "before": before, "n": n}

    c.arrange(arrange)

    @c.post("the stable rearrangement by score, in the direction of the criterion")
    def _(self, before, n, result):
        ranked = sorted(before, key=lambda r: self.scoring(r), reverse=not minimise)
        if method == "nbest":
            k = len(before) if n > len(before) else (0 if n < 0 else n)
            return len(result) == k and all(result[i] is ranked[i] for i in range(k))
        return len(result) == len(before) and all(result[i] is ranked[i] for i in range(len(before)))

    @c.post("in order of their scores")
    def _(self, result):
        return all(
            (self.scoring(result[i]) <= self.scoring(result[j]) if minimise else self.scoring(result[i]) >= self.scoring(result[j]))
            for i in range(len(result)) for j in range(len(result)) if i < j
        )

    if method == "sorted" and inplace:

        @c.post("the given list itself")
        def _(routes, result):
            return result is routes
    else:

        @c.post("the given list is left as it was")
        def _(routes, before):
            return len(routes) == len(before) and all(routes[i] is before[i] for i in range(len(before)))


for name in MINIMISE + MAXIMISE:
    ranking(name)
