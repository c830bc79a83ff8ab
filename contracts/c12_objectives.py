"""C12: objective values and the best of several candidates."""
import z3

from jinete.models.objectives import DialARideObjective, HashCodeObjective, TaxiSharingObjective
from pyvc.engine import StarArg
from pyvc.spec import R
from pyvc.values import SNum

from .c05_trips_routes import a_result

O = "jinete.models.objectives:"


def trips_of(kind, v):
    """The planned trips of a result, plan, route, stop or planned trip."""
    if kind == "result":
        return [p for r in v.planning.routes for s in r.stops for p in s.pickup_planned_trips]
    if kind == "plan":
        return [p for r in v.routes for s in r.stops for p in s.pickup_planned_trips]
    if kind == "route":
        return [p for s in v.stops for p in s.pickup_planned_trips]
    if kind == "stop":
        return [p for p in v.pickup_planned_trips]
    return [v]


def routes_of(kind, v):
    if kind == "result":
        return v.planning.routes
    if kind == "plan":
        return v.routes
    if kind == "route":
        return [v]
    return []


def complete(p):
    return p.pickup is not None and p.delivery is not None


KINDS = {"result": a_result, "plan": "ref:Planning", "route": "ref:Route", "stop": "ref:Stop", "trip": "ref:PlannedTrip"}


def objective(cls):
    def make(eng):
        return eng.instantiate(cls, [], {})

    return make


def valued(cls, kind):
    c = R.add(O + "Objective.optimization_function", params=dict(self=objective(cls), value=KINDS[kind]),
              result="none", props=["C12"], opaque=False, variant=f"{cls.__name__} of a {kind}")

    @c.pre("every route has a first and a last stop")
    def _(value):
        return all(len(r.stops) >= 2 for r in routes_of(kind, value))

    @c.pre("planned trips are planned completely")
    def _(value):
        return all(complete(p) for p in trips_of(kind, value))

    return c


def of_each_kind(kind):
    c = valued(TaxiSharingObjective, kind)

    @c.post("the ride time of the loaded planned trips")
    def _(value, result):
        return result == (sum(p.delivery.starting_time - p.pickup.departure_time for p in trips_of(kind, value) if p.trip.capacity != 0),)

    c = valued(HashCodeObjective, kind)

    @c.post("the direct distances and the earned bonuses of the loaded planned trips")
    def _(value, result):
        return result == (
            sum(
                p.trip.origin.position.distance_to(p.trip.destination.position)
                + (p.trip.on_time_bonus if p.pickup.departure_time == p.trip.origin_earliest else 0)
                for p in trips_of(kind, value)
                if p.trip.capacity != 0
            ),
        )


for kind in KINDS:
    of_each_kind(kind)

c = valued(DialARideObjective, "result")


@c.post("the number of planned trips and minus the distance of all stops, in this order")
def _(value, result):
    return result == (
        sum(1 for r in value.planning.routes for s in r.stops for p in s.pickup_planned_trips),
        -sum(r.distance for r in value.planning.routes),
    )


c = valued(DialARideObjective, "plan")


@c.post("the number of planned trips and minus the distance of all stops, in this order")
def _(value, result):
    return result == (
        sum(1 for r in value.routes for s in r.stops for p in s.pickup_planned_trips),
        -sum(r.distance for r in value.routes),
    )


c = valued(DialARideObjective, "route")


@c.post("the number of planned trips and minus the distance of all stops, in this order")
def _(value, result):
    return result == (
        sum(1 for s in value.stops for p in s.pickup_planned_trips),
        -sum(s.distance for s in value.stops),
    )


def ridden(p):
    """The distance travelled from the pickup to the delivery."""
    total = 0
    stop = p.delivery
    while stop is not p.pickup and stop.previous is not None:
        total += stop.distance
        stop = stop.previous
    return total


c = valued(DialARideObjective, "trip")


@c.post("one planned trip and minus the distance from its pickup to its delivery")
def _(value, result):
    return result == (1, -ridden(value))


c = valued(DialARideObjective, "stop")


@c.post("the planned trips picked up there and minus their distances from pickup to delivery")
def _(value, result):
    return result == (sum(1 for p in value.pickup_planned_trips), -sum(ridden(p) for p in value.pickup_planned_trips))


c = R.add(O + "Objective.optimization_function", params=dict(self=objective(HashCodeObjective), value="tuple:(num,num)"),
          result="none", props=["C12"], opaque=False, variant="a value")


@c.post("a value is its own")
def _(value, result):
    return result == value


def value_of(eng, binding, node):
    """Callers know an objective value only as some function of the objective and the (current) candidate."""
    v = eng.deref(binding["value"])
    if isinstance(v, tuple):
        return v
    terms = eng.arg_terms(binding["self"]) + eng.arg_terms(v)
    n = eng.getattr(binding["self"], "dimension_count")
    tag = f"objective@{eng.heap_version}." + ",".join(str(t.sort()) for t in terms)
    return tuple(SNum(z3.Function(f"{tag}.{k}", *[t.sort() for t in terms], z3.RealSort())(*terms)) for k in range(n))


R.add(O + "Objective.optimization_function", custom=value_of, assumed="proved as the variants of C12")

# ------------------------------------------------------------------------------------------------ best


def best_of(cls, kind):
    name = {"Planning": "plan", "Route": "route"}[kind]
    c = R.add(O + "Objective.best", props=["C12"], opaque=False, variant=f"{cls.__name__} of {kind}s", budget=90)

    def arrange(eng):
        self = eng.instantiate(cls, [], {})
        args = eng.fresh("list:ref?:" + kind, "args")
        return [self, StarArg(eng.to_iter(args))], {}, {"self": self, "args": args}

    c.arrange(arrange)

    @c.pre("every route has a first and a last stop")
    def _(args):
        return all(a is None or all(len(r.stops) >= 2 for r in routes_of(name, a)) for a in args)

    @c.pre("planned trips are planned completely")
    def _(args):
        return all(a is None or all(complete(p) for p in trips_of(name, a)) for a in args)

    @c.post("nothing exactly when there are no candidates")
    def _(args, result):
        return (result is None) == all(a is None for a in args)

    @c.post("one of the candidates, the first of those that no other exceeds")
    def _(self, args, result):
        if result is None:
            return True
        value = self.optimization_function(result)
        return any(
            args[k] is result
            and all(args[j] is None or not self.optimization_function(args[j]) > value for j in range(len(args)))
            and all(args[j] is None or self.optimization_function(args[j]) < value for j in range(k))
            for k in range(len(args))
        )


for cls in (DialARideObjective, TaxiSharingObjective, HashCodeObjective):
    for kind in ("Planning", "Route"):
        best_of(cls, kind)
