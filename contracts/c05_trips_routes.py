"""C05 (verdicts) and C21 (metrics) of planned trips, routes, plans and results."""
import z3

from jinete.algorithms.naive import NaiveAlgorithm
from jinete.models.jobs import Job
from jinete.models.objectives import DialARideObjective
from jinete.models.results import Result
from pyvc.spec import R, S
from pyvc.values import EObj, SV

P = "jinete.models.planned_trips:PlannedTrip."
RT = "jinete.models.routes:Route."
PL = "jinete.models.plannings:Planning."
RS = "jinete.models.results:Result."


def planned(name, props, **k):
    return R.add(P + name, params=dict(self="ref:PlannedTrip"), result=k.pop("result", "num"), props=props, **k)


def complete(self):
    return self.pickup is not None and self.delivery is not None


# ------------------------------------------------------------------------------------------------ planned trips

c = planned("pickup_time", ["C21"], opaque=False)
c.pre("planned completely")(complete)


@c.post("when the pickup ends")
def _(self, result):
    return result == self.pickup.departure_time


c = planned("delivery_time", ["C21"], opaque=False)
c.pre("planned completely")(complete)


@c.post("when the delivery starts")
def _(self, result):
    return result == self.delivery.starting_time


c = planned("duration", ["C21"])
c.pre("planned completely")(complete)


@c.post("delivery start minus pickup departure")
def _(self, result):
    return result == self.delivery.starting_time - self.pickup.departure_time


c = planned("load_time", ["C21"])
c.pre("planned completely")(complete)


@c.post("the load times of both stops")
def _(self, result):
    return result == self.pickup.load_time + self.delivery.load_time


for name in ("waiting_time", "transit_time"):
    c = planned(name, ["C21"])
    c.pre("planned completely")(complete)

    if name == "waiting_time":

        @c.post("the sum over the stops after the pickup up to the delivery")
        def _(self, result):
            total = 0
            stop = self.delivery
            while stop is not self.pickup:
                total += stop.waiting_time
                stop = stop.previous
            return result == total

    else:

        @c.post("the sum over the stops after the pickup up to the delivery")
        def _(self, result):
            total = 0
            stop = self.delivery
            while stop is not self.pickup:
                total += (stop.vehicle.origin.position if stop.previous is None else stop.previous.position).time_to(stop.position)
                stop = stop.previous
            return result == total


c = planned("distance", ["C21"])


@c.post("the direct distance of the request")
def _(self, result):
    return result == self.trip.origin.position.distance_to(self.trip.destination.position)


c = planned("capacity", ["C21"], opaque=False)


@c.post("the load of the request")
def _(self, result):
    return result == self.trip.capacity


c = planned("empty", ["C21"], result="bool", opaque=False)


@c.post("whether the request has no load")
def _(self, result):
    return result == (self.trip.capacity == 0)


c = planned("timeout", ["C21"], opaque=False)


@c.post("the limit of the request")
def _(self, result):
    return result == self.trip.timeout


c = planned("feasible", ["C05"], result="bool", assert_mode="assume")
c.pre("planned completely")(complete)


@c.post("both stops feasible and the ride within its limit, within a thousandth")
def _(self, result):
    return result == (
        self.pickup.feasible and self.delivery.feasible
        and self.delivery.starting_time - self.pickup.departure_time <= self.trip.timeout + 0.001
    )


# ------------------------------------------------------------------------------------------------ routes


def route(name, props, **k):
    c = R.add(RT + name, params=dict(self="ref:Route"), result=k.pop("result", "num"), props=props, **k)

    @c.pre("the route has a first and a last stop")
    def _(self):
        return len(self.stops) >= 2

    @c.pre("planned trips of the route are planned completely")
    def _(self):
        return all(complete(p) for s in self.stops for p in s.pickup_planned_trips)

    return c


def complete(p):
    return p.pickup is not None and p.delivery is not None


c = route("feasible_planned_trips", ["C05"], result="bool", opaque=False)


@c.post("all planned trips are feasible")
def _(self, result):
    return result == all(p.feasible for s in self.stops for p in s.pickup_planned_trips)


c = route("feasible_stops", ["C05"], result="bool", opaque=False)


@c.post("all stops are feasible")
def _(self, result):
    return result == all(s.feasible for s in self.stops)


c = route("feasible", ["C05"], result="bool", assert_mode="assume")


@c.post("from depot to depot, within opening hours and duration limit, all planned trips feasible")
def _(self, result):
    first, last, v = self.stops[0], self.stops[-1], self.vehicle
    end = v.origin if v._destination is None else v._destination
    return result == (
        first.position.coordinates == v.origin.position.coordinates
        and last.position.coordinates == end.position.coordinates
        and v.origin.earliest - 0.001 <= first.arrival_time
        and last.departure_time <= end.latest + 0.001
        and last.departure_time - first.departure_time <= v.timeout + 0.001
        and all(p.feasible for s in self.stops for p in s.pickup_planned_trips)
    )


c = route("duration", ["C21"], assert_mode="assume")


@c.post("last minus first departure")
def _(self, result):
    return result == self.stops[-1].departure_time - self.stops[0].departure_time


c = route("distance", ["C21"])


@c.post("the distances of all stops")
def _(self, result):
    return result == sum(s.distance for s in self.stops)


c = route("waiting_time", ["C21"])


@c.post("the waiting times of all stops")
def _(self, result):
    return result == sum(s.starting_time - s.arrival_time for s in self.stops)


c = route("transit_time", ["C21"])


@c.post("the ride times of all planned trips")
def _(self, result):
    return result == sum(p.delivery.starting_time - p.pickup.departure_time for s in self.stops for p in s.pickup_planned_trips)


for name in ("planned_trips", "pickups"):
    c = route(name, ["C21"], opaque=False)

    @c.post("the pickups of all stops, in order")
    def _(self, result):
        return [p for p in result] == [p for s in self.stops for p in s.pickup_planned_trips]


c = route("deliveries", ["C21"], opaque=False)


@c.post("the deliveries of all stops, in order")
def _(self, result):
    return [p for p in result] == [p for s in self.stops for p in s.delivery_planned_trips]


c = route("positions", ["C21"], opaque=False)


@c.post("the positions of all stops, in order")
def _(self, result):
    return [p for p in result] == [s.position for s in self.stops]


c = route("trips", ["C21"], opaque=False)


@c.post("the requests of all pickups, in order")
def _(self, result):
    return [t for t in result] == [p.trip for s in self.stops for p in s.pickup_planned_trips]


c = route("loaded_planned_trips", ["C21"], opaque=False)


@c.post("the planned trips with some load, in order")
def _(self, result):
    return [p for p in result] == [p for s in self.stops for p in s.pickup_planned_trips if p.trip.capacity != 0]


c = route("loaded_trips", ["C21"], opaque=False)


@c.post("the requests with some load, in order")
def _(self, result):
    return [t for t in result] == [p.trip for s in self.stops for p in s.pickup_planned_trips if p.trip.capacity != 0]


c = route("loaded_trips_count", ["C21"], opaque=False)


@c.post("the number of requests with some load")
def _(self, result):
    return result == sum(1 for s in self.stops for p in s.pickup_planned_trips if p.trip.capacity != 0)


c = route("loaded", ["C21"], result="bool", opaque=False)


@c.post("whether anything is planned")
def _(self, result):
    return result == any(True for s in self.stops for p in s.pickup_planned_trips)


for name, what in (("first_departure_time", 0), ("last_departure_time", -1), ("current_departure_time", -2)):
    c = route(name, ["C21"], opaque=False, assert_mode="assume")
    if what == 0:

        @c.post("of the first stop")
        def _(self, result):
            return result == self.stops[0].departure_time
    elif what == -1:

        @c.post("of the last stop")
        def _(self, result):
            return result == self.stops[len(self.stops) - 1].departure_time
    else:

        @c.post("of the stop before the last")
        def _(self, result):
            return result == self.stops[len(self.stops) - 2].departure_time


# ------------------------------------------------------------------------------------------------ plans


def plan(name, props, **k):
    c = R.add(PL + name, params=dict(self="ref:Planning"), result=k.pop("result", "num"), props=props, **k)

    @c.pre("every route has a first and a last stop")
    def _(self):
        return all(len(r.stops) >= 2 for r in self.routes)

    @c.pre("planned trips are planned completely")
    def _(self):
        return all(complete(p) for r in self.routes for s in r.stops for p in s.pickup_planned_trips)

    return c


c = plan("feasible", ["C05"], result="bool", opaque=False)


@c.post("all routes are feasible")
def _(self, result):
    return result == all(r.feasible for r in self.routes)


c = plan("loaded_routes", ["C21"], opaque=False)


@c.post("the routes with planned trips")
def _(self, result):
    return result == {r for r in self.routes if any(True for s in r.stops for p in s.pickup_planned_trips)}


c = plan("planned_trips", ["C21"], opaque=False)


@c.post("those of all routes")
def _(self, result):
    return [p for p in result] == [p for r in self.routes for s in r.stops for p in s.pickup_planned_trips]


c = plan("trips", ["C21"], opaque=False)


@c.post("those of all routes")
def _(self, result):
    return [t for t in result] == [p.trip for r in self.routes for s in r.stops for p in s.pickup_planned_trips]


c = plan("vehicles", ["C21"], opaque=False)


@c.post("those of all routes")
def _(self, result):
    return [v for v in result] == [r.vehicle for r in self.routes]


# ------------------------------------------------------------------------------------------------ results


def a_job(eng, objective=DialARideObjective):
    return EObj(Job, {"trips": eng.fresh("set:ref:Trip", "trips"), "objective_cls": objective, "_objective": None, "args": (), "kwargs": {}})


def a_fleet(eng):
    return eng.fresh("ref:Fleet", "fleet")


def a_result(eng, job=None):
    job = job or a_job(eng)
    algorithm = EObj(NaiveAlgorithm, {"job": job, "fleet": a_fleet(eng)})
    return EObj(Result, {"algorithm": algorithm, "planning": eng.fresh("ref:Planning", "planning"), "computation_time": eng.fresh("num", "seconds")})


def result_(name, props, **k):
    c = R.add(RS + name, params=dict(self=a_result), result="none", props=props, opaque=False, **k)

    @c.pre("every route has a first and a last stop")
    def _(self):
        return all(len(r.stops) >= 2 for r in self.planning.routes)

    @c.pre("planned trips are planned completely")
    def _(self):
        return all(complete(p) for r in self.planning.routes for s in r.stops for p in s.pickup_planned_trips)

    return c


c = result_("feasible", ["C05"])


@c.post("all routes of the plan are feasible")
def _(self, result):
    return result == all(r.feasible for r in self.planning.routes)


c = result_("completed_trips", ["C21"])


@c.post("the loaded requests of the plan")
def _(self, result):
    return result == {p.trip for r in self.planning.routes for s in r.stops for p in s.pickup_planned_trips if p.trip.capacity != 0}


c = result_("coverage_rate", ["C21"])


@c.pre("at least one request")
def _(self):
    return len(self.algorithm.job.trips) > 0


@c.post("the share of the requests that are completed")
def _(self, result):
    done = {p.trip for r in self.planning.routes for s in r.stops for p in s.pickup_planned_trips if p.trip.capacity != 0}
    return result * len(self.algorithm.job.trips) == len(done)


for name, what in (("job", "job"), ("fleet", "fleet")):
    c = result_(name, ["C21"])
    if name == "job":

        @c.post("the algorithm's")
        def _(self, result):
            return result is self.algorithm.job
    else:

        @c.post("the algorithm's")
        def _(self, result):
            return result is self.algorithm.fleet
