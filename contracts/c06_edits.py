"""C06 (nothing derived is stale after an edit) and C07 (edits keep the route well formed).

A stored (cached) value is *clean* when it was dropped after the last change of a model field, so that the next reading
computes it again.  Every edit must leave each stored value of the route, its stops and its planned trips clean or equal to
what it would be computed to anew.
"""
import z3

from jinete.exceptions import PreviousStopNotInRouteException
from pyvc.loops import Invariant
from pyvc.spec import R, each, engine_level
from pyvc.values import Ref, mk_and

from .c05_trips_routes import complete

RT = "jinete.models.routes:Route."
ST = "jinete.models.stops:Stop."
PT = "jinete.models.planned_trips:PlannedTrip."

STOP_VALUES = ("arrival_time", "departure_time", "capacity", "feasible")


# --------------------------------------------------------------------------------------------------------- vocabulary


def linked(route):
    """Every stop but the first comes right after its previous one, and no stop is there twice."""
    stops = route.stops
    return (
        len(stops) >= 2
        and stops[0].previous is None
        and all(stops[k].previous is stops[k - 1] for k in range(1, len(stops)))
        and all(stops[a] is not stops[b] for a in range(len(stops)) for b in range(a))
    )


def chained(route):
    """As ``linked``, but the first stop may have any previous stop (the route is just losing or getting its first one)."""
    stops = route.stops
    return (
        len(stops) >= 1
        and all(stops[k].previous is stops[k - 1] for k in range(1, len(stops)))
        and all(stops[a] is not stops[b] for a in range(len(stops)) for b in range(a))
    )


def the_route(self):
    return self


def at_idx(self, idx):
    return self.stops[idx]


def after_idx(self, idx):
    return self.stops[idx + 1]


def same_values(old, s):
    return (
        s.arrival_time == old(lambda: s.arrival_time)
        and s.starting_time == old(lambda: s.starting_time)
        and s.departure_time == old(lambda: s.departure_time)
        and s.capacity == old(lambda: s.capacity)
        and s.feasible == old(lambda: s.feasible)
    )


def same_arrival(old, s):
    return s.arrival_time == old(lambda: s.arrival_time)


def same_window(old, s):
    return (
        s.earliest == old(lambda: s.earliest) and s.latest == old(lambda: s.latest) and s.load_time == old(lambda: s.load_time)
    )


def same_start(old, s):
    return s.starting_time == old(lambda: s.starting_time)


def same_departure(old, s):
    return s.departure_time == old(lambda: s.departure_time)


def same_load(old, s):
    return s.capacity == old(lambda: s.capacity)


def same_before(old, s):
    p = s.previous
    return p is None or (p.departure_time == old(lambda: p.departure_time) and p.capacity == old(lambda: p.capacity))


def same_verdict(old, p):
    return p.feasible == old(lambda: p.feasible)


def stop_is_clean(eng, s):
    return mk_and([eng.is_clean(s, s_class(eng), n) for n in eng.cached_names(s_class(eng))])


def s_class(eng):
    return eng.schema.classes["Stop"]


def pt_is_clean(eng, p):
    cls = eng.schema.classes["PlannedTrip"]
    return mk_and([eng.is_clean(p, cls, n) for n in eng.cached_names(cls)])


def nothing_stale(c, whole_route=True, of="self"):
    """The obligations that no stored value of the route is stale."""

    @c.check("no stored value is stale")
    def _(eng, binding, result):
        if not eng.tracking:
            return
        if eng.coherent:
            # every change was made by functions under the same contract
            return
        route, old = binding[of], binding["old"]
        cls = eng.schema.classes["Route"]
        if whole_route:
            for n in eng.cached_names(cls):
                eng.oblige(eng.is_clean(route.e, cls, n), f"the route's {n} was dropped")
        stops = eng.to_seq(eng.getattr(route, "stops"))
        pc, axioms = len(eng.ctx.pc), len(eng.axioms)

        def arbitrary(name):
            j = eng.fresh_const(z3.IntSort(), name)
            eng.ctx.pc.append(z3.And(j >= 0, j < stops.length))
            return j, stops.get(j)

        start = eng.znum(binding["idx"] if "idx" in binding else binding["_at"])
        j, s = arbitrary("j")
        eng.oblige(z3.Implies(j >= start, stop_is_clean(eng, s.e)), "stored values of the stops from there on are dropped")
        # by the lemma below and induction along the route, nothing changes before that
        eng.oblige(z3.Implies(j < start, eng.spec_bool(keeps_previous, dict(old=old, s=s))), "the stops before keep their previous stops")
        del eng.ctx.pc[pc:]
        p = eng.fresh("ref:PlannedTrip", "p")
        j1, a = arbitrary("pickup")
        j2, b = arbitrary("delivery")
        eng.ctx.pc.append(mk_and([
            eng.raw(eng.getattr(p, "pickup")) == a.e, eng.raw(eng.getattr(p, "delivery")) == b.e, j1 < j2,
            eng.contains(eng.getattr(a, "pickup_planned_trips"), p),
            eng.contains(eng.getattr(b, "delivery_planned_trips"), p),
        ]))
        eng.oblige(z3.Implies(j2 >= start, pt_is_clean(eng, p.e)), "stored verdicts of planned trips delivered from there on are dropped")
        del eng.ctx.pc[pc:]


def edited(eng):
    """An arbitrary change of which stops routes have and which stops come before which."""
    for owner, field in (("Stop", "previous"), ("Route", "stops")):
        for suffix, sort in eng.field_parts(owner, field):
            eng.heap[(owner, field + suffix)] = eng.fresh_const(z3.ArraySort(Ref, sort), f"after.{owner}.{field}{suffix}")
        eng.generation[(owner, field)] = eng.generation.get((owner, field), 0) + 1
    eng.heap_version += 1000003 + next(eng.counter)


def keeps_previous(old, s):
    return s.previous is old(lambda: s.previous)


@R.lemma("the values of a stop depend on its fields and on departure and load of its previous stop only", ["C06"], unfold=(1, 2), s="ref:Stop")
@engine_level
def _(eng, s):
    old = eng.old_state()
    edited(eng)
    for fn in (keeps_previous, same_before):
        eng.ctx.pc.append(eng.spec_bool(fn, dict(old=old, s=s), assume=True))
    for fn in (same_arrival, same_window, same_start, same_departure, same_load):
        eng.establish(eng.spec_bool(fn, dict(old=old, s=s)), fn.__name__)
    return eng.spec_bool(same_values, dict(old=old, s=s))


@R.lemma("the verdict of a planned trip depends on its fields and on the values of its stops only", ["C06"], unfold=(1, 2), p="ref:PlannedTrip")
@engine_level
def _(eng, p):
    old = eng.old_state()
    edited(eng)
    eng.ctx.pc.append(eng.spec_bool(complete, dict(p=p), assume=True))
    for f in ("pickup", "delivery"):
        eng.ctx.pc.append(eng.spec_bool(same_values, dict(old=old, s=eng.getattr(p, f)), assume=True))
    return eng.spec_bool(same_verdict, dict(old=old, p=p))


# --------------------------------------------------------------------------------------------------------- flushing

c = R.add(ST + "flush", params=dict(self="ref:Stop"), props=["C06"], opaque=False, track=True)


@c.check("drops every stored value of the stop and of its planned trips")
def _(eng, binding, result):
    s = binding["self"]
    for n in eng.cached_names(s.cls):
        eng.oblige(eng.is_clean(s.e, s.cls, n), f"the stop's {n} is dropped")
    p = eng.fresh("ref:PlannedTrip", "p")
    for f in ("pickup_planned_trips", "delivery_planned_trips"):
        there = eng.contains(eng.getattr(s, f), p)
        eng.oblige(z3.Implies(there, pt_is_clean(eng, p.e)), f"the verdicts of its {f} are dropped")


c = R.add(PT + "flush", params=dict(self="ref:PlannedTrip"), props=["C06"], opaque=False, track=True)


@c.check("drops every stored value")
def _(eng, binding, result):
    eng.oblige(pt_is_clean(eng, binding["self"].e), "every stored value is dropped")


c = R.add(RT + "flush", params=dict(self="ref:Route"), props=["C06"], opaque=False, track=True)
c.pre("the route has stops")(lambda self: len(self.stops) >= 2)


@c.check("drops every stored value of the route, its stops and its planned trips")
def _(eng, binding, result):
    route = binding["self"]
    for n in eng.cached_names(route.cls):
        eng.oblige(eng.is_clean(route.e, route.cls, n), f"the route's {n} is dropped")
    stops = eng.to_seq(eng.getattr(route, "stops"))
    j = eng.fresh_const(z3.IntSort(), "j")
    eng.ctx.pc.append(z3.And(j >= 0, j < stops.length))
    s = stops.get(j)
    eng.oblige(stop_is_clean(eng, s.e), "every value of every stop is dropped")
    p = eng.fresh("ref:PlannedTrip", "p")
    for f in ("pickup_planned_trips", "delivery_planned_trips"):
        there = eng.contains(eng.getattr(s, f), p)
        eng.oblige(z3.Implies(there, pt_is_clean(eng, p.e)), f"the verdict of every member of {f} is dropped")


# --------------------------------------------------------------------------------------------------------- one stop

c = R.add(RT + "insert_stop_at", params=dict(self="ref:Route", idx="int", stop="ref:Stop"), result="ref:Stop", props=["C06", "C07"],
          track=True, assert_mode="assume",
          modifies=[("Route.stops", the_route), ("Stop.previous", at_idx)])
c.pre("the route is well linked")(lambda self, idx: chained(self) if idx == 0 else linked(self))
c.pre("before some stop")(lambda self, idx: 0 <= idx and idx < len(self.stops))
c.pre("after its previous stop")(lambda self, idx, stop: stop.previous is None if idx == 0 else stop.previous is self.stops[idx - 1])
c.pre("a new stop")(lambda self, stop: all(s is not stop for s in self.stops))


@c.post("returns the stop")
def _(stop, result):
    return result is stop


@c.post("exactly this stop is added, at the requested place")
def _(self, idx, stop, old):
    before = old(lambda: self.stops)
    return (
        len(self.stops) == len(before) + 1
        and self.stops[idx] is stop
        and all(self.stops[k] is before[k] for k in range(idx))
        and all(self.stops[k + 1] is before[k] for k in range(idx, len(before)))
    )


@c.post("the following stop comes after it")
def _(self, idx, stop, old):
    before = old(lambda: self.stops)
    return before[idx].previous is stop


@c.post("the route is well linked")
def _(self):
    return linked(self)


nothing_stale(c)

c = R.add(RT + "remove_stop_at", params=dict(self="ref:Route", idx="int"), result="ref:Stop", props=["C06", "C07"],
          track=True, assert_mode="assume",
          modifies=[("Route.stops", the_route), ("Stop.previous", after_idx)])
c.pre("the route is well linked")(lambda self: linked(self))
c.pre("not the last stop")(lambda self, idx: 0 <= idx and idx < len(self.stops) - 1)


@c.post("returns the stop of this place")
def _(self, idx, old, result):
    return result is old(lambda: self.stops[idx])


@c.post("exactly this stop is gone")
def _(self, idx, old):
    before = old(lambda: self.stops)
    return (
        len(self.stops) == len(before) - 1
        and all(self.stops[k] is before[k] for k in range(idx))
        and all(self.stops[k] is before[k + 1] for k in range(idx, len(before) - 1))
    )


@c.post("the following stop comes after the previous one")
def _(self, idx, old):
    before = old(lambda: self.stops)
    return idx == 0 or before[idx + 1].previous is before[idx - 1]


@c.post("the route is well linked")
def _(self, idx):
    return chained(self) if idx == 0 else linked(self)


nothing_stale(c)


# --------------------------------------------------------------------------------------------------------- edits of a route


def before_last(self, stop):
    """The previous stop is on the route, before the last one."""
    return any(self.stops[k] is stop.previous for k in range(len(self.stops) - 1))


@each
def the_following(each, self, stop):
    """The stop that comes after the previous stop of a new one (after the first one, if that is replaced)."""
    if stop.previous is None:
        return each is self.stops[1]
    return any(self.stops[k] is stop.previous and each is self.stops[k + 1] for k in range(len(self.stops) - 1))


def is_new(self, stop):
    return all(s is not stop for s in self.stops)


c = R.add(RT + "insert_stop", params=dict(self="ref:Route", stop="ref:Stop"), result="ref:Stop", props=["C06", "C07"], track=True,
          assert_mode="assume", modifies=[("Route.stops", the_route), ("Stop.previous", the_following)])
c.pre("the route is well linked")(lambda self: linked(self))
c.pre("not after the last one")(lambda self, stop: self.stops[-1] is not stop.previous)
c.pre("a new stop")(lambda self, stop: is_new(self, stop))


@c.raising(PreviousStopNotInRouteException, "the previous stop is not on the route")
def _(self, stop):
    return stop.previous is not None and all(s is not stop.previous for s in self.stops)


@c.post("returns the stop")
def _(stop, result):
    return result is stop


@c.post("the stop is added right after its previous one, the others stay in order")
def _(self, stop, old):
    before = old(lambda: self.stops)
    i = self.stops.index(stop)
    if stop.previous is None:
        return True
    return (
        i >= 1
        and before[i - 1] is stop.previous
        and len(self.stops) == len(before) + 1
        and self.stops[i] is stop
        and all(self.stops[k] is before[k] for k in range(i))
        and all(self.stops[k + 1] is before[k] for k in range(i, len(before)))
        and before[i].previous is stop
    )


@c.post("a stop without previous one takes the place of the first")
def _(self, stop, old):
    before = old(lambda: self.stops)
    if stop.previous is not None:
        return True
    return (
        len(self.stops) == len(before)
        and self.stops[0] is stop
        and all(self.stops[k] is before[k] for k in range(1, len(before)))
        and before[1].previous is stop
    )


@c.post("the route is well linked")
def _(self):
    return linked(self)


nothing_stale(c)

c = R.add(RT + "append_planned_trip", params=dict(self="ref:Route", planned_trip="ref:PlannedTrip"), props=["C06", "C07"], track=True,
          assert_mode="assume", modifies=[])


@each
def comes_after_one(each, self, planned_trip):
    a, b = planned_trip.pickup.previous, planned_trip.delivery.previous
    return any((self.stops[k] is a or self.stops[k] is b) and each is self.stops[k + 1] for k in range(len(self.stops) - 1))


c.modifies = [("Route.stops", the_route), ("Stop.previous", comes_after_one)]
c.pre("the trip is planned completely")(lambda planned_trip: planned_trip.pickup is not None and planned_trip.delivery is not None)
c.pre("the route is well linked")(lambda self: linked(self))


@c.pre("two new stops")
def _(self, planned_trip):
    return (
        planned_trip.pickup is not planned_trip.delivery
        and is_new(self, planned_trip.pickup)
        and is_new(self, planned_trip.delivery)
        and planned_trip.pickup.previous is not None
        and planned_trip.delivery.previous is not None
    )


@c.pre("the delivery comes after the pickup, both before the last stop")
def _(self, planned_trip):
    before_pickup, before_delivery = planned_trip.pickup.previous, planned_trip.delivery.previous
    return (
        self.stops[-1] is not before_pickup and self.stops[-1] is not before_delivery
        and any(
            self.stops[i] is before_pickup
            and (before_delivery is planned_trip.pickup or any(self.stops[k] is before_delivery for k in range(i + 1, len(self.stops))))
            for i in range(len(self.stops))
        )
    )


@c.post("exactly the two stops are added, the pickup before the delivery, the others stay in order")
def _(self, planned_trip, old):
    before = old(lambda: self.stops)
    i, j = self.stops.index(planned_trip.pickup), self.stops.index(planned_trip.delivery)
    return (
        len(self.stops) == len(before) + 2
        and 1 <= i
        and i < j
        and self.stops[i] is planned_trip.pickup
        and self.stops[j] is planned_trip.delivery
        and all(self.stops[k] is before[k] for k in range(i))
        and all(self.stops[k] is before[k - 1] for k in range(i + 1, j))
        and all(self.stops[k] is before[k - 2] for k in range(j + 1, len(self.stops)))
    )


@c.post("the route is well linked")
def _(self):
    return linked(self)


nothing_stale(c)


# removing a trip: ``_a`` and ``_b`` are the places of its two stops


def serves(stop, trip):
    return any(p.trip is trip for p in stop.pickup_planned_trips) or any(p.trip is trip for p in stop.delivery_planned_trips)


@each
def comes_after_removed(each, self, _a, _b):
    return each is self.stops[_a + 1] or each is self.stops[_b + 1]


@each
def came_after_removed(each, self, _a, _b, old):
    before = old(lambda: self.stops)
    return each is before[_a + 1] or each is before[_b + 1]


def without_both(self, before, _a, _b):
    return (
        len(self.stops) == len(before) - 2
        and all(self.stops[k] is before[k] for k in range(_a))
        and all(self.stops[k] is before[k + 1] for k in range(_a, _b - 1))
        and all(self.stops[k] is before[k + 2] for k in range(_b - 1, len(before) - 2))
    )


def removed_so_far(self, i, _a, _b, old):
    before = old(lambda: self.stops)
    left = len(before) - i
    if left > _b:
        return len(self.stops) == len(before) and all(self.stops[k] is before[k] for k in range(len(before)))
    if left > _a:
        return (
            len(self.stops) == len(before) - 1
            and all(self.stops[k] is before[k] for k in range(_b))
            and all(self.stops[k] is before[k + 1] for k in range(_b, len(before) - 1))
        )
    return without_both(self, before, _a, _b)


def still_linked(self):
    return linked(self)


c = R.add(RT + "remove_trip", params=dict(self="ref:Route", trip="ref:Trip", _a="int", _b="int"), props=["C06", "C07"], track=True,
          assert_mode="assume", opaque=False, budget=90.0,
          modifies=[("Route.stops", the_route), ("Stop.previous", comes_after_removed)],
          loops={0: Invariant({}, [("the stops of the trip seen so far are gone, nothing else", removed_so_far),
                                   ("the route is well linked", still_linked)],
                              heap=[("Route.stops", the_route), ("Stop.previous", came_after_removed)])})
c.pre("the route is well linked")(lambda self: linked(self))


@c.pre("exactly two stops, neither first nor last, serve the trip")
def _(self, trip, _a, _b):
    return (
        1 <= _a
        and _a < _b
        and _b < len(self.stops) - 1
        and all(serves(self.stops[k], trip) == (k == _a or k == _b) for k in range(len(self.stops)))
    )


@c.post("exactly the two stops are gone, the others stay in order")
def _(self, _a, _b, old):
    return without_both(self, old(lambda: self.stops), _a, _b)


@c.post("the route is well linked")
def _(self):
    return linked(self)


nothing_stale(c)


c = R.add(ST + "starting_time", setter=True, params=dict(self="ref:Stop", value="opt:num"), props=["C06"], opaque=False, track=True,
          modifies=[("Stop._starting_time", the_route)], variant="planned")


@c.post("keeps the planned start time")
def _(self, value):
    return (self._starting_time is None) == (value is None) and (value is None or self._starting_time == value)


@c.check("drops every stored value of the stop and of its planned trips")
def _(eng, binding, result):
    s = binding["self"]
    eng.oblige(stop_is_clean(eng, s.e), "every value of the stop is dropped")
    p = eng.fresh("ref:PlannedTrip", "p")
    for f in ("pickup_planned_trips", "delivery_planned_trips"):
        there = eng.contains(eng.getattr(s, f), p)
        eng.oblige(z3.Implies(there, pt_is_clean(eng, p.e)), f"the verdicts of its {f} are dropped")
