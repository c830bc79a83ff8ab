"""Contracts of the mutable part of the data model evaluated at run time: C06, C07, C08."""
from copy import deepcopy

from . import env  # noqa: F401
from . import gen, ref
from .harness import Skip, Violation, case, check, near
from jinete.exceptions import PreviousStopNotInRouteException
from jinete.models import PlannedTrip, Planning, Result, Route, Stop


def same_observations(got, exp, msg):
    check(len(got) == len(exp), msg + ": different number of values")
    for (n, a), (m, b) in zip(got, exp):
        check(n == m and near(a, b), msg, n, f"got {a!r}", f"expected {b!r}")


def read_some(rng, r):
    """Read a random part of the derived values, in random order (fills caches)."""
    p = rng.choice([0.0, 0.1, 0.5, 1.0])
    todo = [(s, a) for s in r.stops for a in gen.STOP_VALUES]
    todo += [(pt, a) for s in r.stops for pt in s.pickup_planned_trips for a in gen.TRIP_VALUES]
    todo += [(r, a) for a in gen.ROUTE_VALUES]
    rng.shuffle(todo)
    for o, a in todo:
        if rng.random() < p:
            getattr(o, a)
    if rng.random() < 0.5:
        r.feasible


def fresh(r, msg, route_level=True):
    exp = gen.observe(gen.rebuild(r))
    rows = ref.table(r.stops)
    got = gen.observe(r)
    if not route_level:
        exp = [x for x in exp if x[0] != "route.feasible"]
        got = [x for x in got if x[0] != "route.feasible"]
    same_observations(got, exp, msg)
    for k, row in enumerate(rows):
        check(near(r.stops[k].departure_time, row.departure) and near(r.stops[k].arrival_time, row.arrival)
              and r.stops[k].capacity == row.capacity, msg + ": reference schedule", k)
    v = ref.route_verdict(r, rows)
    if route_level and v.margin > 1e-7:
        check(bool(r.feasible) == v.ok, msg + ": reference route verdict", r.feasible, v.ok)


def new_trip(rng, w, k):
    t = gen.trip(rng, f"N{k}", w.places, loose=rng.random() < 0.5)
    return t


def edit_append(rng, w, r, k):
    t = new_trip(rng, w, k)
    i = rng.randint(0, len(r.stops) - 2)
    j = rng.randint(i, len(r.stops) - 2)
    p = Stop(r.vehicle, t.origin.position, r.stops[i])
    d = Stop(r.vehicle, t.destination.position, p if i == j else r.stops[j])
    pt = PlannedTrip(r.vehicle, t, p, d)
    r.append_planned_trip(pt)
    return "append_planned_trip"


def edit_insert_empty(rng, w, r, k):
    i = rng.randint(1, len(r.stops) - 1)
    s = Stop(r.vehicle, rng.choice(w.places), r.stops[i - 1], starting_time=rng.choice([None, gen.half(rng, 0, 100)]))
    if rng.random() < 0.5:
        s.departure_time
        s.feasible
    if rng.random() < 0.5:
        got = r.insert_stop_at(i, s)
    else:
        got = r.insert_stop(s)
    check(got is s and r.stops[i] is s, "inserted stop", i)
    return "insert_stop"


def edit_remove_empty(rng, w, r, k):
    c = [i for i in range(1, len(r.stops) - 1) if not r.stops[i].pickup_planned_trips and not r.stops[i].delivery_planned_trips]
    if not c:
        return edit_insert_empty(rng, w, r, k)
    r.remove_stop_at(rng.choice(c))
    return "remove_stop_at"


def edit_remove_trip(rng, w, r, k):
    c = [
        pt.trip for pt in ref.planned(r)
        if len(pt.pickup.pickup_planned_trips) + len(pt.pickup.delivery_planned_trips) == 1
        and len(pt.delivery.pickup_planned_trips) + len(pt.delivery.delivery_planned_trips) == 1
        and pt.pickup is not r.stops[0] and pt.delivery is not r.stops[-1]
    ]
    if not c:
        return edit_append(rng, w, r, k)
    r.remove_trip(rng.choice(c))
    return "remove_trip"


def edit_start(rng, w, r, k):
    i = rng.randrange(len(r.stops))
    r.stops[i].starting_time = rng.choice([gen.half(rng, 0, 200), r.stops[i].starting_time + 7.5])
    if rng.random() < 0.5:
        for s in r.stops[i + 1:] if rng.random() < 0.5 else r.stops[i:]:
            s.flush()
        fresh(r, "after a planned start change and flushing the following stops", route_level=False)
    r.flush()
    return "starting_time"


def edit_swap(rng, w, r, k):
    c = []
    for i in range(1, len(r.stops) - 2):
        a, b = r.stops[i], r.stops[i + 1]
        if not a.pickup_planned_trips & b.delivery_planned_trips:
            c.append(i)
    if not c:
        return edit_insert_empty(rng, w, r, k)
    i = rng.choice(c)
    a, b = r.stops[i], r.stops[i + 1]
    r.stops[i], r.stops[i + 1] = b, a
    b.previous, a.previous = r.stops[i - 1], b
    r.stops[i + 2].previous = a
    r.flush()
    return "swap and flush"


def edit_reinsert(rng, w, r, k):
    """Take a tail of stops off and put it back (as the 2-opt search does)."""
    if len(r.stops) < 4:
        return edit_append(rng, w, r, k)
    i = rng.randint(1, len(r.stops) - 2)
    old = [r.remove_stop_at(i) for _ in range(i, len(r.stops) - 1)]
    if rng.random() < 0.6:
        r.feasible_stops, r.duration, r.distance
        r.stops[-1].departure_time
    for s in old:
        s.previous = r.current_stop
        r.insert_stop(s)
    return "remove and reinsert"


def forget_windows(t):
    """Effective windows are computed once per request; requests are not edited in ordinary use."""
    for k in ("origin_earliest", "origin_latest", "destination_earliest", "destination_latest", "distance"):
        t.__dict__.pop(k, None)


def edit_flush(rng, w, r, k):
    """Change inputs behind the caches, then flush the whole route."""
    for pt in ref.planned(r):
        if rng.random() < 0.5:
            pt.trip.capacity = rng.choice([0, 1, 2])
            pt.trip.timeout = rng.choice([0.0, 10.0, 1e3])
            forget_windows(pt.trip)
    for s in r.stops:
        if rng.random() < 0.3:
            s._starting_time = gen.half(rng, 0, 100)
    r.flush()
    return "flush"


EDITS = [edit_append, edit_append, edit_insert_empty, edit_remove_empty, edit_remove_trip, edit_remove_trip, edit_start, edit_start, edit_swap, edit_reinsert, edit_flush]


@case("C06", weight=5)
def c06_edits(rng):
    w = gen.world(rng, n_trips=rng.randint(0, 4), n_vehicles=1)
    r = gen.route(rng, w.vehicles[0], w.trips, merge=rng.random() < 0.3)
    done = []
    for k in range(rng.randint(1, 4)):
        read_some(rng, r)
        e = rng.choice(EDITS)
        done.append(e(rng, w, r, k))
        if rng.random() < 0.5:
            fresh(r, f"stale value after {done}")
    fresh(r, f"stale value after {done}")


@case("C06", weight=1)
def c06_verdict_flips(rng):
    """The verdict changes with an edit and is read before and after."""
    w = gen.world(rng, n_trips=rng.randint(1, 3), n_vehicles=1, loose=True)
    r = gen.route(rng, w.vehicles[0], w.trips, merge=False, planned_starts=False)
    for pt in ref.planned(r):
        pt.trip.timeout = gen.half(rng, 1, 60)
        pt.trip.origin.latest = gen.half(rng, 5, 120)
        forget_windows(pt.trip)
    r.vehicle.timeout = rng.choice([gen.half(rng, 5, 100), float("inf")])
    gen.cold(r)
    gen.observe(r)
    e = rng.choice(EDITS)
    n = e(rng, w, r, 0)
    fresh(r, f"stale value after {n}")


# ---------------------------------------------------------------------------------------------------------------- C07


def stops_of(r):
    return list(r.stops)


@case("C07", weight=2)
def c07_insert(rng):
    w = gen.world(rng, n_trips=rng.randint(0, 4), n_vehicles=1)
    r = gen.route(rng, w.vehicles[0], w.trips)
    read_some(rng, r) if rng.random() < 0.5 else None
    before = stops_of(r)
    sets = [(set(s.pickup_planned_trips), set(s.delivery_planned_trips)) for s in before]
    i = rng.randint(1, len(before) - 1)
    s = Stop(r.vehicle, rng.choice(w.places), before[i - 1])
    how = rng.randrange(2)
    got = r.insert_stop(s) if how else r.insert_stop_at(i, s)
    check(got is s, "insertion does not return the inserted stop", how, i)
    exp = before[:i] + [s] + before[i:]
    check(len(r.stops) == len(exp) and all(a is b for a, b in zip(r.stops, exp)), "stops after an insertion", i)
    gen.well_formed(r, check)
    check([(set(x.pickup_planned_trips), set(x.delivery_planned_trips)) for x in before] == sets, "pickups or deliveries changed")
    # and out again
    before = stops_of(r)
    k = rng.randint(1, len(before) - 2)
    removed = before[k]
    got = r.remove_stop_at(k)
    check(got is removed, "removal does not return the removed stop", k)
    exp = before[:k] + before[k + 1:]
    check(len(r.stops) == len(exp) and all(a is b for a, b in zip(r.stops, exp)), "stops after a removal", k)
    for a, b in zip(r.stops[:-1], r.stops[1:]):
        check(b.previous is a, "previous link after a removal")
    check([(set(x.pickup_planned_trips), set(x.delivery_planned_trips)) for x in before if x is not s] == sets, "pickups or deliveries changed")


@case("C07")
def c07_front(rng):
    """A stop in front of the first one, and one that replaces it."""
    w = gen.world(rng, n_trips=rng.randint(0, 4), n_vehicles=1)
    r = gen.route(rng, w.vehicles[0], w.trips)
    read_some(rng, r) if rng.random() < 0.5 else None
    before = stops_of(r)
    s = Stop(r.vehicle, rng.choice(w.places), None)
    if rng.random() < 0.5:
        got, exp = r.insert_stop_at(0, s), [s] + before
    else:
        got, exp = r.insert_stop(s), [s] + before[1:]
    check(got is s, "insertion at the front does not return the stop")
    check(len(r.stops) == len(exp) and all(a is b for a, b in zip(r.stops, exp)), "stops after an insertion at the front")
    check(r.stops[0].previous is None, "the first stop has a previous one")
    for a, b in zip(r.stops[:-1], r.stops[1:]):
        check(b.previous is a, "previous link after an insertion at the front")


@case("C07", weight=2)
def c07_append(rng):
    w = gen.world(rng, n_trips=rng.randint(0, 4), n_vehicles=1)
    r = gen.route(rng, w.vehicles[0], w.trips)
    read_some(rng, r) if rng.random() < 0.5 else None
    before = stops_of(r)
    pts = set(map(id, ref.planned(r)))
    t = new_trip(rng, w, 0)
    if rng.random() < 0.3 and pts:
        t.identifier = rng.choice(list(ref.planned(r))).trip.identifier
    i = rng.randint(0, len(before) - 2)
    j = rng.randint(i, len(before) - 2)
    p = Stop(r.vehicle, t.origin.position, before[i])
    d = Stop(r.vehicle, t.destination.position, p if i == j else before[j])
    pt = PlannedTrip(r.vehicle, t, p, d)
    check(pt in p.pickup_planned_trips and pt in d.delivery_planned_trips and pt.pickup is p and pt.delivery is d, "planned trip not registered on its stops")
    r.append_planned_trip(pt)
    exp = before[: i + 1] + [p] + before[i + 1: j + 1] + [d] + before[j + 1:]
    check(len(r.stops) == len(exp) and all(a is b for a, b in zip(r.stops, exp)), "stops after appending a trip", i, j)
    gen.well_formed(r, check)
    check(set(map(id, ref.planned(r))) == pts | {id(pt)}, "planned trips after appending a trip")
    # remove any trip that has its stops for itself
    c = [
        q for q in ref.planned(r)
        if len(q.pickup.pickup_planned_trips) + len(q.pickup.delivery_planned_trips) == 1
        and len(q.delivery.pickup_planned_trips) + len(q.delivery.delivery_planned_trips) == 1
    ]
    q = rng.choice(c)
    before, pts = stops_of(r), set(map(id, ref.planned(r)))
    r.remove_trip(q.trip)
    exp = [s for s in before if s is not q.pickup and s is not q.delivery]
    check(len(r.stops) == len(exp) and all(a is b for a, b in zip(r.stops, exp)), "stops after removing a trip")
    gen.well_formed(r, check)
    check(set(map(id, ref.planned(r))) == pts - {id(q)}, "planned trips after removing a trip")


@case("C07")
def c07_refused(rng):
    w = gen.world(rng, n_trips=rng.randint(0, 3), n_vehicles=1)
    r = gen.route(rng, w.vehicles[0], w.trips)
    other = gen.route(rng, w.vehicles[0], [])
    before, shape = gen.structure(r), gen.observe(r)
    prev = rng.choice([rng.choice(other.stops), Stop(r.vehicle, r.stops[0].position, None), gen.rebuild(r).stops[rng.randrange(len(r.stops))]])
    s = Stop(r.vehicle, rng.choice(w.places), prev)
    try:
        r.insert_stop(s)
    except PreviousStopNotInRouteException:
        pass
    else:
        raise Violation("inserting after a stop that is not on the route was not refused")
    check(gen.structure(r) == before, "a refused insertion changed the route")
    same_observations(gen.observe(r), shape, "a refused insertion changed the route")


@case("C07")
def c07_stop_sets(rng):
    w = gen.world(rng, n_trips=2, n_vehicles=1)
    v = w.vehicles[0]
    s = Stop(v, w.trips[0].origin.position, None)
    d = Stop(v, w.trips[0].destination.position, s)
    pt = PlannedTrip(v, w.trips[0])
    s.append_pickup(pt)
    d.append_delivery(pt)
    check(s.pickup_planned_trips == {pt} and s.delivery_planned_trips == set(), "append_pickup")
    check(d.delivery_planned_trips == {pt} and d.pickup_planned_trips == set(), "append_delivery")
    far = w.surface.get_or_create_position((1001, 1002))
    for f in (Stop(v, far, None).append_pickup, Stop(v, far, None).append_delivery):
        try:
            f(PlannedTrip(v, w.trips[0]))
        except AssertionError:
            continue
        raise Violation("a pickup or delivery at another position was accepted")
    a = Stop(v, far, None)
    b = Stop(v, far, None)
    check(a.pickup_planned_trips is not b.pickup_planned_trips and a.pickup_planned_trips is not a.delivery_planned_trips, "stops share their sets of planned trips")


# ---------------------------------------------------------------------------------------------------------------- C08


def _edit_copy(rng, w, c, lo):
    """Edit a copy at places from ``lo`` on."""
    for k in range(rng.randint(1, 3)):
        e = rng.randrange(4)
        if e == 0 and max(lo - 1, 0) <= len(c.stops) - 2:
            t = new_trip(rng, w, k)
            i = rng.randint(max(lo - 1, 0), len(c.stops) - 2)
            j = rng.randint(i, len(c.stops) - 2)
            p = Stop(c.vehicle, t.origin.position, c.stops[i])
            d = Stop(c.vehicle, t.destination.position, p if i == j else c.stops[j])
            c.append_planned_trip(PlannedTrip(c.vehicle, t, p, d))
        elif e == 1 and len(c.stops) > lo:
            i = rng.randint(lo, len(c.stops) - 1)
            c.stops[i].starting_time = gen.half(rng, 0, 300)
            for s in c.stops[i:]:
                s.flush()
        elif e == 2 or e == 0:
            cands = [i for i in range(max(lo, 1), len(c.stops) - 1) if not c.stops[i].pickup_planned_trips and not c.stops[i].delivery_planned_trips]
            if cands:
                c.remove_stop_at(rng.choice(cands))
        else:
            cands = [
                pt for pt in ref.planned(c)
                if c.stops.index(pt.pickup) >= max(lo, 1) and pt.delivery is not c.stops[-1]
                and len(pt.pickup.pickup_planned_trips) + len(pt.pickup.delivery_planned_trips) == 1
                and len(pt.delivery.pickup_planned_trips) + len(pt.delivery.delivery_planned_trips) == 1
            ]
            if cands:
                c.remove_trip(rng.choice(cands).trip)
    gen.observe(c)


def _independent(rng, w, r, c, lo, what):
    struct, obs = gen.structure(r), gen.observe(r)
    _edit_copy(rng, w, c, lo)
    check(gen.structure(r) == struct, f"editing a {what} changed the original's structure")
    same_observations(gen.observe(r), obs, f"editing a {what} changed what the original reports")
    gen.cold(r)
    same_observations(gen.observe(r), obs, f"editing a {what} changed the original")


def _equivalent(r, c, lo, what):
    check(gen.shape(c) == gen.shape(r), f"{what} differs from the original", gen.shape(c), gen.shape(r))
    gen.well_formed(c, check)
    check(c is not r and c.stops is not r.stops, f"{what} shares its list of stops")
    check(c.vehicle is r.vehicle, f"{what} has another vehicle")
    orig = set(map(id, r.stops))
    origp = {id(pt) for s in r.stops for pt in s.pickup_planned_trips | s.delivery_planned_trips}
    for k, (a, b) in enumerate(zip(r.stops, c.stops)):
        check(b.position is a.position and b.vehicle is a.vehicle, f"{what} does not share positions and vehicles")
        if k >= lo:
            check(id(b) not in orig, f"stop of a {what} is shared", k, lo)
            for pt in b.pickup_planned_trips | b.delivery_planned_trips:
                check(id(pt) not in origp, f"planned trip of a {what} is shared", k, lo)
            check(b.pickup_planned_trips is not a.pickup_planned_trips and b.delivery_planned_trips is not a.delivery_planned_trips, f"{what} shares sets of planned trips")
        if b is a:
            check({id(x) for x in b.pickup_planned_trips} <= origp, "shared stop with new planned trips")


@case("C08", weight=3)
def c08_clone(rng):
    w = gen.world(rng, n_trips=rng.randint(0, 5), n_vehicles=1)
    r = gen.route(rng, w.vehicles[0], w.trips)
    if rng.random() < 0.6:
        read_some(rng, r)
    struct = gen.structure(r)
    exp = gen.observe(gen.rebuild(r))
    lo = rng.randint(0, len(r.stops))
    c = r.clone(lo) if lo or rng.random() < 0.5 else r.clone()
    check(gen.structure(r) == struct, "cloning changed the original")
    _equivalent(r, c, lo, "clone")
    same_observations(gen.observe(c), exp, "clone reports other values")
    same_observations(gen.observe(r), exp, "cloning changed what the original reports")
    _independent(rng, w, r, c, lo, "clone")


@case("C08", weight=2)
def c08_deepcopy(rng):
    w = gen.world(rng, n_trips=rng.randint(0, 5), n_vehicles=1)
    r = gen.route(rng, w.vehicles[0], w.trips)
    if rng.random() < 0.6:
        read_some(rng, r)
    struct, exp = gen.structure(r), gen.observe(gen.rebuild(r))
    c = deepcopy(r)
    check(gen.structure(r) == struct, "copying changed the original")
    _equivalent(r, c, 0, "deep copy")
    same_observations(gen.observe(c), exp, "deep copy reports other values")
    _independent(rng, w, r, c, 0, "deep copy")


@case("C08", weight=2)
def c08_plans(rng):
    w = gen.world(rng, n_vehicles=rng.randint(1, 3))
    rs = gen.routes(rng, w, leave_out=0.2)
    for r in rs:
        read_some(rng, r)
    p = Planning(set(rs))
    if rng.random() < 0.5:
        q = deepcopy(p)
    else:
        res = Result(gen.AlgorithmStub(w.fleet, w.job), p, 1.0)
        res2 = deepcopy(res)
        q = res2.planning
        check(res2.job is w.job and res2.fleet is w.fleet, "copy of a result does not share job and fleet")
        check(res.planning is p, "copy of a result changed it")
    check(q is not p and q.routes is not p.routes and len(q.routes) == len(p.routes), "copy of a plan")
    check({id(r) for r in p.routes} == {id(r) for r in rs}, "copying a plan changed it")
    by = {id(r.vehicle): r for r in q.routes}
    check(len(by) == len(rs), "copy of a plan lost a route")
    for r in rs:
        c = by[id(r.vehicle)]
        _equivalent(r, c, 0, "deep copy of a plan")
        same_observations(gen.observe(c), gen.observe(gen.rebuild(r)), "deep copy of a plan reports other values")
    for r in rs:
        _independent(rng, w, r, by[id(r.vehicle)], 0, "deep copy of a plan")
    # editing the set of routes of the copy
    q.routes.clear()
    check(len(p.routes) == len(rs), "plans share their set of routes")


@case("C08")
def c08_shared(rng):
    w = gen.world(rng, n_trips=2, n_vehicles=2)
    for o in w.trips + w.vehicles + w.places + [w.fleet, w.job, w.trips[0].origin]:
        check(deepcopy(o) is o, f"deep copy of a {type(o).__name__} is not shared")
    both = deepcopy([w.trips, w.vehicles])
    check(all(a is b for a, b in zip(both[0], w.trips)), "requests copied inside a container")
