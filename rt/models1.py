"""Contracts of the data model evaluated at run time: C01-C05, C12, C13, C20, C21."""
import itertools
import math
import random as _random
import statistics

from . import env  # noqa: F401
from . import gen, ref
from .harness import Skip, case, check, check_near, near
from jinete.models import (
    DialARideObjective,
    DistanceMetric,
    EarliestLastDepartureTimeRouteCriterion,
    Fleet,
    GeometricPosition,
    GeometricSurface,
    HashCodeObjective,
    HashCodeRouteCriterion,
    Job,
    LongestTimeRouteCriterion,
    LongestUtilTimeRouteCriterion,
    PlannedTrip,
    Planning,
    Result,
    Route,
    Service,
    ShortestAveragePlannerTripDurationCriterion,
    ShortestTimeRouteCriterion,
    Stop,
    TaxiSharingObjective,
    Trip,
    Vehicle,
)
from jinete.models.constants import OptimizationDirection

INF = float("inf")

# ---------------------------------------------------------------------------------------------------------------- C01


@case("C01", weight=2)
def c01_distance(rng):
    dim = rng.choice([1, 2, 2, 2, 3])
    surfs = [gen.surface(rng, "E"), gen.surface(rng, "M"), gen.surface(rng)]
    pts = []
    for s in surfs:
        for _ in range(rng.randint(1, 4)):
            if rng.random() < 0.5:
                c = [rng.randint(-5, 5) for _ in range(dim)]
            else:
                c = [rng.uniform(-1e3, 1e3) for _ in range(dim)]
            pts.append(s.get_or_create_position(c))
            if rng.random() < 0.3:
                pts.append(GeometricPosition(c, s))
    pairs = [(a, b) for a in pts for b in pts if a.surface is b.surface]
    for a, b in [rng.choice(pairs) for _ in range(40)]:
        e = ref.dist(a, b)
        how = rng.randrange(5)
        if how == 0:
            d = a.surface.distance(a, b)
        elif how == 1:
            d = a.distance_to(b)
        elif how == 2:
            d = a.time_to(b, rng.choice([None, 0.0, 17.5]))
        elif how == 3:
            d = a.surface.time(a, b, now=rng.choice([0.0, 3.0]))
        else:
            d = Service(a).distance_to(Service(b))
        check(near(d, e, 1e-9), "distance/time is not the metric on the coordinates", a.coordinates, b.coordinates, a.surface._verif_metric, d, e)
        check(d >= 0, "negative distance", a.coordinates, b.coordinates)
        if a.coordinates == b.coordinates:
            check(d == 0, "non-zero distance to itself", a.coordinates)
        check(near(b.distance_to(a), d, 1e-9), "distance is not symmetric", a.coordinates, b.coordinates)
        check(a.time_to(b) == a.distance_to(b), "travel time is not the distance", a.coordinates, b.coordinates)
        check(Service(a).time_to(Service(b)) == a.time_to(b), "service travel time", a.coordinates, b.coordinates)


@case("C01")
def c01_metrics(rng):
    n = rng.randint(1, 4)
    a = [rng.uniform(-50, 50) if rng.random() < 0.5 else rng.randint(-9, 9) for _ in range(n)]
    b = [rng.uniform(-50, 50) if rng.random() < 0.5 else rng.randint(-9, 9) for _ in range(n)]
    e = DistanceMetric.EUCLIDEAN(tuple(a), tuple(b))
    m = DistanceMetric.MANHATTAN(tuple(a), tuple(b))
    check(near(e, math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b))), 1e-9), "euclidean", a, b, e)
    check(near(m, sum(abs(x - y) for x, y in zip(a, b)), 1e-9), "manhattan", a, b, m)


@case("C01")
def c01_registry(rng):
    s, other = gen.surface(rng), gen.surface(rng)
    seen = {}
    for _ in range(rng.randint(1, 25)):
        c = tuple(rng.choice([rng.randint(-2, 2), rng.randint(-2, 2), 0.5]) for _ in range(2))
        arg = rng.choice([c, list(c)])
        p = s.get_or_create_position(arg) if rng.random() < 0.7 else s.get_or_create_position(coordinates=arg)
        check(tuple(p.coordinates) == c and isinstance(p.coordinates, tuple), "position without exactly the requested coordinates", c, p.coordinates)
        check(p.surface is s, "position of another surface")
        check(p in s.positions, "position not registered", c)
        q = seen.setdefault(c, p)
        check(p == q and not p != q and hash(p) == hash(q), "positions with equal coordinates differ", c)
        check(len(s.positions) == len({tuple(x) for x in seen}), "registered more or less than once", len(s.positions), len(seen))
        check({tuple(x.coordinates) for x in s.positions} == set(seen), "registered positions")
    check(len(other.positions) == 0, "registered on another surface")
    ps = list(seen.values())
    for a in ps:
        for b in ps:
            check((a == b) == (a.coordinates == b.coordinates), "equality of positions", a.coordinates, b.coordinates)
            check((a != b) == (a.coordinates != b.coordinates), "inequality of positions", a.coordinates, b.coordinates)
            if tuple(a.coordinates) in [tuple(b.coordinates)]:
                check(hash(a) == hash(b), "hash of equal positions")


@case("C01")
def c01_services(rng):
    s = gen.surface(rng)
    P = gen.positions(rng, s, 2, grid=1)
    P.append(GeometricPosition(P[0].coordinates, s))
    vals = [0.0, 1.0, 5.5, INF]

    def mk():
        return Service(rng.choice(P), rng.choice(vals[:3]), rng.choice(vals), rng.choice(vals[:3]))

    for _ in range(20):
        a = mk()
        b = mk() if rng.random() < 0.4 else Service(a.position, a.earliest, a.latest, a.duration)
        if rng.random() < 0.4:
            setattr(b, rng.choice(["earliest", "latest", "duration"]), rng.choice(vals))
        exp = (a.position.coordinates, a.earliest, a.latest, a.duration) == (b.position.coordinates, b.earliest, b.latest, b.duration)
        check((a == b) == exp, "service equality is not equality of all attributes", tuple(a), tuple(b))
        check((a != b) == (not exp), "service inequality", tuple(a), tuple(b))
        if exp:
            check(hash(a) == hash(b), "equal services with different hashes")
    # values with colliding hashes are still different values
    a, b = Service(P[0], 0.0, 10.0, -1), Service(P[0], 0.0, 10.0, -2)
    check(a != b, "services with different durations are equal (hash collision)")
    a, b = Service(P[0], -1.0, 10.0, 0), Service(P[0], -2.0, 10.0, 0)
    check(a != b, "services with different windows are equal (hash collision)")
    d = Service(P[0])
    check((d.earliest, d.latest, d.duration) == (0.0, INF, 0.0) and d.position is P[0], "service defaults")


# ---------------------------------------------------------------------------------------------------------------- C02


@case("C02", weight=2)
def c02_windows(rng):
    s = gen.surface(rng)
    places = gen.positions(rng, s, rng.randint(1, 6))
    t = gen.trip(rng, "T", places)
    if rng.random() < 0.3:
        t = Trip("T", t.origin, t.destination, t.capacity, timeout=rng.choice([INF, 0.0, 3.0, 200.0]))
    o, d = t.origin, t.destination
    travel = ref.dist(o.position, d.position)
    attrs = ["origin_earliest", "origin_latest", "destination_earliest", "destination_latest"]
    exp = {
        "origin_earliest": ref.t_oe(t), "origin_latest": ref.t_ol(t),
        "destination_earliest": ref.t_de(t), "destination_latest": ref.t_dl(t),
    }
    rng.shuffle(attrs)
    got = {}
    for a in attrs:
        got[a] = getattr(t, a)
        check_near(got[a], exp[a], f"effective {a}", tuple(o), tuple(d), t.timeout)
    # a pair of start times allowed by the request is allowed by the effective windows
    for _ in range(20):
        x = rng.uniform(o.earliest, min(o.latest, o.earliest + 200))
        lo = max(d.earliest, x + o.duration + travel)
        hi = min(d.latest, x + o.duration + t.timeout, lo + 100)
        if lo > hi:
            continue
        y = rng.uniform(lo, hi)
        check(got["origin_earliest"] - 1e-6 <= x <= got["origin_latest"] + 1e-6, "a legal pickup start is outside the effective window", x, y, got, tuple(o), tuple(d), t.timeout)
        check(got["destination_earliest"] - 1e-6 <= y <= got["destination_latest"] + 1e-6, "a legal delivery start is outside the effective window", x, y, got)
    # the ends report the request
    check(t.origin_position is o.position and t.destination_position is d.position, "positions of the ends")
    check(t.origin_duration == o.duration and t.destination_duration == d.duration, "durations of the ends")
    check_near(t.distance, travel, "direct distance")
    check_near(t.duration(rng.choice([0.0, 10.0])), travel, "direct duration")
    check(t.empty == (t.capacity == 0), "empty trip", t.capacity)
    pt = PlannedTrip(gen.vehicle(rng, "V", places), t)
    check(pt.origin is o.position and pt.destination is d.position and pt.capacity == t.capacity and pt.timeout == t.timeout, "planned trip reports the request")
    check_near(pt.distance, travel, "planned trip direct distance")
    check(pt.empty == t.empty and pt.trip_identifier == t.identifier, "planned trip reports the request")


# ------------------------------------------------------------------------------------------------------------ C03-C05


def a_route(rng, n=None, loose=None, **kw):
    w = gen.world(rng, n_trips=rng.randint(0, 6) if n is None else n, n_vehicles=1, loose=loose)
    return w, gen.route(rng, w.vehicles[0], w.trips, **kw)


TIMETABLE = [
    ("arrival_time", "arrival"), ("starting_time", "start"), ("departure_time", "departure"), ("waiting_time", "waiting"),
    ("earliest", "earliest"), ("latest", "latest"), ("load_time", "load_time"), ("distance", "distance"),
    ("transit_time", "transit"), ("previous_departure_time", "prev_departure"),
]


@case("C03", weight=3)
def c03_timetable(rng):
    w, r = a_route(rng)
    rows = ref.table(r.stops)
    reads = [(k, a, b) for k in range(len(rows)) for a, b in TIMETABLE]
    rng.shuffle(reads)
    for k, a, b in reads:
        check_near(getattr(r.stops[k], a), getattr(rows[k], b), f"stop {k} of {len(rows)}: {a}", gen.shape(r)[1][k])
    for k, s in enumerate(r.stops):
        check(s.waiting_time >= -1e-9, "negative waiting time")
        check(s.previous_position == rows[k].prev_position, "previous position")


@case("C03")
def c03_planned_start(rng):
    w, r = a_route(rng, planned_starts=False)
    k = rng.randrange(len(r.stops))
    gen.observe(r) if rng.random() < 0.5 else None
    v = gen.half(rng, 0, 150)
    r.stops[k].starting_time = v
    r.flush()
    rows = ref.table(r.stops)
    check(rows[k].stop._starting_time == v, "planned start not kept")
    check(r.stops[k].starting_time >= v - 1e-9 or v < max(rows[k].arrival, rows[k].earliest), "service before the planned start")
    for s, row in zip(r.stops, rows):
        check_near(s.starting_time, row.start, "start with a planned start", v)
        check_near(s.departure_time, row.departure, "departure with a planned start", v)


@case("C03")
def c03_vehicle(rng):
    s = gen.surface(rng)
    places = gen.positions(rng, s, 3)
    v = gen.vehicle(rng, "V", places)
    d = ref.v_destination(v)
    check(v.origin_position is v.origin.position and v.origin_earliest == v.origin.earliest and v.origin_latest == v.origin.latest and v.origin_duration == v.origin.duration, "vehicle origin")
    check(v.destination is d and v.destination_position is d.position and v.destination_earliest == d.earliest and v.destination_latest == d.latest and v.destination_duration == d.duration, "vehicle destination")
    r = Route(v)
    check(len(r.stops) == 2 and r.stops[0].position is v.origin.position and r.stops[1].position is d.position and r.stops[1].previous is r.stops[0] and r.stops[0].previous is None, "empty route of a vehicle")
    check_near(r.stops[0].arrival_time, v.origin.earliest, "arrival at the first depot")


@case("C04", weight=2)
def c04_load(rng):
    w, r = a_route(rng)
    if rng.random() < 0.4:
        for pt in [p for p in ref.planned(r) if rng.random() < 0.5]:      # some get on where the route begins
            pt.pickup.pickup_planned_trips.discard(pt)
            pt.pickup = r.stops[0]
            pt.pickup.pickup_planned_trips.add(pt)
        for stop in r.stops:
            stop.flush()
    rows = ref.table(r.stops)
    ks = list(range(len(r.stops)))
    if rng.random() < 0.5:
        rng.shuffle(ks)
    for k in ks:
        s = r.stops[k]
        check(s.capacity == rows[k].capacity, "load after a stop", k, s.capacity, rows[k].capacity)
        check(s.previous_capacity == rows[k].prev_capacity, "load before a stop", k, s.previous_capacity, rows[k].prev_capacity)
        on = {}
        for q in r.stops[: k + 1]:
            for pt in q.pickup_planned_trips:
                on[id(pt)] = pt.trip.capacity
        for q in r.stops[: k + 1]:
            for pt in q.delivery_planned_trips:
                on.pop(id(pt), None)
        check(s.capacity == sum(on.values()), "load is not what is on board", k, s.capacity, sum(on.values()))


@case("C05", weight=3)
def c05_verdicts(rng):
    w, r = a_route(rng, n=rng.randint(0, 4))
    _verdicts(rng, r)


@case("C05", weight=3)
def c05_thresholds(rng):
    """Exactly representable worlds tuned to one threshold: inside or outside the tolerance."""
    w = gen.world(rng, n_trips=rng.randint(0, 3), n_vehicles=1, loose=True, metric="M")
    w.places = [w.surface.get_or_create_position((rng.randint(0, 8), rng.randint(0, 8))) for _ in range(4)]
    for t in w.trips:
        t.origin.position, t.destination.position = rng.choice(w.places), rng.choice(w.places)
    v = w.vehicles[0]
    v.origin.position = w.places[0]
    if v._destination is not None:
        v._destination.position = rng.choice(w.places)
    r = gen.route(rng, v, w.trips)
    rows = ref.table(r.stops)
    by = {id(x.stop): x for x in rows}
    eps = rng.choice([-0.5, -0.002, -0.0015, -0.0011, -0.0009, -0.0005, 0.0, 0.0005, 0.002])
    what = rng.randrange(6)
    pts = ref.planned(r)
    if what == 0 and pts:
        pt = rng.choice(pts)
        pt.trip.origin.latest = by[id(pt.pickup)].start + eps
    elif what == 1 and pts:
        pt = rng.choice(pts)
        pt.trip.destination.latest = by[id(pt.delivery)].start + eps
    elif what == 2 and pts:
        pt = rng.choice(pts)
        pt.trip.timeout = by[id(pt.delivery)].start - by[id(pt.pickup)].departure + eps
    elif what == 3:
        v.timeout = rows[-1].departure - rows[0].departure + eps
    elif what == 4:
        d = v._destination if v._destination is not None else v.origin
        d.latest = rows[-1].departure + eps
    elif what == 5:
        v.capacity = max(x.capacity for x in rows) + eps
    for t in w.trips:
        t.__dict__.pop("destination_latest", None), t.__dict__.pop("destination_earliest", None)
    gen.cold(r)
    _verdicts(rng, r)


@case("C05", weight=2)
def c05_ends(rng):
    w, r = a_route(rng, loose=True)
    far = w.surface.get_or_create_position((97, 89))
    k = rng.choice([0, -1, None])
    if k is not None:
        r.stops[k].position = rng.choice([far, rng.choice(w.places)])
    gen.cold(r)
    _verdicts(rng, r)


def _verdicts(rng, r):
    rows = ref.table(r.stops)
    by = {id(x.stop): x for x in rows}
    todo = []
    for k, row in enumerate(rows):
        todo.append((f"stop {k}", lambda s=row.stop: s.feasible, ref.stop_verdict(row)))
    vt = []
    for pt in ref.planned(r):
        v = ref.trip_verdict(pt, by)
        vt.append(v)
        todo.append((f"planned trip {pt.trip.identifier}", lambda pt=pt: pt.feasible, v))
    vr = ref.route_verdict(r, rows)
    todo.append(("route", lambda: r.feasible, vr))
    if rng.random() < 0.7:
        rng.shuffle(todo)
    for name, get, v in todo:
        if v.margin < 1e-7:
            continue
        g = get()
        check(isinstance(g, bool) or g in (True, False), "verdict is not a truth value", g)
        check(bool(g) == v.ok, f"feasibility verdict of {name}", f"got {g}", f"expected {v.ok}", gen.shape(r))
    sv = [ref.stop_verdict(x) for x in rows]
    if min([x.margin for x in sv], default=1) > 1e-7:
        check(bool(r.feasible_stops) == all(x.ok for x in sv), "feasible_stops")
    if min([x.margin for x in vt], default=1) > 1e-7:
        check(bool(r.feasible_planned_trips) == all(x.ok for x in vt), "feasible_planned_trips")


@case("C05")
def c05_plans(rng):
    n = rng.choice([0, 1, 2, 3])
    w = gen.world(rng, n_trips=rng.randint(0, 5), n_vehicles=max(n, 1))
    rs = gen.routes(rng, w)[:n]
    vs = [ref.route_verdict(r) for r in rs]
    if min([v.margin for v in vs], default=1) < 1e-7:
        raise Skip()
    p = Planning(set(rs))
    exp = all(v.ok for v in vs)
    check(bool(p.feasible) == exp, "feasibility of a plan", n, p.feasible, [v.ok for v in vs])
    res = Result(gen.AlgorithmStub(w.fleet, w.job), p, 0.0)
    check(bool(res.feasible) == exp, "feasibility of a result", n, res.feasible)
    check(bool(Planning().feasible) is True, "feasibility of an empty plan")


# ---------------------------------------------------------------------------------------------------------------- C12

OBJECTIVES = [DialARideObjective, TaxiSharingObjective, HashCodeObjective]


def _on_time(rng, w, rs):
    """Tune some requests so that the pickup ends exactly at the earliest allowed time."""
    for r in rs:
        rows = ref.table(r.stops)
        for row in rows:
            for pt in row.stop.pickup_planned_trips:
                if rng.random() < 0.5 and row.departure < INF:
                    pt.trip.origin.earliest = row.departure
                    pt.trip.origin.duration = 0.0
        gen.cold(r)
    for t in w.trips:
        t.__dict__.pop("destination_latest", None), t.__dict__.pop("destination_earliest", None)


@case("C12", weight=3)
def c12_values(rng):
    w = gen.world(rng, metric=rng.choice("MME"))
    rs = gen.routes(rng, w, leave_out=0.2)
    if rng.random() < 0.5:
        _on_time(rng, w, rs)
    cls = rng.choice(OBJECTIVES)
    w.job = Job(set(w.trips), objective_cls=cls)
    obj = cls()
    if ref.bonus_rounding(obj, rs):
        raise Skip()
    for r in rs:
        rows = ref.table(r.stops)
        by = {id(x.stop): x for x in rows}
        order = {id(x.stop): k for k, x in enumerate(rows)}
        for x in rows:
            for pt in x.stop.pickup_planned_trips:
                e = ref.objective_of_trip(obj, pt, by, order)
                g = obj.optimization_function(pt)
                check(isinstance(g, tuple) and ref.near_tuple(g, e), f"{cls.__name__} of a planned trip", g, e)
            e = ref.objective_of_stop(obj, x.stop, by, order)
            g = obj.optimization_function(x.stop)
            check(ref.near_tuple(g, e), f"{cls.__name__} of a stop", g, e)
        e = ref.objective_of_route(obj, r)
        g = obj.optimization_function(r)
        check(ref.near_tuple(g, e), f"{cls.__name__} of a route", g, e)
    e = ref.objective_of_plan(obj, rs)
    p = Planning(set(rs))
    check(ref.near_tuple(obj.optimization_function(p), e), f"{cls.__name__} of a plan", obj.optimization_function(p), e)
    res = Result(gen.AlgorithmStub(w.fleet, w.job), p, 0.0)
    check(ref.near_tuple(obj.optimization_function(res), e), f"{cls.__name__} of a result")
    check(ref.near_tuple(res.optimization_value, e), "optimization_value of a result")
    check(type(res.objective) is cls and res.objective is w.job.objective and res.direction is w.job.objective.direction, "objective of a result")
    v = tuple(rng.uniform(-5, 5) for _ in range(obj.dimension_count))
    check(obj.optimization_function(v) == v, "value of a value")


@case("C12", weight=2)
def c12_best(rng):
    w = gen.world(rng, metric="M")
    cls = rng.choice(OBJECTIVES)
    w.job = Job(set(w.trips), objective_cls=cls)
    obj = cls()
    kind = rng.randrange(5)
    cands = []
    for _ in range(rng.randint(0, 5)):
        rs = gen.routes(rng, w, leave_out=rng.choice([0.0, 0.5]))
        if kind == 0:
            cands.append(gen.result(w, rs))
        elif kind == 1:
            cands.append(Planning(set(rs)))
        elif kind == 2:
            cands.append(rng.choice(rs))
        elif kind == 3:
            cands.append(tuple(float(rng.randint(-2, 2)) for _ in range(obj.dimension_count)))
        else:
            cands.append(rng.choice(rng.choice(rs).stops))
    if cands and rng.random() < 0.5:
        cands.append(rng.choice(cands))
    for _ in range(rng.randint(0, 2)):
        cands.insert(rng.randint(0, len(cands)), None)
    got = obj.best(*cands)
    real = [c for c in cands if c is not None]
    if not real:
        check(got is None, "best of nothing", got)
        return
    vals = [obj.optimization_function(c) for c in real]
    m = max(vals)
    check(any(got is c for c in real), "best is not one of the candidates")
    check(obj.optimization_function(got) == m, "best is exceeded by another candidate", vals, obj.optimization_function(got))
    first = next(c for c, v in zip(real, vals) if v == m)
    check(got is first, "best is not the first among equals", vals)


# ---------------------------------------------------------------------------------------------------------------- C13

CRITERIA = [
    EarliestLastDepartureTimeRouteCriterion, ShortestAveragePlannerTripDurationCriterion, ShortestTimeRouteCriterion,
    LongestTimeRouteCriterion, LongestUtilTimeRouteCriterion, HashCodeRouteCriterion,
]
MAXIMISED = {"LongestTimeRouteCriterion", "LongestUtilTimeRouteCriterion", "HashCodeRouteCriterion"}


def criterion_ref(cls, r):
    v = ref.route_verdict(r)
    if v.margin < 1e-7:
        raise Skip()
    name = cls.__name__
    if not v.ok:
        return -INF if name in MAXIMISED else INF
    rows = ref.table(r.stops)
    by = {id(x.stop): x for x in rows}
    pts = ref.planned(r)
    if name == "EarliestLastDepartureTimeRouteCriterion":
        return rows[-1].departure
    if name == "ShortestAveragePlannerTripDurationCriterion":
        ds = [by[id(pt.delivery)].start - by[id(pt.pickup)].departure for pt in pts]
        return statistics.mean(ds) if ds else 0
    if name in ("ShortestTimeRouteCriterion", "LongestTimeRouteCriterion"):
        return rows[-1].departure - rows[0].departure
    total = sum(ref.dist(pt.trip.origin.position, pt.trip.destination.position) for pt in pts)
    if name == "HashCodeRouteCriterion":
        if ref.bonus_rounding(HashCodeObjective(), [r]):
            raise Skip()
        total += sum(pt.trip.on_time_bonus for pt in pts if by[id(pt.pickup)].departure == ref.t_oe(pt.trip))
    return total


@case("C13", weight=2)
def c13_scoring(rng):
    w = gen.world(rng, n_trips=rng.randint(0, 4), n_vehicles=1, loose=rng.random() < 0.7, metric=rng.choice("MME"))
    r = gen.route(rng, w.vehicles[0], w.trips)
    if rng.random() < 0.5:
        _on_time(rng, w, [r])
    for cls in CRITERIA:
        c = cls()
        e = criterion_ref(cls, r)
        g = c.scoring(r)
        check(near(g, e), f"score of {cls.__name__}", g, e, gen.shape(r))
        check((c.direction is OptimizationDirection.MAXIMIZATION) == (cls.__name__ in MAXIMISED), "direction", cls.__name__)


@case("C13", weight=2)
def c13_ranking(rng):
    w = gen.world(rng, n_trips=rng.randint(0, 4), n_vehicles=1, loose=rng.random() < 0.7, metric="M")
    pool = [gen.route(rng, w.vehicles[0], [t for t in w.trips if rng.random() < 0.7]) for _ in range(rng.randint(0, 7))]
    pool += [gen.rebuild(rng.choice(pool)) for _ in range(rng.randint(0, 3)) if pool]
    rng.shuffle(pool)
    cls = rng.choice(CRITERIA)
    c = cls()
    up = cls.__name__ in MAXIMISED
    score = {id(r): c.scoring(r) for r in pool}
    exp = sorted(pool, key=lambda r: score[id(r)], reverse=up)  # stable in both directions
    inplace = rng.random() < 0.5
    arg = list(pool)
    src = arg if rng.random() < 0.6 else (iter(arg) if not inplace else tuple(arg))
    got = c.sorted(src, inplace=inplace)
    check(isinstance(got, list) and len(got) == len(exp) and all(a is b for a, b in zip(got, exp)), "sorted order", cls.__name__, [score[id(r)] for r in pool], [score.get(id(r)) for r in got])
    if src is arg:
        if inplace:
            check(got is arg, "in-place sorting returned another list")
        else:
            check(all(a is b for a, b in zip(arg, pool)) and len(arg) == len(pool), "sorting changed its input")
    n = rng.randint(0, len(pool) + 2)
    gn = c.nbest(n, iter(list(pool)) if rng.random() < 0.5 else list(pool))
    check(len(gn) == min(n, len(exp)) and all(a is b for a, b in zip(gn, exp)), "n best", cls.__name__, n, [score[id(r)] for r in pool], [score.get(id(r)) for r in gn])
    args = list(pool)
    for _ in range(rng.randint(0, 2)):
        args.insert(rng.randint(0, len(args)), None)
    b = c.best(*args)
    check((b is None) if not exp else (b is exp[0]), "best", cls.__name__, [score[id(r)] for r in pool], None if b is None else score[id(b)])


# ---------------------------------------------------------------------------------------------------------------- C21


@case("C21", weight=3)
def c21_trip_metrics(rng):
    w, r = a_route(rng)
    rows = ref.table(r.stops)
    idx = {id(x.stop): k for k, x in enumerate(rows)}
    for pt in sorted(ref.planned(r), key=lambda p: rng.random()):
        i, j = idx[id(pt.pickup)], idx[id(pt.delivery)]
        check_near(pt.pickup_time, rows[i].departure, "pickup time")
        check_near(pt.delivery_time, rows[j].start, "delivery time")
        check_near(pt.duration, rows[j].start - rows[i].departure, "ride time")
        check_near(pt.waiting_time, sum(x.waiting for x in rows[i + 1 : j + 1]), "waiting time of a trip")
        check_near(pt.transit_time, sum(x.transit for x in rows[i + 1 : j + 1]), "travel time of a trip")
        check_near(pt.load_time, rows[i].load_time + rows[j].load_time, "load time of a trip")


def _same_multiset(got, exp, msg):
    got, exp = list(got), list(exp)
    check(sorted(map(id, got)) == sorted(map(id, exp)), msg, len(got), len(exp))


@case("C21", weight=2)
def c21_route_metrics(rng):
    w, r = a_route(rng)
    rows = ref.table(r.stops)
    by = {id(x.stop): x for x in rows}
    pts = ref.planned(r)
    check_near(r.duration, rows[-1].departure - rows[0].departure, "route duration")
    check_near(r.distance, sum(x.distance for x in rows), "route distance")
    check_near(r.waiting_time, sum(x.waiting for x in rows), "route waiting time")
    check_near(r.transit_time, sum(by[id(p.delivery)].start - by[id(p.pickup)].departure for p in pts), "route transit time")
    check_near(r.first_departure_time, rows[0].departure, "first departure")
    check_near(r.last_departure_time, rows[-1].departure, "last departure")
    check_near(r.current_departure_time, rows[-2].departure, "current departure")
    check_near(r.current_arrival_time, rows[-2].arrival, "current arrival")
    check(r.first_stop is r.stops[0] and r.last_stop is r.stops[-1] and r.current_stop is r.stops[-2], "ends of a route")
    check(r.last_position is r.stops[-1].position and r.current_position is r.stops[-2].position, "positions of a route")
    check([id(p) for p in r.positions] == [id(s.position) for s in r.stops], "positions of a route")
    _same_multiset(r.pickups, pts, "pickups of a route")
    _same_multiset(r.deliveries, [p for s in r.stops for p in s.delivery_planned_trips], "deliveries of a route")
    _same_multiset(r.planned_trips, pts, "planned trips of a route")
    _same_multiset(r.trips, [p.trip for p in pts], "trips of a route")
    loaded = [p for p in pts if p.trip.capacity != 0]
    _same_multiset(r.loaded_planned_trips, loaded, "loaded planned trips of a route")
    _same_multiset(r.loaded_trips, [p.trip for p in loaded], "loaded trips of a route")
    check(r.loaded_trips_count == len(loaded), "number of loaded trips", r.loaded_trips_count, len(loaded))
    check(bool(r.loaded) == bool(pts), "loaded route", r.loaded, len(pts))
    check(r.vehicle_identifier == r.vehicle.identifier, "vehicle identifier")
    # pickups come in visiting order
    order = {id(s): k for k, s in enumerate(r.stops)}
    seq = [order[id(p.pickup)] for p in r.pickups]
    check(seq == sorted(seq), "pickups not in visiting order")
    seq = [order[id(p.delivery)] for p in r.deliveries]
    check(seq == sorted(seq), "deliveries not in visiting order")
    for k, s in enumerate(r.stops):
        _same_multiset(s.planned_trips, list(s.pickup_planned_trips) + list(s.delivery_planned_trips), "planned trips of a stop")
        _same_multiset(s.trips, [p.trip for p in s.planned_trips], "trips of a stop")
        check([id(x) for x in s.all_previous] == [id(x) for x in reversed(r.stops[:k])], "all previous stops")
        _same_multiset(s.all_previous_pickups, [p for x in r.stops[:k] for p in x.pickup_planned_trips], "all previous pickups")


@case("C21", weight=2)
def c21_plan_metrics(rng):
    w = gen.world(rng, n_trips=rng.randint(1, 8))
    rs = gen.routes(rng, w, leave_out=0.3)
    p = Planning(set(rs))
    _same_multiset(p.planned_trips, [x for r in rs for x in ref.planned(r)], "planned trips of a plan")
    _same_multiset(p.trips, [x.trip for r in rs for x in ref.planned(r)], "trips of a plan")
    _same_multiset(p.vehicles, [r.vehicle for r in rs], "vehicles of a plan")
    _same_multiset(p.loaded_routes, [r for r in rs if ref.planned(r)], "loaded routes")
    res = Result(gen.AlgorithmStub(w.fleet, w.job), p, 1.5)
    done = {id(x.trip) for r in rs for x in ref.planned(r) if x.trip.capacity != 0}
    check({id(t) for t in res.completed_trips} == done and len(res.completed_trips) == len(done), "completed trips", len(res.completed_trips), len(done))
    check_near(res.coverage_rate, len(done) / len(w.trips), "coverage")
    check(res.trips is w.job.trips and res.vehicles is w.fleet.vehicles and res.routes is p.routes and res.planning_uuid == p.uuid, "parts of a result")
    check(res.job is w.job and res.fleet is w.fleet and res.computation_time == 1.5, "parts of a result")


# ---------------------------------------------------------------------------------------------------------------- C20


@case("C20", weight=3)
def c20_pairs(rng):
    from jinete.utils import sample_index_pairs

    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 9, 14, 20, 40])
    if n < 2:
        n = 2 if rng.random() < 0.7 else n
    total = n * (n - 1) // 2
    count = rng.choice([0, 1, 2, total - 1, total, total + 1, total // 2, 128, 2 * total + 3])
    if count < 0:
        raise Skip()
    rnd = rng.choice([None, _random.Random(rng.randint(0, 99))])
    out = list(sample_index_pairs(n, count) if rnd is None and rng.random() < 0.5 else sample_index_pairs(n, count, rnd))
    for p in out:
        check(isinstance(p, tuple) and len(p) == 2 and 0 <= p[0] < p[1] < n, "pair out of range", n, count, p)
    check(len(set(out)) == len(out), "repeated pair", n, count)
    check(len(out) == (total if total <= count else count), "number of pairs", n, count, len(out))


@case("C20")
def c20_pairs_cover(rng):
    """Every pair can be sampled."""
    from jinete.utils import sample_index_pairs

    n = rng.choice([3, 4, 5])
    rnd = _random.Random(rng.randint(0, 10**6))
    seen = set()
    for _ in range(800):
        seen |= set(sample_index_pairs(n, 2, rnd))
    check(seen == set(itertools.combinations(range(n), 2)), "some pair is never sampled", n, sorted(seen))


@case("C20", weight=2)
def c20_dedupe(rng):
    from jinete.utils import remove_duplicates

    kind = rng.randrange(4)
    if kind == 0:
        seq = [rng.randint(-3, 3) for _ in range(rng.randint(0, 15))]
    elif kind == 1:
        seq = [rng.choice(["a", "b", "", "ab", None, 0, 1.0, 1, True, (1,), (1, 2)]) for _ in range(rng.randint(0, 15))]
    elif kind == 2:
        objs = [object() for _ in range(4)]
        seq = [rng.choice(objs) for _ in range(rng.randint(0, 12))]
    else:
        seq = [rng.random() for _ in range(rng.randint(0, 6))] * 2
    orig = list(seq)
    out = remove_duplicates(seq)
    exp = []
    for x in orig:
        if not any(x == y for y in exp):
            exp.append(x)
    check(isinstance(out, list) and len(out) == len(exp) and all(a is b for a, b in zip(out, exp)), "first occurrences in order", orig, out)
    check(len(seq) == len(orig) and all(a is b for a, b in zip(seq, orig)), "input changed")


@case("C20")
def c20_ncr(rng):
    from jinete.utils.random import ncr

    n = rng.randint(0, 60)
    r = rng.randint(0, n)
    check(ncr(n, r) == math.comb(n, r), "binomial coefficient", n, r, ncr(n, r))
    n = rng.randint(100, 4000)
    check(ncr(n, 2) == n * (n - 1) // 2, "pairs", n)
