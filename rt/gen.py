"""Generators of worlds (places, requests, vehicles), routes and plans."""
from . import env  # noqa: F401
from jinete.models import (
    DialARideObjective,
    DistanceMetric,
    Fleet,
    GeometricSurface,
    HashCodeObjective,
    Job,
    PlannedTrip,
    Planning,
    Result,
    Route,
    Service,
    Stop,
    TaxiSharingObjective,
    Trip,
    Vehicle,
)

INF = float("inf")


def half(rng, lo, hi):
    """A multiple of one half (exact in floating point)."""
    return rng.randint(int(lo * 2), int(hi * 2)) / 2


class World(object):
    pass


def surface(rng, metric=None):
    m = metric or rng.choice("EMM")
    s = GeometricSurface(metric=DistanceMetric.EUCLIDEAN if m == "E" else DistanceMetric.MANHATTAN)
    s._verif_metric = m
    return s


def positions(rng, surf, n, grid=None, dim=2):
    grid = grid if grid is not None else rng.choice([3, 6, 15, 40])
    out = []
    for _ in range(n):
        if rng.random() < 0.2 and not grid < 6:
            c = tuple(rng.uniform(-grid, grid) for _ in range(dim))
        else:
            c = tuple(rng.randint(-grid, grid) for _ in range(dim))
        out.append(surf.get_or_create_position(c))
    return out


def trip(rng, ident, places, loose=False, exact=False):
    o, d = rng.choice(places), rng.choice(places)
    e1, e2 = half(rng, 0, 60), half(rng, 0, 90)
    style = rng.random()
    if loose or style < 0.35:
        so = Service(o, 0.0 if rng.random() < 0.5 else e1, INF, half(rng, 0, 6) if rng.random() < 0.6 else 0.0)
        sd = Service(d, 0.0 if rng.random() < 0.5 else e2, INF, half(rng, 0, 6) if rng.random() < 0.6 else 0.0)
    else:
        so = Service(o, e1, e1 + half(rng, 0, 120), half(rng, 0, 6) if rng.random() < 0.6 else 0.0)
        sd = Service(d, e2, e2 + half(rng, 0, 160), half(rng, 0, 6) if rng.random() < 0.6 else 0.0)
        if rng.random() < 0.3:
            so.latest = INF
        if rng.random() < 0.3:
            sd.latest = INF
    timeout = INF if loose or rng.random() < 0.4 else half(rng, 0, 90)
    cap = rng.choice([1, 1, 1, 2, 3, 0.5, 0, 0])
    return Trip(ident, so, sd, cap, on_time_bonus=rng.choice([0.0, 2, 5.5]), timeout=timeout)


def vehicle(rng, ident, places, loose=False):
    o = rng.choice(places)
    so = Service(o, rng.choice([0.0, 0.0, half(rng, 0, 30)]), rng.choice([INF, half(rng, 100, 300)]),
                 rng.choice([0.0, 0.0, half(rng, 0, 5)]))
    dest = None
    if rng.random() < 0.4:
        dest = Service(rng.choice(places), rng.choice([0.0, half(rng, 0, 20)]),
                       INF if loose else rng.choice([INF, half(rng, 60, 400)]), 0.0)
    if loose:
        so.latest = INF
    return Vehicle(ident, so, dest, rng.choice([1, 2, 3, 4, 6]) if not loose else 12,
                   INF if loose or rng.random() < 0.5 else half(rng, 30, 300))


def world(rng, n_trips=None, n_vehicles=None, loose=None, metric=None, dim=2):
    w = World()
    w.loose = rng.random() < 0.5 if loose is None else loose
    w.surface = surface(rng, metric)
    w.places = positions(rng, w.surface, rng.randint(2, 10), dim=dim)
    n_trips = rng.randint(0, 7) if n_trips is None else n_trips
    n_vehicles = rng.randint(1, 4) if n_vehicles is None else n_vehicles
    w.trips = [trip(rng, f"T{k}", w.places, w.loose) for k in range(n_trips)]
    w.vehicles = [vehicle(rng, f"V{k}", w.places, w.loose) for k in range(n_vehicles)]
    w.fleet = Fleet(set(w.vehicles))
    w.objective_cls = rng.choice([DialARideObjective, DialARideObjective, TaxiSharingObjective, HashCodeObjective])
    w.job = Job(set(w.trips), objective_cls=w.objective_cls)
    return w


def events(rng, trips, nested=True):
    """A random visiting order of pickups and deliveries, each pickup before its delivery."""
    out = []
    for t in trips:
        i = rng.randint(0, len(out))
        j = rng.randint(i, len(out)) if rng.random() < 0.6 else min(i + rng.randint(0, 1), len(out))
        out.insert(i, ("P", t))
        out.insert(j + 1, ("D", t))
    return out


def route(rng, veh, trips, merge=None, planned_starts=None, order=None):
    """A route built from raw parts: stops in order, linked, with planned trips."""
    merge = rng.random() < 0.4 if merge is None else merge
    planned_starts = rng.random() < 0.35 if planned_starts is None else planned_starts
    evs = events(rng, trips) if order is None else order
    groups = []
    for kind, t in evs:
        pos = t.origin.position if kind == "P" else t.destination.position
        if (
            merge
            and groups
            and groups[-1][0].coordinates == pos.coordinates
            and not any(k != kind and u is t for k, u in groups[-1][1])
            and rng.random() < 0.8
        ):
            groups[-1][1].append((kind, t))
        else:
            groups.append((pos, [(kind, t)]))
    first = Stop(veh, veh.origin_position, None)
    stops = [first]
    pts = {}
    for pos, evs_ in groups:
        s = Stop(veh, pos, stops[-1])
        for kind, t in evs_:
            if kind == "P":
                pt = PlannedTrip(veh, t)
                pts[id(t)] = pt
                pt.pickup = s
                s.pickup_planned_trips.add(pt)
            else:
                pt = pts[id(t)]
                pt.delivery = s
                s.delivery_planned_trips.add(pt)
        stops.append(s)
    stops.append(Stop(veh, veh.destination_position, stops[-1]))
    if planned_starts:
        for s in stops:
            if rng.random() < 0.4:
                s.starting_time = half(rng, 0, 120)
    return Route(veh, stops)


def split(rng, items, n):
    out = [[] for _ in range(n)]
    for x in items:
        out[rng.randrange(n)].append(x)
    return out


def routes(rng, w, leave_out=0.0, **kw):
    use = [t for t in w.trips if rng.random() >= leave_out]
    parts = split(rng, use, len(w.vehicles))
    return [route(rng, v, p, **kw) for v, p in zip(w.vehicles, parts)]


class AlgorithmStub(object):
    """Only carries the job and fleet of a result."""

    def __init__(self, fleet, job):
        self.fleet, self.job = fleet, job


def result(w, rs, computation_time=0.0):
    return Result(AlgorithmStub(w.fleet, w.job), Planning(set(rs)), computation_time)


def cold(rt):
    """Forget every cached value (white-box: clears instance dictionaries of cached entries)."""
    rt.__dict__.pop("feasible", None)
    for s in rt.stops:
        for k in ("arrival_time", "departure_time", "capacity", "feasible"):
            s.__dict__.pop(k, None)
        for pt in list(s.pickup_planned_trips) + list(s.delivery_planned_trips):
            pt.__dict__.pop("feasible", None)


def rebuild(rt):
    """A freshly built identical route: new stops and planned trips, nothing cached."""
    stops, pts = [], {}
    for s in rt.stops:
        n = Stop(s.vehicle, s.position, stops[-1] if stops else None, starting_time=s._starting_time)
        for pt in s.pickup_planned_trips:
            q = pts.setdefault(id(pt), PlannedTrip(pt.vehicle, pt.trip))
            q.pickup = n
            n.pickup_planned_trips.add(q)
        for pt in s.delivery_planned_trips:
            q = pts.setdefault(id(pt), PlannedTrip(pt.vehicle, pt.trip))
            q.delivery = n
            n.delivery_planned_trips.add(q)
        stops.append(n)
    return Route(rt.vehicle, stops)


STOP_VALUES = (
    "arrival_time", "starting_time", "departure_time", "waiting_time", "capacity", "feasible", "earliest", "latest",
    "load_time", "distance", "transit_time", "previous_capacity", "previous_departure_time",
)
TRIP_VALUES = ("pickup_time", "delivery_time", "waiting_time", "transit_time", "duration", "load_time", "feasible", "distance")
ROUTE_VALUES = ("feasible", "duration", "distance", "waiting_time", "transit_time", "first_departure_time", "last_departure_time", "loaded_trips_count", "loaded")


def observe(rt):
    """Every derived value of a route, in order."""
    out = []
    for k, s in enumerate(rt.stops):
        for a in STOP_VALUES:
            out.append((f"stop{k}.{a}", getattr(s, a)))
    for k, s in enumerate(rt.stops):
        for pt in sorted(s.pickup_planned_trips, key=lambda p: p.trip.identifier):
            for a in TRIP_VALUES:
                out.append((f"trip[{pt.trip.identifier}].{a}", getattr(pt, a)))
    for a in ROUTE_VALUES:
        out.append((f"route.{a}", getattr(rt, a)))
    return out


def structure(rt):
    """Identities and links of a route."""
    return (
        id(rt.vehicle),
        tuple(
            (
                id(s), id(s.previous), id(s.position), s._starting_time,
                frozenset(map(id, s.pickup_planned_trips)), frozenset(map(id, s.delivery_planned_trips)),
            )
            for s in rt.stops
        ),
        tuple(sorted((id(pt), id(pt.trip), id(pt.pickup), id(pt.delivery)) for s in rt.stops for pt in s.pickup_planned_trips)),
    )


def shape(rt):
    """Structure up to object identity."""
    idx = {id(s): k for k, s in enumerate(rt.stops)}
    return (
        id(rt.vehicle),
        tuple(
            (
                None if s.previous is None else idx.get(id(s.previous), "?"),
                tuple(s.position.coordinates), s._starting_time, id(s.vehicle),
                tuple(sorted(pt.trip.identifier for pt in s.pickup_planned_trips)),
                tuple(sorted(pt.trip.identifier for pt in s.delivery_planned_trips)),
            )
            for s in rt.stops
        ),
        tuple(sorted(
            (pt.trip.identifier, idx.get(id(pt.pickup), "?"), idx.get(id(pt.delivery), "?"), id(pt.trip), id(pt.vehicle))
            for s in rt.stops for pt in s.pickup_planned_trips
        )),
    )


def well_formed(rt, check):
    """Links, mutual references and order."""
    for a, b in zip(rt.stops[:-1], rt.stops[1:]):
        check(b.previous is a, "previous link is not the stop right before")
    check(rt.stops[0].previous is None, "the first stop has a previous one")
    pick, deliv = {}, {}
    for k, s in enumerate(rt.stops):
        for pt in s.pickup_planned_trips:
            check(pt.pickup is s, "pickup link of a planned trip is not its stop")
            check(id(pt) not in pick, "pickup twice")
            pick[id(pt)] = k
        for pt in s.delivery_planned_trips:
            check(pt.delivery is s, "delivery link of a planned trip is not its stop")
            check(id(pt) not in deliv, "delivery twice")
            deliv[id(pt)] = k
    check(set(pick) == set(deliv), "a pickup without its delivery (or the other way round)")
    for i in pick:
        check(pick[i] < deliv[i], "delivery not after pickup")
