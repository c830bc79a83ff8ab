"""Reference meaning of the data model, computed from raw attributes only (positions, windows, links, planned starts).

Nothing here calls a derived property of the code under verification.
"""
import math

INF = float("inf")
TOL = 1e-3


def coords(p):
    return tuple(p.coordinates)


def metric_name(surface):
    return surface._verif_metric


def dist(p, q):
    m = metric_name(p.surface)
    a, b = coords(p), coords(q)
    if m == "E":
        return math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))
    return sum(abs(x - y) for x, y in zip(a, b))


# --- trips


def t_oe(t):
    return max(t.destination.earliest - t.origin.duration - t.timeout, t.origin.earliest)


def t_ol(t):
    return min(t.destination.latest - t.origin.duration - dist(t.origin.position, t.destination.position), t.origin.latest)


def t_de(t):
    return max(t.origin.earliest + t.origin.duration + dist(t.origin.position, t.destination.position), t.destination.earliest)


def t_dl(t):
    return min(t.origin.latest + t.origin.duration + t.timeout, t.destination.latest)


def v_destination(v):
    return v.origin if v._destination is None else v._destination


# --- routes


class StopRef(object):
    __slots__ = (
        "stop", "earliest", "latest", "load_time", "arrival", "start", "departure", "waiting", "capacity", "transit",
        "distance", "feasible", "margin", "prev_position", "prev_departure", "prev_capacity",
    )


def stop_row(stop, prev):
    """The row of a stop given the row of the stop before it (None for the first one)."""
    r = StopRef()
    r.stop = stop
    ps = [pt.trip for pt in stop.pickup_planned_trips]
    ds = [pt.trip for pt in stop.delivery_planned_trips]
    r.earliest = max([t_oe(t) for t in ps] + [t_de(t) for t in ds], default=0.0)
    r.latest = min([t_ol(t) for t in ps] + [t_dl(t) for t in ds], default=INF)
    r.load_time = max([t.origin.duration for t in ps] + [t.destination.duration for t in ds], default=0.0)
    if prev is None:
        r.prev_position, r.prev_departure, r.prev_capacity = stop.vehicle.origin.position, stop.vehicle.origin.earliest, 0
    else:
        r.prev_position, r.prev_departure, r.prev_capacity = prev.stop.position, prev.departure, prev.capacity
    r.transit = r.distance = dist(r.prev_position, stop.position)
    r.arrival = r.prev_departure + r.transit
    r.start = max(r.arrival, r.earliest, r.arrival if stop._starting_time is None else stop._starting_time)
    r.departure = r.start + r.load_time
    r.waiting = r.start - r.arrival
    r.capacity = r.prev_capacity + sum(t.capacity for t in ps) - sum(t.capacity for t in ds)
    r.margin = min(r.latest + TOL - r.start, stop.vehicle.capacity + TOL - r.capacity)
    r.feasible = r.margin >= 0
    return r


def table(stops):
    """Rows of a list of stops, following the list (not the links)."""
    rows, prev = [], None
    for s in stops:
        prev = stop_row(s, prev)
        rows.append(prev)
    return rows


class Verdict(object):
    """A verdict with the distance to the closest threshold (to recognise cases decided by rounding)."""

    def __init__(self):
        self.ok, self.margin = True, INF

    def le(self, a, b):
        """a <= b"""
        m = b - a if not (a == b) else 0.0
        if math.isnan(m):
            m = 0.0
        if m < 0:
            self.ok = False
        self.margin = min(self.margin, abs(m))

    def must(self, cond):
        if not cond:
            self.ok = False
        return self

    def also(self, other):
        if not other.ok:
            self.ok = False
        self.margin = min(self.margin, other.margin)


def stop_verdict(r):
    v = Verdict()
    v.le(r.earliest, r.start + TOL)
    v.le(r.start, r.latest + TOL)
    v.le(r.capacity, r.stop.vehicle.capacity + TOL)
    return v


def trip_verdict(pt, rows_by_stop):
    p, d = rows_by_stop[id(pt.pickup)], rows_by_stop[id(pt.delivery)]
    v = stop_verdict(p)
    v.also(stop_verdict(d))
    v.le(d.start - p.departure, pt.trip.timeout + TOL)
    return v


def route_verdict(route, rows=None):
    rows = table(route.stops) if rows is None else rows
    by = {id(r.stop): r for r in rows}
    v = Verdict()
    veh = route.vehicle
    dest = v_destination(veh)
    v.must(coords(rows[0].stop.position) == coords(veh.origin.position))
    v.le(veh.origin.earliest - TOL, rows[0].arrival)
    v.must(coords(rows[-1].stop.position) == coords(dest.position))
    v.le(rows[-1].departure, dest.latest + TOL)
    v.le(rows[-1].departure - rows[0].departure, veh.timeout + TOL)
    for r in rows:
        for pt in r.stop.pickup_planned_trips:
            v.also(trip_verdict(pt, by))
    return v


def planned(route):
    return [pt for s in route.stops for pt in s.pickup_planned_trips]


# --- objectives


def objective_of_trip(obj, pt, rows_by_stop, order):
    name = type(obj).__name__
    p, d = rows_by_stop[id(pt.pickup)], rows_by_stop[id(pt.delivery)]
    if name == "DialARideObjective":
        i, j = order[id(pt.pickup)], order[id(pt.delivery)]
        stops = sorted(order, key=order.get)
        return (1, -sum(rows_by_stop[s].distance for s in stops[i + 1 : j + 1]))
    if pt.trip.capacity == 0:
        return (0.0,)
    if name == "TaxiSharingObjective":
        return (d.start - p.departure,)
    sc = dist(pt.trip.origin.position, pt.trip.destination.position)
    if t_oe(pt.trip) == p.departure:
        sc += pt.trip.on_time_bonus
    return (sc,)


def objective_of_stop(obj, stop, rows_by_stop, order):
    n = 2 if type(obj).__name__ == "DialARideObjective" else 1
    out = (0,) * n
    for pt in stop.pickup_planned_trips:
        out = tuple(a + b for a, b in zip(out, objective_of_trip(obj, pt, rows_by_stop, order)))
    return out


def objective_of_route(obj, route):
    rows = table(route.stops)
    by = {id(r.stop): r for r in rows}
    order = {id(r.stop): k for k, r in enumerate(rows)}
    if type(obj).__name__ == "DialARideObjective":
        return (len(planned(route)), -sum(r.distance for r in rows))
    out = (0,)
    for s in route.stops:
        out = tuple(a + b for a, b in zip(out, objective_of_stop(obj, s, by, order)))
    return out


def objective_of_plan(obj, routes):
    n = 2 if type(obj).__name__ == "DialARideObjective" else 1
    out = (0,) * n
    for r in routes:
        out = tuple(a + b for a, b in zip(out, objective_of_route(obj, r)))
    return out


def near_tuple(a, b, tol=1e-6):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x == y:
            continue
        if not abs(x - y) <= tol * max(1.0, abs(x), abs(y)):
            return False
    return True


def bonus_rounding(obj, routes):
    """Some on-time bonus is decided by rounding (start and bound differ by less than 1e-9 but not equal)."""
    if type(obj).__name__ != "HashCodeObjective":
        return False
    for route in routes:
        rows = table(route.stops)
        for r in rows:
            for pt in r.stop.pickup_planned_trips:
                g = abs(t_oe(pt.trip) - r.departure)
                if g != 0 and g < 1e-9:
                    return True
    return False
