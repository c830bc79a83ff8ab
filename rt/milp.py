"""Contracts of the exact model evaluated at run time: C18.

A stand-in solver receives the very problem the code hands to its solver, so constraints, cost and decoding are observed
through the public interface (``ThreeIndexLinearModel.solve`` / ``MilpAlgorithm.optimize``).
"""
import itertools
import os
import tempfile

from . import env  # noqa: F401
from . import gen, ref
from .harness import Skip, case, check, check_near, near
import pulp as lp
from jinete.algorithms import MilpAlgorithm
from jinete.algorithms.exacts.models import ThreeIndexLinearModel
from jinete.models import DialARideObjective, Fleet, Job, Service, Trip, Vehicle

DAY = 1440
TOL = 1e-4


class Inst(object):
    pass


def instance(rng, n=None, m=None):
    """An instance with a known legal set of tours: places distinct, one depot, windows within the planning day."""
    w = Inst()
    n = rng.randint(1, 4) if n is None else n
    m = rng.randint(1, 3) if m is None else m
    w.n, w.m = n, m
    w.surface = gen.surface(rng)
    grid = rng.choice([4, 8, 20])
    cells = set()
    while len(cells) < 2 * n + 1:
        cells.add((rng.randint(-grid, grid), rng.randint(-grid, grid)))
    cells = list(cells)
    rng.shuffle(cells)
    P = [w.surface.get_or_create_position(c) for c in cells]
    w.depot = P[0]
    caps = [float(rng.choice([1, 1, 2, 3])) for _ in range(n)]
    durs = [(gen.half(rng, 0, 8), gen.half(rng, 0, 8)) if rng.random() < 0.7 else (0.0, 0.0) for _ in range(n)]
    parts = gen.split(rng, list(range(n)), m)
    w.tours, w.times = [], {}
    d = lambda a, b: ref.dist(a, b)
    pos = lambda e: P[1 + e[1]] if e[0] == "P" else P[1 + n + e[1]]
    dur = lambda e: durs[e[1]][0 if e[0] == "P" else 1]
    vehicles = []
    for k in range(m):
        evs = gen.events(rng, parts[k])
        t0 = gen.half(rng, 0, 60)
        t, here = t0, w.depot
        load = top = 0.0
        seq = []
        for e in evs:
            t += d(here, pos(e)) + (gen.half(rng, 0, 20) if rng.random() < 0.4 else 0)
            seq.append((e, t))
            w.times[e] = t
            t += dur(e)
            here = pos(e)
            load += caps[e[1]] * (1 if e[0] == "P" else -1)
            top = max(top, load)
        end = t + d(here, w.depot) + (gen.half(rng, 0, 10) if rng.random() < 0.3 else 0)
        if end > DAY:
            raise Skip()
        w.tours.append((t0, seq, end))
        capacity = max([top] + caps) + rng.choice([0, 0, 1])
        timeout = end - t0 + rng.choice([0, 0.5, 30, 2000])
        vehicles.append((capacity, timeout))
    trips = []
    for i in range(n):
        tp, td = w.times[("P", i)], w.times[("D", i)]
        tight = lambda: gen.half(rng, 0, 60) if rng.random() < 0.7 else 0.0
        ride = td - tp - durs[i][0]
        trips.append(Trip(
            f"t{i}",
            Service(P[1 + i], max(0.0, tp - tight()), min(DAY, tp + tight()), durs[i][0]),
            Service(P[1 + n + i], max(0.0, td - tight()), min(DAY, td + tight()), durs[i][1]),
            caps[i], timeout=ride + rng.choice([0.0, 0.5, 40.0, 300.0]),
        ))
    w.trips = trips
    depot = Service(w.depot, 0.0, float(rng.choice([DAY, 2 * DAY])))
    w.vehicles = [Vehicle(f"v{k}", depot, capacity=c, timeout=t) for k, (c, t) in enumerate(vehicles)]
    w.fleet, w.job = Fleet(set(w.vehicles)), Job(set(trips), DialARideObjective)
    return w


class _Done(Exception):
    pass


class Spy(object):
    """A solver that hands the problem to a function of the case."""

    def __init__(self, fn):
        self.fn = fn

    def actualSolve(self, problem, **kw):
        self.fn(problem)
        problem.assignStatus(lp.LpStatusOptimal)
        return lp.LpStatusOptimal

    def available(self):
        return True


def cbc(seconds=20):
    return lp.PULP_CBC_CMD(msg=0, timeLimit=seconds, threads=1)


def names(problem):
    return {v.name: v for v in problem.variables()}


def orders(w):
    """The order in which the model numbers vehicles and trips."""
    return tuple(w.fleet.vehicles), tuple(w.job.trips)


def assignment(w):
    """Values of every variable for the known legal tours."""
    vs, ts = orders(w)
    n = w.n
    vi = {id(v): k for k, v in enumerate(w.vehicles)}
    ti = {t.identifier: k for k, t in enumerate(w.trips)}
    node = {}
    for q, t in enumerate(ts):
        i = ti[t.identifier]
        node[("P", i)], node[("D", i)] = q + 1, n + q + 1
    cap = {node[("P", i)]: w.trips[i].capacity for i in range(n)}
    cap.update({node[("D", i)]: -w.trips[i].capacity for i in range(n)})
    val = {}
    paths = []
    last = 2 * n + 1
    for k, v in enumerate(vs):
        t0, seq, end = w.tours[vi[id(v)]]
        path = [0] + [node[e] for e, _ in seq] + [last]
        paths.append(path)
        for i in range(last + 1):
            for j in range(last + 1):
                val[f"x_{k}_{i}_{j}"] = 0.0
            val[f"w_{k}_{i}"] = max(0.0, cap.get(i, 0.0))
        for a, b in zip(path, path[1:]):
            val[f"x_{k}_{a}_{b}"] = 1.0
        for e in node:
            val[f"u_{k}_{node[e]}"] = w.times[e]
        val[f"u_{k}_0"], val[f"u_{k}_{last}"] = t0, end
        load = 0.0
        for a in path[1:]:
            load += cap.get(a, 0.0)
            val[f"w_{k}_{a}"] = max(0.0, load)
    return val, paths, node


def set_values(problem, val, rng=None):
    for name, v in names(problem).items():
        if name in val:
            x = val[name]
            if rng is not None and name[0] == "x" and rng.random() < 0.5:
                x = abs(x - rng.choice([1e-9, 1e-7, 1e-6, 1e-5]))
            v.varValue = x
        else:
            v.varValue = v.lowBound or 0.0


def total_distance(w):
    out = 0.0
    P = {("P", i): t.origin.position for i, t in enumerate(w.trips)}
    P.update({("D", i): t.destination.position for i, t in enumerate(w.trips)})
    for t0, seq, end in w.tours:
        path = [w.depot] + [P[e] for e, _ in seq] + [w.depot]
        out += sum(ref.dist(a, b) for a, b in zip(path, path[1:]))
    return out


def check_decoded(w, routes, seqs):
    """The decoded routes are the tours: vehicle id -> list of ('P'|'D', trip identifier)."""
    check(len(routes) == w.m and {id(r.vehicle) for r in routes} == {id(v) for v in w.vehicles}, "not one route per vehicle")
    for r in routes:
        gen.well_formed(r, check)
        exp = seqs[id(r.vehicle)]
        got = []
        for s in r.stops:
            check(s.vehicle is r.vehicle, "vehicle of a stop")
            got += sorted(("P", pt.trip.identifier) for pt in s.pickup_planned_trips)
            got += sorted(("D", pt.trip.identifier) for pt in s.delivery_planned_trips)
            for pt in s.pickup_planned_trips:
                check(pt.vehicle is r.vehicle, "vehicle of a planned trip")
                check(pt.trip.origin.position == s.position, "a pickup at another place")
                check(any(pt.trip is t for t in w.trips), "trip of a planned trip")
            for pt in s.delivery_planned_trips:
                check(pt.trip.destination.position == s.position, "a delivery at another place")
        check(got == exp, "the decoded route is not the tour of the solution", got, exp)
        check(r.stops[0].position == w.depot and r.stops[-1].position == w.depot, "a decoded route does not start and end at the depot")
        for s in r.stops[1:-1]:
            check(s.pickup_planned_trips or s.delivery_planned_trips, "a decoded stop without pickups and deliveries")


@case("C18", weight=3)
def c18_complete(rng):
    """The constraints hold for a legal set of tours, the cost is its length, and decoding gives it back."""
    w = instance(rng)
    val, paths, node = assignment(w)
    seen = []

    def fn(problem):
        seen.append(1)
        ns = names(problem)
        set_values(problem, val)
        for name, v in ns.items():
            if v.lowBound is not None:
                check(v.varValue >= v.lowBound - 1e-9, "bound of a variable", name)
            if v.upBound is not None:
                check(v.varValue <= v.upBound + 1e-9, "bound of a variable", name)
        for name, c in problem.constraints.items():
            check(c.valid(1e-6), "a legal set of tours does not meet a constraint", name, str(c)[:300])
        check(problem.sense == lp.LpMinimize, "the cost is not minimised")
        check_near(lp.value(problem.objective), total_distance(w), "the cost is not the distance travelled")
        set_values(problem, val, rng)

    model = ThreeIndexLinearModel(Spy(fn), w.fleet, w.job) if rng.random() < 0.5 else ThreeIndexLinearModel(solver=Spy(fn), fleet=w.fleet, job=w.job)
    routes = model.solve()
    check(seen == [1], "the problem is not solved exactly once")
    seqs = {id(v): [(e[0], w.trips[e[1]].identifier) for e, _ in t[1]] for v, t in zip(w.vehicles, w.tours)}
    check_decoded(w, routes, seqs)
    starts = {(e[0], w.trips[e[1]].identifier): t for e, t in w.times.items()}
    for r in routes:
        for s in r.stops[1:-1]:
            for pt in s.pickup_planned_trips:
                check_near(s.starting_time, starts[("P", pt.trip.identifier)], "start of a pickup")
            for pt in s.delivery_planned_trips:
                check_near(s.starting_time, starts[("D", pt.trip.identifier)], "start of a delivery")


def mutants(rng, w):
    """An illegal variation of the known solution: (description, values)."""
    val, paths, node = assignment(w)
    vs, ts = orders(w)
    n, last = w.n, 2 * w.n + 1
    kind = rng.choice([0, 1, 2, 3, 4, 5, 7, 8])
    q = rng.randrange(n)
    k = rng.randrange(w.m) if kind in (4, 5) else next(x for x in range(w.m) if q + 1 in paths[x])
    path = paths[k]
    t = ts[q]
    eps = 0.5
    if kind == 0:
        val[f"u_{k}_{q + 1}"] = t.origin_latest + eps
        return "pickup after its window", val
    if kind == 1:
        val[f"u_{k}_{q + 1}"] = t.origin_earliest - eps
        return "pickup before its window", val
    if kind == 2:
        val[f"u_{k}_{n + q + 1}"] = t.destination_latest + eps
        return "delivery after its window", val
    if kind == 3:
        val[f"u_{k}_{n + q + 1}"] = val[f"u_{k}_{q + 1}"] + t.origin.duration + t.timeout + eps
        return "ride longer than its limit", val
    if kind == 4:
        a, b = rng.choice(list(zip(path, path[1:])))
        if len(path) == 2:
            raise Skip()
        pos = lambda i: w.depot if i in (0, last) else (ts[i - 1].origin.position if i <= n else ts[i - 1 - n].destination.position)
        dur = lambda i: 0.0 if i in (0, last) else (ts[i - 1].origin.duration if i <= n else ts[i - 1 - n].destination.duration)
        val[f"u_{k}_{b}"] = val[f"u_{k}_{a}"] + dur(a) + ref.dist(pos(a), pos(b)) - eps
        return "arrival before the previous departure plus the travel time", val
    if kind == 5:
        val[f"u_{k}_{last}"] = val[f"u_{k}_0"] + vs[k].timeout + eps
        return "route longer than the vehicle's limit", val
    if kind == 7:
        # skip a request altogether
        kk = next(x for x in range(w.m) if q + 1 in paths[x])
        p = paths[kk]
        r = [x for x in p if x not in (q + 1, n + q + 1)]
        for a, b in zip(p, p[1:]):
            val[f"x_{kk}_{a}_{b}"] = 0.0
        for a, b in zip(r, r[1:]):
            val[f"x_{kk}_{a}_{b}"] = 1.0
        return "request not served", val
    if w.m == 1:
        raise Skip()
    # deliver with another vehicle
    kk = next(x for x in range(w.m) if q + 1 in paths[x])
    ko = rng.choice([x for x in range(w.m) if x != kk])
    for key, p, r in (
        (kk, paths[kk], [x for x in paths[kk] if x != n + q + 1]),
        (ko, paths[ko], paths[ko][:-1] + [n + q + 1, last]),
    ):
        for a, b in zip(p, p[1:]):
            val[f"x_{key}_{a}_{b}"] = 0.0
        for a, b in zip(r, r[1:]):
            val[f"x_{key}_{a}_{b}"] = 1.0
    return "request picked up and delivered by different vehicles", val


@case("C18", weight=3)
def c18_rejects(rng):
    """The constraints exclude illegal variations."""
    w = instance(rng)

    def fn(problem):
        for _ in range(8):
            try:
                what, val = mutants(rng, w)
            except Skip:
                continue
            set_values(problem, val)
            bad = any(not c.valid(1e-6) for c in problem.constraints.values())
            for v in problem.variables():
                if v.lowBound is not None and v.varValue < v.lowBound - 1e-9:
                    bad = True
            check(bad, "an illegal solution meets every constraint", what)
        set_values(problem, assignment(w)[0])

    ThreeIndexLinearModel(solver=Spy(fn), fleet=w.fleet, job=w.job).solve()


@case("C18", weight=2)
def c18_capacity(rng):
    """Tours that overload a vehicle at some point do not meet the constraints, whatever the other variables."""
    w = instance(rng, n=rng.choice([2, 2, 3]), m=rng.choice([1, 1, 2]))
    over = False
    for v, (t0, seq, end) in zip(w.vehicles, w.tours):
        load = peak = 0.0
        for (what, i), _ in seq:
            load += w.trips[i].capacity * (1 if what == "P" else -1)
            peak = max(peak, load)
        v.capacity = max(t.capacity for t in w.trips)
        if v.capacity < peak:
            v.capacity = max(v.capacity, peak - rng.choice([0.5, 1.0]))
            over = True
    if not over:
        raise Skip()
    val = assignment(w)[0]

    def fn(problem):
        for name, v in names(problem).items():
            if name[0] == "x":
                v.lowBound = v.upBound = val[name]
        st = cbc().actualSolve(problem)
        check(st != lp.LpStatusOptimal, "tours that overload a vehicle meet the constraints", [t[1] for t in w.tours])
        raise _Done()

    try:
        ThreeIndexLinearModel(solver=Spy(fn), fleet=w.fleet, job=w.job).solve()
    except _Done:
        pass


def check_solution(w, routes_vars, val):
    """Problem limits of a solution of the linear model (visited places only)."""
    vs, ts = orders(w)
    n, last = w.n, 2 * w.n + 1
    pos = lambda i: w.depot if i in (0, last) else (ts[i - 1].origin.position if i <= n else ts[i - 1 - n].destination.position)
    ser = lambda i: None if i in (0, last) else (ts[i - 1].origin if i <= n else ts[i - 1 - n].destination)
    seqs, served = {}, {}
    for k, v in enumerate(vs):
        path, here = [0], 0
        while here != last:
            nxt = [j for j in range(last + 1) if val[f"x_{k}_{here}_{j}"] > 0.5]
            check(len(nxt) == 1, "a visited place is not left exactly once", k, here, nxt)
            here = nxt[0]
            check(here not in path, "a place is visited twice", path, here)
            path.append(here)
        u = lambda i: val[f"u_{k}_{i}"]
        load = 0.0
        for a, b in zip(path, path[1:]):
            dur = ser(a).duration if ser(a) else 0.0
            check(u(b) >= u(a) + dur + ref.dist(pos(a), pos(b)) - TOL, "start before the arrival", k, a, b, u(a), u(b))
        for a in path[1:-1]:
            s = ser(a)
            check(s.earliest - TOL <= u(a) <= s.latest + TOL, "start outside the window", k, a, u(a), tuple(s))
            load += ts[a - 1].capacity if a <= n else -ts[a - 1 - n].capacity
            check(load <= v.capacity + TOL, "load over the capacity", k, path)
            if a <= n:
                served[a] = served.get(a, 0) + 1
                check(n + a in path and path.index(n + a) > path.index(a), "delivery not after the pickup on the same vehicle", path)
                ride = u(n + a) - u(a) - s.duration
                check(ride <= ts[a - 1].timeout + TOL, "ride over its limit", ride, ts[a - 1].timeout)
        check(u(last) - u(0) <= v.timeout + TOL, "route over its limit", k)
        seqs[id(v)] = [("P", ts[a - 1].identifier) if a <= n else ("D", ts[a - 1 - n].identifier) for a in path[1:-1]]
    check(all(served.get(i) == 1 for i in range(1, n + 1)), "a request is not served exactly once", served)
    return seqs


@case("C18", weight=6)
def c18_sound(rng):
    """Whatever solution the constraints allow is legal (random costs, still places kept expensive)."""
    w = instance(rng, n=rng.choice([1, 2, 2, 3]), m=rng.choice([1, 2, 2]))
    out = {}

    def fn(problem):
        keep = problem.objective
        coef = {v.name: c for v, c in keep.items()}
        terms = []
        for name, v in names(problem).items():
            if name[0] == "x":
                k, i, j = map(int, name.split("_")[1:])
                terms.append((1e5 if i == j or coef.get(name, 0) >= 5000 else rng.uniform(-20, 20)) * v)
            elif name[0] in "uw":
                terms.append(rng.choice([0, 0, rng.uniform(-1, 1)]) * v)
        problem.objective = lp.lpSum(terms)
        st = cbc().actualSolve(problem)
        problem.objective = keep
        check(st in (lp.LpStatusOptimal, lp.LpStatusNotSolved), "an instance with a legal set of tours has no solution", lp.LpStatus[st])
        if st != lp.LpStatusOptimal:
            raise Skip()
        out["val"] = {name: v.varValue for name, v in names(problem).items()}

    model = ThreeIndexLinearModel(solver=Spy(fn), fleet=w.fleet, job=w.job)
    routes = model.solve()
    seqs = check_solution(w, routes, out["val"])
    check_decoded(w, routes, seqs)


def schedulable(w, v, seq):
    """Is there a schedule of the sequence of ('P'|'D', trip)?  (difference constraints, Bellman-Ford)"""
    nodes = [None] + seq + [None]
    m = len(nodes)
    edges = []  # u[b] - u[a] <= c
    pos = lambda e: w.depot if e is None else (e[1].origin.position if e[0] == "P" else e[1].destination.position)
    ser = lambda e: None if e is None else (e[1].origin if e[0] == "P" else e[1].destination)
    Z = m
    load = 0
    where = {}
    for q, e in enumerate(nodes):
        lo, hi = (0, DAY) if e is None else (ser(e).earliest, ser(e).latest)
        edges += [(Z, q, hi), (q, Z, -lo)]
        if q:
            p = nodes[q - 1]
            edges.append((q, q - 1, -((ser(p).duration if p else 0) + ref.dist(pos(p), pos(e)))))
        if e is not None:
            load += e[1].capacity * (1 if e[0] == "P" else -1)
            if load > v.capacity + 1e-9:
                return False
            if e[0] == "P":
                where[e[1].identifier] = q
            else:
                edges.append((where[e[1].identifier], q, e[1].origin.duration + e[1].timeout))
    edges.append((0, m - 1, v.timeout))
    d = [0.0] * (m + 1)
    for _ in range(m + 1):
        ch = False
        for a, b, c in edges:
            if d[a] + c < d[b] - 1e-9:
                d[b] = d[a] + c
                ch = True
        if not ch:
            return True
    return False


def sequences(trips):
    evs = [("P", t) for t in trips] + [("D", t) for t in trips]
    for perm in itertools.permutations(evs):
        at = {(k, t.identifier): q for q, (k, t) in enumerate(perm)}
        if all(at[("P", t.identifier)] < at[("D", t.identifier)] for t in trips):
            yield list(perm)


def optimum(w):
    best = None
    for who in itertools.product(range(w.m), repeat=w.n):
        total = 0.0
        for k, v in enumerate(w.vehicles):
            mine = [t for t, o in zip(w.trips, who) if o == k]
            opt = None
            for seq in sequences(mine):
                path = [w.depot] + [e[1].origin.position if e[0] == "P" else e[1].destination.position for e in seq] + [w.depot]
                length = sum(ref.dist(a, b) for a, b in zip(path, path[1:]))
                if (opt is None or length < opt - 1e-9) and schedulable(w, v, seq):
                    opt = length
            if opt is None:
                total = None
                break
            total += opt
        if total is not None and (best is None or total < best):
            best = total
    return best


@case("C18", weight=4)
def c18_exact(rng):
    """The plan of the exact algorithm serves everything, is feasible and as short as the best tours."""
    w = instance(rng, n=rng.choice([1, 2, 2]), m=rng.choice([1, 2, 2]))
    res = MilpAlgorithm(fleet=w.fleet, job=w.job, solver=cbc()).optimize()
    check(len(res.routes) == w.m, "not one route per vehicle")
    ids = sorted(pt.trip.identifier for r in res.routes for s in r.stops for pt in s.pickup_planned_trips)
    check(ids == sorted(t.identifier for t in w.trips), "requests not served exactly once", ids)
    for r in res.routes:
        gen.well_formed(r, check)
    check(res.feasible, "infeasible plan", [gen.observe(r) for r in res.routes])
    length = sum(ref.dist(a.position, b.position) for r in res.routes for a, b in zip(r.stops, r.stops[1:]))
    check(abs(length - optimum(w)) <= 1e-3, "the plan is not the shortest", length, optimum(w))
