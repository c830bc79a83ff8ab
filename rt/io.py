"""Contracts of loaders, storers, plots and the pipeline evaluated at run time: C15, C16, C17, C19, C22."""
import contextlib
import io as _io
import math
import shutil
import tempfile
from collections import Counter
from pathlib import Path

from . import env  # noqa: F401
from . import gen, ref
from .harness import Skip, case, check, check_near, near
from jinete import Solver
from jinete.algorithms import Algorithm, InsertionAlgorithm, NaiveAlgorithm
from jinete.dispatchers import Dispatcher, StaticDispatcher
from jinete.loaders import CordeauLaporteLoaderFormatter, FileLoader, HashCodeLoaderFormatter, Loader, LoaderFormatter
from jinete.models import (
    DialARideObjective,
    Fleet,
    HashCodeObjective,
    Job,
    Planning,
    Result,
)
from jinete.storers import (
    ColumnarStorerFormatter,
    FileStorer,
    GraphPlotStorer,
    HashCodeStorerFormatter,
    NaiveStorer,
    PromptStorer,
    Storer,
    StorerFormatter,
    StorerSet,
)

INF = float("inf")


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="jinete-rt-")
    try:
        yield Path(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def num(rng, lo, hi):
    """A number with an exact decimal rendering."""
    k = rng.random()
    if k < 0.5:
        return float(rng.randint(lo, hi))
    return rng.randint(lo * 1000, hi * 1000) / 1000


def render(rng, x):
    if x == int(x) and rng.random() < 0.6:
        return str(int(x)) if rng.random() < 0.7 else f"{int(x)}.0"
    return repr(x)


def text_of(rng, rows):
    out = []
    sep = rng.choice([" ", "\t", "   "])
    for row in rows:
        line = sep.join(render(rng, x) for x in row)
        if rng.random() < 0.3:
            line = "  " + line + " "
        out.append(line)
    return "\n".join(out) + rng.choice(["", "\n"])


def metric_is(p, q, kind):
    a, b = p.coordinates, q.coordinates
    e = math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b))) if kind == "E" else sum(abs(x - y) for x, y in zip(a, b))
    return near(p.distance_to(q), e, 1e-9) and near(p.time_to(q), e, 1e-9)


# ---------------------------------------------------------------------------------------------------------------- C15


def cl_rows(rng):
    m, n = rng.choice([0, 1, 1, 2, 3, 12]), rng.choice([0, 1, 2, 3, 4, 6, 11])
    header = [float(m), float(2 * n), num(rng, 10, 900), float(rng.randint(1, 9)), num(rng, 5, 90)]
    grid = rng.choice([2, 10])

    def place():
        return [num(rng, -grid, grid), num(rng, -grid, grid)]

    rows = [header, [0.0] + place() + [0.0, 0.0, 0.0, 1440.0]]
    loads = [float(rng.choice([1, 1, 2, 3, 0, 1.5])) for _ in range(n)]
    for sign in (1, -1):
        for k in range(n):
            e = num(rng, 0, 400)
            rows.append([float(len(rows) - 1)] + place() + [num(rng, 0, 10), sign * loads[k], e, e + num(rng, 0, 500)])
    if rng.random() < 0.3:  # some instances repeat the depot at the end
        rows.append([float(len(rows) - 1)] + place() + [0.0, 0.0, 0.0, 1440.0])
    return m, n, rows


def check_cl(m, n, rows, fleet, job, surface):
    check(type(fleet) is Fleet and type(job) is Job, "type of the loaded instance")
    check(len(fleet.vehicles) == m, "number of vehicles", len(fleet.vehicles), m)
    ids = [v.identifier for v in fleet.vehicles]
    check(len(set(ids)) == len(ids), "vehicle identifiers are not distinct", ids)
    for v in fleet.vehicles:
        check(v.capacity == rows[0][3], "capacity of a vehicle", v.capacity, rows[0])
        check(v.timeout == rows[0][2], "duration limit of a vehicle", v.timeout, rows[0])
        check(tuple(v.origin_position.coordinates) == tuple(rows[1][1:3]), "start of a vehicle", v.origin_position.coordinates, rows[1])
        check(tuple(v.destination_position.coordinates) == tuple(rows[1][1:3]), "end of a vehicle")
        check(v.origin_position.surface is surface, "surface of a vehicle's depot")
    check(len(job.trips) == n, "number of trips", len(job.trips), n)
    ids = [t.identifier for t in job.trips]
    check(len(set(ids)) == len(ids), "trip identifiers are not distinct", ids)
    got, exp = [], []
    for t in job.trips:
        for p in (t.origin_position, t.destination_position):
            check(p.surface is surface, "surface of a trip's end")
            check(p in surface.positions, "a trip's end is not registered")
        got.append(tuple(
            (tuple(s.position.coordinates), s.earliest, s.latest, s.duration) for s in (t.origin, t.destination)
        ) + (t.capacity, t.timeout))
    for i in range(n):
        p, d = rows[2 + i], rows[2 + n + i]
        exp.append(tuple(
            (tuple(r[1:3]), r[5], r[6], r[3]) for r in (p, d)
        ) + (p[4], rows[0][4]))
    check(Counter(got) == Counter(exp), "trips", got, exp)
    ps = list(surface.positions)[:6]
    for a in ps:
        for b in ps:
            check(metric_is(a, b, "E"), "distances are not Euclidean", a.coordinates, b.coordinates)


@case("C15", weight=2)
def c15_formatter(rng):
    m, n, rows = cl_rows(rng)
    f = CordeauLaporteLoaderFormatter([list(r) for r in rows])
    surface = f.surface()
    if rng.random() < 0.5:
        fleet, job = f.fleet(surface), f.job(surface)
    else:
        job, fleet = f.job(surface=surface), f.fleet(surface=surface)
    check_cl(m, n, rows, fleet, job, surface)
    check(type(job.objective) is DialARideObjective, "objective")


@case("C15", weight=2)
def c15_file(rng):
    m, n, rows = cl_rows(rng)
    with scratch() as d:
        p = d / "instance.txt"
        p.write_text(text_of(rng, rows))
        cls = rng.choice([None, CordeauLaporteLoaderFormatter])
        loader = FileLoader(p if rng.random() < 0.5 else str(p), **({} if cls is None else {"formatter_cls": cls}))
        names = ["surface", "fleet", "job", "fleet", "job", "surface"]
        rng.shuffle(names)
        got = {}
        for a in names:
            x = getattr(loader, a)
            check(a not in got or got[a] is x, f"{a} loaded twice")
            got[a] = x
    check_cl(m, n, rows, got["fleet"], got["job"], got["surface"])


@case("C15", weight=0.5)
def c15_reject(rng):
    m, n, rows = cl_rows(rng)
    if n == 0:
        raise Skip()
    k = rng.randrange(n)
    bad = 2 + n + k
    rows[bad][4] = rng.choice([rows[bad][4] - 1, rows[bad][4] + 1, -rows[bad][4] if rows[bad][4] else 2.0])
    f = CordeauLaporteLoaderFormatter([list(r) for r in rows])
    surface = f.surface()
    try:
        f.job(surface)
    except Exception:
        return
    check(False, "a pair whose loads are not opposite was accepted", rows[2 + k], rows[bad])


# ---------------------------------------------------------------------------------------------------------------- C16


def hc_rows(rng):
    n_v, n = rng.choice([0, 1, 2, 3, 12]), rng.choice([0, 1, 2, 3, 5, 13])
    steps = rng.randint(10, 400)
    header = [float(rng.randint(1, 30)), float(rng.randint(1, 30)), float(n_v), float(n), float(rng.randint(0, 9)), float(steps)]
    rows = [header]
    for _ in range(n):
        c = [float(rng.randint(0, 12)) for _ in range(4)]
        e = rng.randint(0, steps)
        rows.append(list(rng.choice(rows[1:])) if len(rows) > 1 and rng.random() < 0.2 else c + [float(e), float(rng.randint(e, steps))])
    return n_v, n, rows


def check_hc(m, n, rows, fleet, job, surface):
    h = rows[0]
    check(type(fleet) is Fleet and type(job) is Job, "type of the loaded instance")
    check(len(fleet.vehicles) == m, "number of vehicles", len(fleet.vehicles), m)
    check(len({v.identifier for v in fleet.vehicles}) == m, "vehicle identifiers are not distinct")
    for v in fleet.vehicles:
        check(v.capacity == 1, "vehicles take a single passenger", v.capacity)
        check(tuple(v.origin_position.coordinates) == (0, 0), "start of a vehicle")
        check(tuple(v.destination_position.coordinates) == (0, 0), "end of a vehicle")
        check(v.origin_earliest == 0 and v.origin_latest == h[5] and v.destination_latest == h[5], "availability of a vehicle", v.origin_latest, h)
        check(v.timeout >= h[5], "a vehicle is limited before the last step", v.timeout)
        check(v.origin_position.surface is surface, "surface of a vehicle's depot")
    check(len(job.trips) == n, "number of trips", len(job.trips), n)
    trips = sorted(job.trips, key=lambda t: int(t.identifier))
    check(len({t.identifier for t in trips}) == n, "trip identifiers are not distinct")
    for t, r in zip(trips, rows[1:]):
        check(tuple(t.origin_position.coordinates) == tuple(r[0:2]), "start of a ride", t.identifier, t.origin_position.coordinates, r)
        check(tuple(t.destination_position.coordinates) == tuple(r[2:4]), "finish of a ride", t.identifier, r)
        check(t.on_time_bonus == h[4], "bonus of a ride", t.on_time_bonus, h)
        check(t.origin.duration == 0 and t.destination.duration == 0, "service durations")
        check_near(t.origin_earliest, r[4], "earliest start of a ride", t.identifier)
        check_near(t.destination_latest, r[5], "latest finish of a ride", t.identifier)
        travel = sum(abs(x - y) for x, y in zip(r[0:2], r[2:4]))
        check_near(t.origin_latest, r[5] - travel, "latest start of a ride that finishes in time", t.identifier)
        check_near(t.destination_earliest, r[4] + travel, "earliest finish of a ride", t.identifier)
        check(t.timeout >= r[5] - r[4], "a ride is limited before its latest finish")
        check(t.capacity == 1, "a ride takes one passenger")
        for p in (t.origin_position, t.destination_position):
            check(p.surface is surface, "surface of a trip's end")
    check(type(job.objective) is HashCodeObjective, "objective", type(job.objective))
    ps = list(surface.positions)[:6]
    for a in ps:
        for b in ps:
            check(metric_is(a, b, "M"), "distances are not city-block", a.coordinates, b.coordinates)


@case("C16", weight=2)
def c16_formatter(rng):
    m, n, rows = hc_rows(rng)
    f = HashCodeLoaderFormatter([list(r) for r in rows])
    surface = f.surface()
    if rng.random() < 0.5:
        fleet, job = f.fleet(surface), f.job(surface)
    else:
        job, fleet = f.job(surface=surface), f.fleet(surface=surface)
    check_hc(m, n, rows, fleet, job, surface)


@case("C16", weight=2)
def c16_file(rng):
    m, n, rows = hc_rows(rng)
    with scratch() as d:
        p = d / "instance.in"
        p.write_text(text_of(rng, rows))
        loader = FileLoader(p if rng.random() < 0.5 else str(p), formatter_cls=HashCodeLoaderFormatter)
        names = ["surface", "fleet", "job", "fleet", "job", "surface"]
        rng.shuffle(names)
        got = {}
        for a in names:
            x = getattr(loader, a)
            check(a not in got or got[a] is x, f"{a} loaded twice")
            got[a] = x
    check_hc(m, n, rows, got["fleet"], got["job"], got["surface"])


# ---------------------------------------------------------------------------------------------------------------- C17


def a_result(rng, with_empty=True, n_trips=None):
    w = gen.world(rng, n_trips=n_trips or rng.randint(1, 6), n_vehicles=rng.randint(1, 4))
    rs = gen.routes(rng, w, leave_out=rng.choice([0, 0, 0.3]), merge=rng.random() < 0.4)
    return w, rs, gen.result(w, rs, computation_time=gen.half(rng, 0, 9))


def hc_line_sets(route):
    """The possible identifier orders of a route: a list of sets, one per stop."""
    return [sorted(pt.trip.identifier for pt in s.pickup_planned_trips if pt.trip.capacity != 0) for s in route.stops]


def carries(route):
    return any(s.pickup_planned_trips for s in route.stops)


def hc_matches(line, route):
    groups = hc_line_sets(route)
    n = sum(map(len, groups))
    parts = line.split(" ")
    if parts[0] != str(n):
        return False
    ids = [x for x in parts[1:] if x != ""]
    if len(ids) != n or len(parts) > max(n, 1) + 1:
        return False
    k = 0
    for g in groups:
        if sorted(ids[k:k + len(g)]) != g:
            return False
        k += len(g)
    return True


@case("C17")
def c17_hashcode(rng):
    w, rs, res = a_result(rng)
    how = rng.randrange(3)
    keep = how == 2
    if how == 0:
        f = HashCodeStorerFormatter(result=res)
    elif how == 1:
        f = HashCodeStorerFormatter(True, res) if rng.random() < 0.5 else HashCodeStorerFormatter(remove_empty_routes=True, result=res)
    else:
        f = HashCodeStorerFormatter(remove_empty_routes=False, result=res)
    text = f.format()
    expected = [r for r in rs if keep or carries(r)]
    lines = text.split("\n") if text or expected else []
    check(len(lines) == len(expected), "one line per route that carries trips", text, len(expected))
    left = list(lines)
    for r in expected:
        m = next((x for x in left if hc_matches(x, r)), None)
        check(m is not None, "no line says what a route does", text, [hc_line_sets(r) for r in expected])
        left.remove(m)
    check(f.format() == text, "the text changes")


def tokens(s):
    return " ".join(s.split())


def columnar_expected(res, routes):
    """The rows of every block, from the values the result reports."""
    blocks = {}
    for r in routes:
        v = r.vehicle
        pts = [pt for s in r.stops for pt in s.pickup_planned_trips]
        head = [
            f'ID: "{v.identifier}"', f"Initial: {v.origin_position}", f"Final: {v.destination_position}",
            f"Earliest: {v.origin_earliest:7.2f}", f"Latest: {v.origin_latest:7.2f}", f"Capacity: {v.capacity:7.2f}",
        ]
        trips = [
            f"ID: {p.trip.identifier} P: {p.trip.origin_position} to {p.trip.destination_position} "
            f"TW: {p.trip.origin_earliest:.1f} to {p.trip.destination_latest:.1f} WT: {p.waiting_time:.1f} NT: {p.transit_time:.1f} "
            f"LT: {p.load_time:.1f} TT: {p.duration:.1f} T: {p.pickup_time:.1f} to {p.delivery_time:.1f} L: {p.trip.capacity}"
            for p in pts
        ]
        stops = [
            (
                sorted([f"P{p.trip.identifier}" for p in s.pickup_planned_trips] + [f"D{p.trip.identifier}" for p in s.delivery_planned_trips]),
                f"P: {s.position} TW: {s.earliest:.1f} to {s.latest:.1f} WT: {s.waiting_time:.1f} NT: {s.transit_time:.1f} "
                f"LT: {s.load_time:.1f} DT: {s.departure_time:.1f} L: {s.capacity}",
            )
            for s in r.stops
        ]
        blocks[v.identifier] = (head, trips, stops)
    return blocks


def check_columnar(text, res, routes):
    lines = text.split("\n")
    check(tokens(lines[0]) == f'Planning UUID: "{res.planning.uuid}"', "planning identifier", lines[0])
    check(tokens(lines[1]) == f'Routes count: "{len(routes)}"', "number of routes", lines[1], len(routes))
    tail = [
        f'Computation time: "{res.computation_time:0.4f}" seconds', f'Coverage Rate: "{res.coverage_rate}"',
        f'Objective: "{type(res.job.objective).__name__}"', f'Optimization Value: "{res.optimization_value}"',
        f'Feasible: "{res.feasible}"', f'Direction: "{res.direction}"',
    ]
    check([tokens(x) for x in lines[-6:]] == [tokens(x) for x in tail], "values of the plan", lines[-6:], tail)
    body = [tokens(x) for x in lines[3:-6]]
    exp = columnar_expected(res, routes)
    starts = [k for k, x in enumerate(body) if x == "Vehicle:"]
    check(len(starts) == len(routes), "one block per route", len(starts), len(routes))
    seen = []
    for a, b in zip(starts, starts[1:] + [len(body)]):
        rows = [x for x in body[a + 1:b] if x]
        ident = rows[0][5:-1]
        check(ident in exp and ident not in seen, "a route twice, or one that is not in the plan", ident)
        seen.append(ident)
        head, trips, stops = exp[ident]
        check(rows[:len(head)] == [tokens(x) for x in head], "values of the vehicle", rows[:len(head)], head)
        rows = rows[len(head):]
        check(rows[0] == f'Planned Trips: "{len(trips)}"', "number of planned trips", rows[0], len(trips))
        got = rows[1:1 + len(trips)]
        check(Counter(got) == Counter(map(tokens, trips)), "values of the planned trips", got, trips)
        rows = rows[1 + len(trips):]
        check(rows[0] == f'Stops: "{len(stops)}"', "number of stops", rows[0], len(stops))
        got = rows[1:]
        check(len(got) == len(stops), "rows of stops", got, stops)
        for row, (ids, rest) in zip(got, stops):
            check(row.startswith("ID: [") and "]" in row, "stop row", row)
            inner, after = row[len("ID: ["):].split("]", 1)
            check(sorted(x for x in inner.split("|") if x) == ids, "pickups and deliveries of a stop", row, ids)
            check(after.strip() == tokens(rest), "values of a stop", row, rest)


@case("C17", weight=2)
def c17_columnar(rng):
    w, rs, res = a_result(rng)
    how = rng.randrange(3)
    routes = rs
    if how == 0:
        f = ColumnarStorerFormatter(result=res)
    elif how == 1:
        f = ColumnarStorerFormatter("\t", result=res)
    else:
        f = ColumnarStorerFormatter(result=res, remove_empty_routes=True)
        routes = [r for r in rs if carries(r)]
    before = [gen.structure(r) for r in rs]
    check_columnar(f.format(), res, routes)
    check([gen.structure(r) for r in rs] == before, "formatting changes the plan")


class _TextFormatter(StorerFormatter):
    text = "some text"
    count = 0

    def format(self):
        type(self).count += 1
        return self.text


def text_formatter(rng):
    txt = "".join(rng.choice(["a", "b\n", " ", "line", "\t", "9", "é"]) for _ in range(rng.randint(0, 30)))
    return type("TextFormatter", (_TextFormatter,), {"text": txt, "count": 0})


@case("C17")
def c17_delivery(rng):
    w, rs, res = a_result(rng)
    F = rng.choice([None, HashCodeStorerFormatter, text_formatter(rng), text_formatter(rng)])
    kw = {} if F is None else {"formatter_cls": F}

    def ok(text):
        if F is None:
            check_columnar(text, res, rs)
        elif F is HashCodeStorerFormatter:
            lines = text.split("\n") if text else []
            exp = [r for r in rs if carries(r)]
            check(len(lines) == len(exp), "delivered text", text)
            for r in exp:
                check(any(hc_matches(x, r) for x in lines), "delivered text", text)
        else:
            check(text == F.text, "delivered text is not exactly the format's text", text, F.text)

    with scratch() as d:
        p = d / "out.txt"
        if rng.random() < 0.6:
            p.write_text("previous content that is much longer than anything written here\n" * rng.randint(1, 200))
        st = FileStorer(p, result=res, **kw) if rng.random() < 0.5 else FileStorer(file_path=p, result=res, **kw)
        st.store()
        ok(p.read_text())
        check([x.name for x in d.iterdir()] == ["out.txt"], "other files written")
        if rng.random() < 0.3:
            st.store()
            ok(p.read_text())
    out = _io.StringIO()
    with contextlib.redirect_stdout(out):
        PromptStorer(result=res, **kw).store()
    check(out.getvalue().endswith("\n"), "prompt text without end of line")
    ok(out.getvalue()[:-1])
    out = _io.StringIO()
    with contextlib.redirect_stdout(out):
        NaiveStorer(result=res, **kw).store()
    check(out.getvalue() == "", "the naive storer writes")


@case("C17")
def c17_set(rng):
    w, rs, res = a_result(rng)
    F = text_formatter(rng)
    log = []

    def mk(k):
        class Rec(Storer):
            def store(self):
                log.append((k, self.result, self.formatter_cls, self._formatted))

        return Rec

    n = rng.randint(0, 4)
    classes = [mk(k) for k in range(n)]
    coll = rng.choice([set, tuple, list, frozenset])(classes)
    if rng.random() < 0.5:
        StorerSet(coll, res, F).store()
    else:
        StorerSet(storer_cls_set=coll, result=res, formatter_cls=F).store()
    check(sorted(x[0] for x in log) == list(range(n)), "not exactly once per storer", sorted(x[0] for x in log), n)
    for k, r, f, text in log:
        check(r is res and f is F and text == F.text, "a storer of the set received something else")


# ---------------------------------------------------------------------------------------------------------------- C19


def stubs(rng, log, naive=False):
    w = gen.world(rng, n_trips=rng.randint(1, 4), n_vehicles=rng.randint(1, 2))

    class L(Loader):
        _data = None

        def __init__(self, *args, **kwargs):
            log.append(("loader", args, kwargs))
            super().__init__()

        @property
        def fleet(self):
            log.append(("fleet",))
            return w.fleet

        @property
        def job(self):
            log.append(("job",))
            return w.job

        @property
        def surface(self):
            return w.surface

    plan = Planning(set(gen.routes(rng, w)))

    class A(Algorithm):
        def __init__(self, *args, **kwargs):
            log.append(("algorithm", args, dict(kwargs)))
            super().__init__(*args, **kwargs)

        def _optimize(self):
            log.append(("optimize",))
            return plan

    class S(Storer):
        def __init__(self, *args, **kwargs):
            log.append(("storer", args, dict(kwargs)))
            self.result = kwargs.get("result", args[0] if args else None)

        def store(self):
            log.append(("store", self.result))

    class D(StaticDispatcher):
        def __init__(self, *args, **kwargs):
            log.append(("dispatcher", args, {k: v for k, v in kwargs.items() if k in ("zz", "yy")}))
            for k in ("zz", "yy"):
                kwargs.pop(k, None)
            super().__init__(*args, **kwargs)

    return w, plan, L, A, S, D


def count(log, kind):
    return [x for x in log if x[0] == kind]


def check_result(r, w, plan, A, log):
    check(type(r) is Result, "not a result")
    check(isinstance(r.algorithm, A), "the result does not carry the algorithm")
    check(r.planning is plan, "the result does not carry the algorithm's plan")
    check(r.job is w.job and r.fleet is w.fleet, "the result's job and fleet are not the loaded ones")
    check(isinstance(r.computation_time, float) and r.computation_time >= 0, "computation time", r.computation_time)
    check(len(count(log, "optimize")) == 1, "not optimised exactly once", log)
    check(len(count(log, "loader")) == 1, "not loaded exactly once", log)


@case("C19")
def c19_dispatcher(rng):
    log = []
    w, plan, L, A, S, D = stubs(rng, log)
    with_storer = rng.random() < 0.7
    if with_storer:
        d = StaticDispatcher(L, A, S) if rng.random() < 0.5 else StaticDispatcher(loader_cls=L, algorithm_cls=A, storer_cls=S)
    else:
        d = StaticDispatcher(L, A) if rng.random() < 0.5 else StaticDispatcher(L, A, None)
    check(log == [], "something runs before run()")
    r = d.run()
    check_result(r, w, plan, A, log)
    if with_storer:
        check(len(count(log, "storer")) == 1 and [x[1] for x in count(log, "store")] == [r], "the result is not delivered exactly once", log)
        check(count(log, "storer")[0][1:] in (((), {"result": r}), ((r,), {})), "inputs of the storer")
    else:
        check(not count(log, "store") and not count(log, "storer"), "delivered without storer")
    a = count(log, "algorithm")
    check(len(a) == 1, "one algorithm", log)
    args, kw = a[0][1:]
    kw = dict(zip(("fleet", "job"), args), **kw)
    check(set(kw) == {"fleet", "job"} and kw["fleet"] is w.fleet and kw["job"] is w.job, "inputs of the algorithm", kw)


def some_kwargs(rng, names):
    return {k: rng.choice([1, "x", None, (1, 2), 0.5]) for k in names if rng.random() < 0.6}


@case("C19", weight=2)
def c19_solver(rng):
    log = []
    w, plan, L, A, S, D = stubs(rng, log)
    ak, lk, sk, dk = (some_kwargs(rng, n) for n in (("foo", "bar"), ("foo", "path"), ("foo", "other"), ("zz", "yy")))
    args = dict(algorithm=A, loader=L, storer=S, dispatcher=D)
    for name, k in (("algorithm", ak), ("loader", lk), ("storer", sk), ("dispatcher", dk)):
        if k or rng.random() < 0.5:
            args[name + "_kwargs"] = dict(k)
    given = {k: (dict(v) if isinstance(v, dict) else v) for k, v in args.items()}
    s = Solver(**args)
    runs = rng.choice([1, 1, 2])
    for _ in range(runs):
        del log[:]
        r = s.solve()
        check_result(r, w, plan, A, log)
        check(len(count(log, "storer")) == 1 and [x[1] for x in count(log, "store")] == [r], "the result is not delivered exactly once", log)
        check(count(log, "loader") == [("loader", (), lk)], "settings of the loader", count(log, "loader"), lk)
        a = count(log, "algorithm")
        check(len(a) == 1, "one algorithm", len(a))
        kw = dict(zip(("fleet", "job"), a[0][1]), **a[0][2])
        check(kw.pop("fleet", None) is w.fleet and kw.pop("job", None) is w.job, "inputs of the algorithm")
        check(kw == ak, "settings of the algorithm", kw, ak)
        t = count(log, "storer")[0]
        kw = dict(zip(("result",), t[1]), **t[2])
        check(kw.pop("result", None) is r, "input of the storer")
        check(kw == sk, "settings of the storer", kw, sk)
        d = count(log, "dispatcher")
        check(len(d) == 1 and d[0][2] == dk, "settings of the dispatcher", d, dk)
        for name in ("algorithm", "loader", "storer", "dispatcher"):
            key = name + "_kwargs"
            check(args.get(key) == given.get(key), "settings changed by the run", key)


@case("C19", weight=0.5)
def c19_defaults(rng):
    m, n, rows = cl_rows(rng)
    m = rows[0][0] = float(max(1, m))
    if n == 0:
        raise Skip()
    n = min(n, 4)
    rows = [rows[0]] + [rows[1]] + rows[2:2 + n] + rows[2 + (int(rows[0][1]) // 2):][:n]
    rows[0][1] = float(2 * n)
    rows[0][0] = m = float(min(m, 3))
    with scratch() as d:
        p = d / "i.txt"
        p.write_text(text_of(rng, rows))
        out = _io.StringIO()
        with contextlib.redirect_stdout(out):
            kw = {"algorithm": NaiveAlgorithm} if rng.random() < 0.3 else {}
            r = Solver(loader_kwargs={"file_path": p}, **kw).solve()
    check(type(r) is Result, "not a result")
    check(isinstance(r.algorithm, kw.get("algorithm", InsertionAlgorithm)), "default algorithm", type(r.algorithm))
    check(len(r.vehicles) == m and len(r.trips) == n, "instance of the result")
    check_columnar(out.getvalue()[:-1], r, list(r.routes))
    check(r.computation_time >= 0, "computation time")


@case("C19", weight=0.3)
def c19_optimize(rng):
    log = []
    w, plan, L, A, S, D = stubs(rng, log)
    import jinete.algorithms.abc as mod

    clock = [gen.half(rng, 0, 100)]
    delta = gen.half(rng, 0, 20)

    class B(Algorithm):
        def _optimize(self):
            clock[0] += delta
            return plan

    real = mod.time
    mod.time = lambda: clock[0]
    try:
        a = B(w.fleet, w.job) if rng.random() < 0.5 else B(fleet=w.fleet, job=w.job)
        r = a.optimize()
    finally:
        mod.time = real
    check(r.algorithm is a and r.planning is plan, "the result carries the algorithm and its plan")
    check(near(r.computation_time, delta), "computation time", r.computation_time, delta)


# ---------------------------------------------------------------------------------------------------------------- C22


@case("C22")
def c22_graph(rng):
    w = gen.world(rng, n_trips=rng.randint(0, 6), n_vehicles=rng.randint(1, 5))
    rs = gen.routes(rng, w, leave_out=rng.choice([0, 0.4]), merge=rng.random() < 0.4)
    if rng.random() < 0.05:
        rs = []
    res = gen.result(w, rs)
    before = [gen.structure(r) for r in rs]
    g = GraphPlotStorer(result=res)._generate_graph()
    consecutive = {}
    for r in rs:
        for a, b in zip(r.stops, r.stops[1:]):
            consecutive.setdefault((a.position.coordinates, b.position.coordinates), set()).add(id(r))
    edges = {(a.coordinates, b.coordinates): dict(m) for (a, b), m in g.edges.items()}
    check(len(edges) == g.number_of_edges(), "parallel edges")
    check(set(edges) == set(consecutive), "edges are not exactly the consecutive places", sorted(edges), sorted(consecutive))
    check(g.is_directed(), "the graph is not directed")
    nodes = {}
    for p, m in g.nodes.items():
        check(p.coordinates not in nodes, "a place twice")
        nodes[p.coordinates] = m.get("label")
    visited = {s.position.coordinates for r in rs for s in r.stops}
    labels = {}
    for t in w.trips:
        labels.setdefault(t.origin.position.coordinates, set()).add(f"+{t.identifier}")
        labels.setdefault(t.destination.position.coordinates, set()).add(f"-{t.identifier}")
    check(set(nodes) == visited | set(labels), "nodes are not exactly the places visited or requested", sorted(nodes), sorted(visited | set(labels)))
    for c, lab in nodes.items():
        if c in labels:
            check(lab in labels[c], "label of a requested place", c, lab, labels[c])
        else:
            check(lab == "", "label of a place without request", c, lab)
    # colours: one per route, every edge takes the colour of a route that has it
    import itertools

    for e, m in edges.items():
        check(m.get("color") is not None, "edge without colour", e)
    classes = {}
    for e, m in edges.items():
        classes.setdefault(tuple(m["color"]), []).append(e)
    check(len(classes) <= len(rs), "more colours than routes")
    # a colour must be attributable to one route: an assignment colour -> route, injective, consistent with the edges
    cands = []
    for c, es in classes.items():
        ids = set.intersection(*(consecutive[e] for e in es))
        check(ids, "edges of one colour do not belong to one route", es)
        cands.append(ids)
    check(matchable(cands), "two routes share a colour")
    check([gen.structure(r) for r in rs] == before, "plotting changes the plan")


def matchable(cands):
    match = {}

    def go(k, seen):
        for r in cands[k]:
            if r in seen:
                continue
            seen.add(r)
            if r not in match or go(match[r], seen):
                match[r] = k
                return True
        return False

    return all(go(k, set()) for k in range(len(cands)))


@case("C22", weight=0.3)
def c22_drawn(rng):
    """What reaches the drawing library is the graph."""
    import jinete.storers.plots.graph as mod

    w = gen.world(rng, n_trips=rng.randint(1, 5), n_vehicles=rng.randint(1, 3))
    rs = gen.routes(rng, w)
    res = gen.result(w, rs)
    calls = []

    class NX(object):
        DiGraph = mod.nx.DiGraph
        Graph = mod.nx.Graph

        def __getattr__(self, name):
            return lambda *a, **k: calls.append((name, a, k))

    class PLT(object):
        def __getattr__(self, name):
            return lambda *a, **k: calls.append((name, a, k))

    old = mod.nx, mod.plt
    path = rng.choice([None, "some/path.png", Path("p.svg")])
    mod.nx, mod.plt = NX(), PLT()
    try:
        GraphPlotStorer(path, result=res).store()
    finally:
        mod.nx, mod.plt = old
    by = {}
    for name, a, k in calls:
        by.setdefault(name, []).append((a, k))
    check(len(by.get("draw", [])) == 1, "not drawn exactly once", [c[0] for c in calls])
    (a, k) = by["draw"][0]
    g = a[0]
    pos = k.get("pos", a[1] if len(a) > 1 else None)
    for n in g.nodes:
        check(tuple(pos[n]) == tuple(n.coordinates), "a place is drawn elsewhere", n.coordinates, pos[n])
    check(list(k["edge_color"]) == [m["color"] for _, m in g.edges.items()], "colours of the drawn edges")
    labels = by["draw_networkx_labels"][0][1]["labels"]
    check(dict(labels) == {n: m["label"] for n, m in g.nodes.items()}, "labels of the drawn nodes")
    if path is None:
        check(len(by.get("show", [])) == 1 and "savefig" not in by, "shown")
    else:
        check("show" not in by and [str(x[0][0]) for x in by["savefig"]] == [str(path)], "saved where asked", by.get("savefig"))
