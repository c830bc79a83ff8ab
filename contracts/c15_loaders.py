"""C15 and C16: what the formatters of the loaders make of the rows of an instance file (of any number of rows)."""
import z3

from jinete.loaders.file import FileLoader
from jinete.loaders.formatters.cordeau_laporte import CordeauLaporteLoaderFormatter
from jinete.loaders.formatters.hashcode import HashCodeLoaderFormatter
from jinete.models.constants import MAX_FLOAT, DistanceMetric
from jinete.models.objectives import DialARideObjective, HashCodeObjective
from jinete.models.positions import GeometricPosition
from pyvc.engine import item
from pyvc.spec import R, engine_level
from pyvc.values import Builtin, EObj, SNum, SSeq
from pyvc.world import Facade, unknown_class

from .c05_trips_routes import a_fleet, a_job
from .files import Path

CL = "jinete.loaders.formatters.cordeau_laporte:CordeauLaporteLoaderFormatter."
HC = "jinete.loaders.formatters.hashcode:HashCodeLoaderFormatter."


def rows(eng, width=None):
    """Any number of rows of numbers."""
    size = z3.Int("rows")
    eng.fact(size >= 0)
    cell, length = z3.Function("cell", z3.IntSort(), z3.IntSort(), z3.RealSort()), z3.Function("cells", z3.IntSort(), z3.IntSort())

    def row(i):
        n = length(i) if width is None else z3.IntVal(width)
        return SSeq(n, lambda j: SNum(cell(i, j)))

    return SSeq(size, row)


def a_surface(eng):
    """A surface; by its contract (C01) it answers a position with exactly the given coordinates."""
    eng.assumptions.add("Surface.get_or_create_position answers a position with exactly the given coordinates (proved for C01)")

    def get(eng, node):
        def get_or_create_position(coordinates):
            p = eng.alloc(GeometricPosition)
            eng.write_field(p, "coordinates", eng.call(tuple, [coordinates], {}, node))
            return p

        return Builtin("get_or_create_position", get_or_create_position)

    return Facade("a surface", {"get_or_create_position": get})


def formatter(cls):
    def arrange(eng):
        self = EObj(cls, {"data": rows(eng, 6 if cls is HashCodeLoaderFormatter else None)})
        surface = a_surface(eng)
        return [self, surface], {}, {"self": self, "surface": surface}

    return arrange


def at(position, x, y):
    c = position.coordinates
    return len(c) == 2 and c[0] == x and c[1] == y


# --------------------------------------------------------------------------------------------------- Cordeau-Laporte


def header(data):
    """Vehicles, two rows per request, duration limit, capacity, ride-time limit."""
    return len(data[0]) >= 5 and data[0][0] >= 0 and data[0][1] >= 0


def pairs(data):
    return int(item(item(data, 0), 1) // 2)


def is_request(t, data, i):
    """Trip ``t`` is the one of the i-th pickup row and of the row as many places later as there are requests."""
    p, d = item(data, 2 + i), item(data, 2 + i + pairs(data))
    return (
        placed(t.origin, p) and placed(t.destination, d)
        and t.capacity == item(p, 4) and t.timeout == item(item(data, 0), 4) and t.on_time_bonus == 0
    )


def placed(service, row):
    """What a row says about one end: coordinates, service duration and window."""
    return (
        at(service.position, item(row, 1), item(row, 2)) and service.duration == item(row, 3)
        and service.earliest == item(row, 5) and service.latest == item(row, 6)
    )


c = R.add(CL + "job", props=["C15"], opaque=False)
c.arrange(formatter(CordeauLaporteLoaderFormatter))
c.pre("a header")(lambda self: len(self.data) >= 1 and header(self.data))
c.pre("a depot and two rows per request")(lambda self: len(self.data) >= 2 + 2 * pairs(self.data))
c.pre("rows with seven numbers")(lambda self: all(len(self.data[k]) >= 7 for k in range(2, len(self.data))))
c.pre("the loads of a pair are opposite")(
    lambda self: all(item(item(self.data, 2 + i), 4) == -item(item(self.data, 2 + i + pairs(self.data)), 4) for i in range(pairs(self.data)))
)


@c.post("one trip for every pair of rows, with what the rows say")
def _(self, result):
    return all(any(is_request(t, self.data, i) for t in result.trips) for i in range(pairs(self.data)))


@c.post("no other trip")
def _(self, result):
    return all(any(is_request(t, self.data, i) for i in range(pairs(self.data))) for t in result.trips)


@c.post("identifiers are distinct")
def _(result):
    return all(t is u or t.identifier != u.identifier for t in result.trips for u in result.trips)


@c.post("as many trips as pairs of rows")
def _(self, result):
    return len(result.trips) == pairs(self.data)


@c.post("the dial-a-ride objective")
def _(result):
    return result.objective_cls is DialARideObjective


c = R.add(CL + "_build_trip", props=["C15"], opaque=False, variant="loads that are not opposite")


@c.arrange
def _(eng):
    args, kwargs, binding = formatter(CordeauLaporteLoaderFormatter)(eng)
    idx, n = eng.fresh("int", "idx"), eng.fresh("int", "n")
    binding.update(idx=idx, n=n)
    return args + [idx, n], {}, binding


c.pre("a pair of rows")(lambda self, idx, n: 0 <= idx and idx < n and 2 + idx + n < len(self.data) and len(self.data[0]) >= 5)
c.pre("rows with seven numbers")(lambda self: all(len(self.data[k]) >= 7 for k in range(2, len(self.data))))


@c.raising(AssertionError, "the loads are not opposite")
def _(self, idx, n):
    return self.data[2 + idx][4] != -self.data[2 + idx + n][4]


c = R.add(CL + "fleet", props=["C15"], opaque=False)
c.arrange(formatter(CordeauLaporteLoaderFormatter))
c.pre("a header and a depot")(lambda self: len(self.data) >= 2 and header(self.data) and len(self.data[1]) >= 3)


@c.post("as many vehicles as the header says")
def _(self, result):
    return len(result.vehicles) == int(self.data[0][0])


@c.post("each with the header's limits, starting and ending at the depot")
def _(self, result):
    return all(
        v.capacity == self.data[0][3] and v.timeout == self.data[0][2]
        and at(v.origin_position, self.data[1][1], self.data[1][2]) and at(v.destination_position, self.data[1][1], self.data[1][2])
        for v in result.vehicles
    )


@c.post("available all day")
def _(result):
    return all(v.origin_earliest == 0 and v.destination_latest == MAX_FLOAT for v in result.vehicles)


@c.post("identifiers are distinct")
def _(result):
    return all(v is w or v.identifier != w.identifier for v in result.vehicles for w in result.vehicles)


# ---------------------------------------------------------------------------------------------------------- HashCode


def is_ride(t, data, i):
    """Trip ``t`` is the one of the i-th ride: from, to, earliest start and latest finish."""
    r = data[1 + i]
    return (
        t.identifier == str(i) and at(t.origin.position, r[0], r[1]) and at(t.destination.position, r[2], r[3])
        and t.origin.earliest == r[4] and t.destination.latest == r[5] and t.origin.latest >= r[5] and t.destination.earliest == 0
        and t.origin.duration == 0 and t.destination.duration == 0
        and t.capacity == 1 and t.on_time_bonus == data[0][4] and t.timeout == MAX_FLOAT
    )


c = R.add(HC + "job", props=["C16"], opaque=False)
c.arrange(formatter(HashCodeLoaderFormatter))
c.pre("a header")(lambda self: len(self.data) >= 1)


@c.post("one trip for every ride, with what its row says")
def _(self, result):
    return all(any(is_ride(t, self.data, i) for t in result.trips) for i in range(len(self.data) - 1))


@c.post("no other trip")
def _(self, result):
    return all(any(is_ride(t, self.data, i) for i in range(len(self.data) - 1)) for t in result.trips)


@c.post("as many trips as rides")
def _(self, result):
    return len(result.trips) == len(self.data) - 1


@c.post("the HashCode objective")
def _(result):
    return result.objective_cls is HashCodeObjective


c = R.add(HC + "fleet", props=["C16"], opaque=False)
c.arrange(formatter(HashCodeLoaderFormatter))
c.pre("a header")(lambda self: len(self.data) >= 1 and self.data[0][2] >= 0)


@c.post("as many vehicles as the header says")
def _(self, result):
    return len(result.vehicles) == int(self.data[0][2])


@c.post("for one passenger, based at the origin and available until the last step")
def _(self, result):
    return all(
        v.capacity == 1 and at(v.origin_position, 0, 0) and at(v.destination_position, 0, 0)
        and v.origin_earliest == 0 and v.destination_latest == self.data[0][5] and v.origin_latest == self.data[0][5]
        and v.timeout == MAX_FLOAT
        for v in result.vehicles
    )


@c.post("identifiers are distinct")
def _(result):
    return all(v is w or v.identifier != w.identifier for v in result.vehicles for w in result.vehicles)


# ---------------------------------------------------------------------------------------------------------- surfaces

for target, cls, prop, metric in ((CL, CordeauLaporteLoaderFormatter, "C15", DistanceMetric.EUCLIDEAN),
                                  (HC, HashCodeLoaderFormatter, "C16", DistanceMetric.MANHATTAN)):
    c = R.add(target + "surface", props=[prop], opaque=False)

    @c.arrange
    def _(eng, cls=cls):
        self = EObj(cls, {"data": rows(eng)})
        return [self], {}, {"self": self}

    @c.post("a surface measured by the metric of the format")
    def _(result, metric=metric):
        return result.metric is metric


# ---------------------------------------------------------------------------------------------------------- the loader


class Instance(object):
    """An unknown format: what its formatter is given and asked for, and what it answers."""

    def __init__(self, eng):
        self.path = Path(eng)
        self.job, self.fleet, self.place = a_job(eng), a_fleet(eng), Facade("a surface", {})
        w = self

        def init(eng, obj, args, kwargs, node):
            eng.effect("new", args, kwargs)

        def asked(name, answer):
            def go(eng, obj, args, kwargs, node):
                eng.effect(name, args, kwargs)
                return answer

            return go

        self.formatter = unknown_class(
            "AnyFormatter", __init__=init, job=asked("job", w.job), fleet=asked("fleet", w.fleet), surface=asked("surface", w.place))
        self.loader = eng.instantiate(FileLoader, [self.path], {"formatter_cls": self.formatter})

    def check(self, eng, result, what):
        calls = [e for e in eng.trace if e[0] != "open"]
        names = [e[0] for e in calls]
        eng.oblige(z3.BoolVal(names.count("new") == 1), "one formatter for the file")
        eng.oblige(z3.BoolVal(names.count("surface") == 1), "one surface for everything")
        eng.oblige(z3.BoolVal(names.count("job") == (what != "fleet") and names.count("fleet") == 1), "formatted once")
        for name, args, kwargs in calls:
            given = list(args) + list(kwargs.values())
            if name == "new":
                eng.oblige(z3.BoolVal(len(given) == 1), "the formatter gets the data of the file")
                if len(given) == 1:
                    eng.oblige(eng.spec_bool(is_content, {"data": given[0], "lines": self.path.lines}), "the rows are the lines of the file, as numbers")
            elif name == "surface":
                eng.oblige(z3.BoolVal(not given), "surface: no arguments")
            else:
                eng.oblige(z3.BoolVal(len(given) == 1 and given[0] is self.place), f"{name}: on the one surface")
        eng.oblige(z3.BoolVal(result is getattr(self, what)), "what the formatter answers")


def is_content(data, lines):
    return len(data) == len(lines) and all(
        len(row) == len(line.split()) and all(x == float(word) for x, word in zip(row, line.split()))
        for row, line in zip(data, lines)
    )


for what in ("fleet", "job"):
    c = R.add(f"jinete.loaders.file:FileLoader.{what}", props=["C15", "C16"], opaque=False, variant="any format")

    @c.arrange
    def _(eng, what=what):
        w = Instance(eng)
        if what == "job":
            eng.getattr(w.loader, "fleet")
        return [w.loader], {}, {"self": w.loader, "_w": w}

    @c.check("one formatter, one surface, the data of the file")
    def _(eng, binding, result, what=what):
        binding["_w"].check(eng, result, what)
