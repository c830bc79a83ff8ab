"""C17: the texts of the formats, and where the storers deliver them."""
import z3

from jinete.storers.file import FileStorer
from jinete.storers.formatters.columnar import ColumnarStorerFormatter
from jinete.storers.formatters.hashcode import HashCodeStorerFormatter
from jinete.storers.prompt import PromptStorer
from jinete.storers.sets import StorerSet
from jinete.storers.abc import Storer
from pyvc.loops import Invariant
from pyvc.spec import R, engine_level
from pyvc.values import EObj, SNum, SSeq, SStr, StrS
from pyvc.world import Facade, Ghost, UnknownClass, method, unknown_class

from .c05_trips_routes import a_result
from .files import Path, written

CO = "jinete.storers.formatters.columnar:ColumnarStorerFormatter."
HC = "jinete.storers.formatters.hashcode:HashCodeStorerFormatter."


def formatter(cls, **settings):
    def arrange(eng):
        result = a_result(eng)
        self = eng.instantiate(cls, [], dict(settings, result=result))
        return [self], {}, {"self": self, "outcome": result}

    return arrange


# ------------------------------------------------------------------------------------------------- the HashCode format


def hashcode_line(route):
    """The number of trips with non-zero load and their identifiers, in visiting order."""
    trips = [p.trip for s in route.stops for p in s.pickup_planned_trips if p.trip.capacity != 0]
    return f"{sum(1 for t in trips)} {' '.join(t.identifier for t in trips)}"


def has_planned_trips(route):
    return any(True for s in route.stops for p in s.pickup_planned_trips)


for label, settings in (("by default", {}), ("without empty routes", {"remove_empty_routes": True}), ("with empty routes", {"remove_empty_routes": False})):
    c = R.add(HC + "format", props=["C17"], opaque=False, variant=label)
    c.arrange(formatter(HashCodeStorerFormatter, **settings))

    @c.post("one line per route that counts, in order of the texts")
    def _(outcome, result, keep=settings.get("remove_empty_routes") is False):
        return result == "\n".join(sorted(hashcode_line(r) for r in outcome.planning.routes if keep or has_planned_trips(r)))


# --------------------------------------------------------------------------------------------------- the columnar format


def columnar(result, *extra, **settings):
    def arrange(eng):
        outcome = a_result(eng)
        self = eng.instantiate(ColumnarStorerFormatter, [], {"tab_character": eng.fresh("str", "tab"), "result": outcome, **settings})
        binding = {"self": self, "outcome": outcome, "tab": self.attrs["tab_character"]}
        args = [self]
        for name, kind in extra:
            binding[name] = eng.fresh(kind, name)
            args.append(binding[name])
        return args, {}, binding

    return arrange


def place(position):
    return f"{position}"


c = R.add(CO + "_vehicle_to_str", props=["C17"], opaque=False, params=dict(vehicle="ref:Vehicle"))


@c.post("the vehicle: identifier, depots, hours and capacity")
def _(vehicle, result):
    return result == [
        f'ID: "{vehicle.identifier}"',
        f"Initial:  {vehicle.origin_position}",
        f"Final:    {vehicle.destination_position}",
        f"Earliest: {vehicle.origin_earliest:7.2f}",
        f"Latest:   {vehicle.origin_latest:7.2f}",
        f"Capacity: {vehicle.capacity:7.2f}",
    ]


c = R.add(CO + "_planned_trip_to_str", props=["C17"], opaque=False)
c.arrange(columnar(None, ("planned_trip", "ref:PlannedTrip")))
c.pre("planned completely")(lambda planned_trip: planned_trip.pickup is not None and planned_trip.delivery is not None)


@c.post("the planned trip: what it reports itself")
def _(planned_trip, tab, result):
    p = planned_trip
    return result == (
        f"ID: {p.trip.identifier:5}{tab}"
        f"P: {p.trip.origin.position} to {p.trip.destination.position}{tab}"
        f"TW: {p.trip.origin_earliest:7.01f} to {p.trip.destination_latest:7.01f}{tab}"
        f"WT: {p.waiting_time:7.01f}{tab}"
        f"NT: {p.transit_time:7.01f}{tab}"
        f"LT: {p.load_time:4.01f}{tab}"
        f"TT: {p.duration:6.01f}{tab}"
        f"T: {p.pickup.departure_time:7.01f} to {p.delivery.starting_time:7.01f}{tab}"
        f"L: {p.trip.capacity}"
    )


c = R.add(CO + "_stop_to_str", props=["C17"], opaque=False)
c.arrange(columnar(None, ("stop", "ref:Stop")))


@c.post("the stop: what it reports itself")
def _(stop, tab, result):
    return result == (
        f"ID: {stop.identifier:5}{tab}"
        f"P: {stop.position}{tab}"
        f"TW: {stop.earliest:7.01f} to {stop.latest:7.01f}{tab}"
        f"WT: {stop.waiting_time:7.01f}{tab}"
        f"NT: {stop.transit_time:7.01f}{tab}"
        f"LT: {stop.load_time:5.01f}{tab}"
        f"DT: {stop.departure_time:7.01f}{tab}"
        f"L: {stop.capacity}"
    )


def planned_in(route):
    return [p for s in route.stops for p in s.pickup_planned_trips]


c = R.add(CO + "_route_to_str", props=["C17"], opaque=False, unfold=(0, 1))
c.arrange(columnar(None, ("route", "ref:Route")))
c.pre("planned completely")(lambda route: all(p.pickup is not None and p.delivery is not None for p in planned_in(route)))


@c.post("its vehicle, every planned trip and every stop once")
def _(self, route, tab, result):
    return result == [
        "Vehicle: ",
        *(f"{tab}{row}" for row in self._vehicle_to_str(route.vehicle)),
        f'Planned Trips: "{sum(1 for p in planned_in(route))}"',
        *(f"{tab}{self._planned_trip_to_str(p)}" for p in planned_in(route)),
        f'Stops: "{len(route.stops)}"',
        *(f"{tab}{self._stop_to_str(s)}" for s in route.stops),
    ]


def whole(label, keep, **settings):
    c = R.add(CO + "format", props=["C17"], opaque=False, unfold=(0, 1), variant=label)
    c.arrange(columnar(None, **settings))


    @c.pre("planned completely")
    def _(outcome):
        return all(p.pickup is not None and p.delivery is not None for r in outcome.planning.routes for p in planned_in(r))


    c.pre("every route has a first and a last stop")(lambda outcome: all(len(r.stops) >= 2 for r in outcome.planning.routes))
    c.pre("there are trips")(lambda outcome: len(outcome.job.trips) > 0)


    @c.post("the plan and every route once")
    def _(self, outcome, tab, result):
        rows = "\n".join(f"{tab}{row}" for r in outcome.planning.routes if keep or has_planned_trips(r) for row in self._route_to_str(r))
        return result == (
            f'Planning UUID: "{outcome.planning.uuid}"\n'
            f'Routes count: "{sum(1 for r in outcome.planning.routes if keep or has_planned_trips(r))}"\n'
            "Routes: \n"
            f"{rows}\n"
            f'Computation time: "{outcome.computation_time:0.4f}" seconds\n'
            f'Coverage Rate: "{outcome.coverage_rate}"\n'
            f'Objective: "{outcome.job.objective.__class__.__name__}"\n'
            f'Optimization Value: "{outcome.optimization_value}"\n'
            f'Feasible: "{outcome.feasible}"\n'
            f'Direction: "{outcome.direction}"'
        )


whole("", True)
whole("without empty routes", False, remove_empty_routes=True)


# -------------------------------------------------------------------------------------------------------- the storers


class Format(object):
    """An unknown format: what its formatter is given, and the text it answers."""

    def __init__(self, eng, result):
        text = SStr([("s", z3.Const("text", StrS))])
        self.text = text

        def init(eng, obj, args, kwargs, node):
            given = list(args) + list(kwargs.values())
            eng.oblige(z3.BoolVal(len(given) == 1 and set(kwargs) <= {"result"} and given[0] is result), "the formatter gets the result", node)

        def format_(eng, obj, args, kwargs, node):
            eng.oblige(z3.BoolVal(not args and not kwargs), "no arguments", node)
            return text

        self.cls = unknown_class("AnyFormat", __init__=init, format=format_)


def storing(cls, place=None):
    def arrange(eng):
        result = a_result(eng)
        form = Format(eng, result)
        path = Path(eng)
        kwargs = {"result": result, "formatter_cls": form.cls}
        if place:
            kwargs[place] = path
        self = eng.instantiate(cls, [], kwargs)
        return [self], {}, {"self": self, "_form": form, "_path": path}

    return arrange


c = R.add("jinete.storers.file:FileStorer.store", props=["C17"], opaque=False, variant="any format")
c.arrange(storing(FileStorer, "file_path"))


@c.check("the file holds exactly the format's text")
def _(eng, binding, result):
    text = written(eng, binding["_path"])
    eng.oblige(z3.BoolVal(text is not None), "the file is overwritten")
    if text is not None:
        eng.oblige(eng.eq(text, binding["_form"].text), "exactly the format's text, once")
    eng.oblige(z3.BoolVal(all(e[0] in ("open", "write") for e in eng.trace)), "delivered nowhere else")


c = R.add("jinete.storers.prompt:PromptStorer.store", props=["C17"], opaque=False, variant="any format")
c.arrange(storing(PromptStorer))


@c.check("exactly the format's text is printed")
def _(eng, binding, result):
    ok = len(eng.trace) == 1 and eng.trace[0][0] == "print" and len(eng.trace[0][1]) == 1 and not eng.trace[0][2]
    eng.oblige(z3.BoolVal(ok), "one text is printed")
    if ok:
        eng.oblige(eng.eq(eng.trace[0][1][0], binding["_form"].text), "exactly the format's text")


def storer_set(label, positional):
    c = R.add("jinete.storers.sets:StorerSet.store", props=["C17"], opaque=False, variant=label,
              loops={0: Invariant({}, [
                  ("every storer so far has stored once", engine_level(lambda eng, i, _log: eng.eq(_log.attrs["count"], i))),
              ], ghosts={"_log": {"count": "int"}})})

    def arrange(eng):
        log = EObj(Ghost, {"count": SNum(z3.IntVal(0))})
        eng.ghosts["_log"] = log
        result = a_result(eng)
        form = Format(eng, result)
        n = eng.fresh_const(z3.IntSort(), "storers")
        eng.fact(n >= 0)

        def storer(k):
            def new(eng, args, kwargs, node):
                given = dict(zip(("result", "formatter_cls"), args))
                ok = len(args) <= 2 and not set(given) & set(kwargs)
                given.update(kwargs)
                eng.oblige(z3.BoolVal(ok and set(given) == {"result", "formatter_cls"} and given["result"] is result and given["formatter_cls"] is form.cls),
                           "a storer gets the result and the format, as configured", node)

                def store(eng, args, kwargs, node):
                    eng.oblige(z3.BoolVal(not args and not kwargs), "no arguments", node)
                    eng.oblige(k == eng.znum(log.attrs["count"]), "the storers store one after another, each once", node)
                    log.attrs["count"] = SNum(eng.znum(log.attrs["count"]) + 1)

                return Facade("a storer", {"store": method(store)})

            return UnknownClass("storer", new, [Storer])

        args, kwargs = ([result, form.cls], {}) if positional else ([], {"result": result, "formatter_cls": form.cls})
        self = eng.instantiate(StorerSet, [SSeq(n, storer)] + args, kwargs)
        return [self], {}, {"self": self, "_log": log, "_n": SNum(n)}

    c.arrange(arrange)

    @c.check("every storer stores once")
    def _(eng, binding, result):
        eng.oblige(eng.znum(binding["_log"].attrs["count"]) == binding["_n"].e, "every storer stores once")


storer_set("settings by position", True)
storer_set("settings by name", False)

c = R.add("jinete.models.stops:Stop.identifier", props=["C17"], opaque=False, params=dict(self="ref:Stop"))


@c.post("all pickups and deliveries there")
def _(self, result):
    rows = "|".join(x for part in (
        [f"P{p.trip.identifier}" for p in self.pickup_planned_trips], [f"D{p.trip.identifier}" for p in self.delivery_planned_trips]) for x in part)
    return result == f"[{rows}]"
