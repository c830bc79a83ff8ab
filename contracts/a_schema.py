"""What objects look like: the fields the code keeps, and which ones the code creates."""
import z3

from jinete.models.planned_trips import PlannedTrip
from jinete.models.plannings import Planning
from jinete.models.positions import GeometricPosition
from jinete.models.results import Result
from jinete.models.routes import Route
from jinete.models.services import Service
from jinete.models.stops import Stop
from jinete.models.surfaces import GeometricSurface
from jinete.models.trips import Trip
from jinete.models.vehicles import Fleet, Vehicle
from pyvc.spec import S
from pyvc.values import SV, Builtin, Coords, PyRaise, Ref, SNum, Unsupported
from pyvc.world import Unknown

S.cls(GeometricSurface, uuid="str", positions="set:ref:GeometricPosition", metric="make:metric", cached_distance="make:cache")
S.cls(GeometricPosition, allocate=True, surface="ref:GeometricSurface", coordinates="coords")
S.cls(Service, allocate=True, position="ref:GeometricPosition", earliest="num", latest="num", duration="num")
S.cls(Trip, allocate=True, identifier="str", origin="ref:Service", destination="ref:Service", on_time_bonus="num", capacity="num", timeout="num")
S.cls(Vehicle, allocate=True, identifier="str", origin="ref:Service", _destination="ref?:Service", capacity="num", timeout="num")
S.cls(Stop, allocate=True, vehicle="ref:Vehicle", position="ref:GeometricPosition", previous="ref?:Stop",
      pickup_planned_trips="set:ref:PlannedTrip", delivery_planned_trips="set:ref:PlannedTrip", _starting_time="opt:num")
S.cls(PlannedTrip, allocate=True, vehicle="ref:Vehicle", trip="ref:Trip", pickup="ref?:Stop", delivery="ref?:Stop")
# (the fields "vc …" are ghosts: the trips a route serves, its value and its verdict, where a proof needs no more of it)
S.cls(Route, allocate=True, vehicle="ref:Vehicle", stops="list:ref:Stop", **{"vc trips": "set:ref:Trip", "vc value": "num", "vc ok": "bool"})
S.cls(Planning, allocate=True, routes="set:ref:Route", uuid="str")
S.tracked = {"Stop", "PlannedTrip", "Route"}
S.cls(Result, planning="ref:Planning", computation_time="num")
S.cls(Unknown)
S.cls(Fleet, vehicles="set:ref:Vehicle")


# ------------------------------------------------------------------------------------------- the metric and the cache

METRIC = z3.Function("metric", Ref, Coords, Coords, z3.RealSort())


class Metric(SV):
    """The callable in ``surface.metric``: some function of the surface and two coordinate tuples."""

    __slots__ = ("obj",)

    def __init__(self, obj):
        self.obj = obj

    def vc_call(self, eng, args, kwargs, node):
        a, b = args
        return SNum(METRIC(self.obj.e, eng.raw(a), eng.raw(b)))


HAS = ("GeometricSurface", "cached_distance#has")
VAL = ("GeometricSurface", "cached_distance#val")
BB = z3.ArraySort(Coords, z3.ArraySort(Coords, z3.BoolSort()))
RR = z3.ArraySort(Coords, z3.ArraySort(Coords, z3.RealSort()))


class Cache(SV):
    """``defaultdict(dict)`` keyed by positions, that is (hash and equality of positions) by their coordinates."""

    __slots__ = ("obj",)

    def __init__(self, obj):
        self.obj = obj

    def vc_getitem(self, eng, key, node):
        return Row(self.obj, eng.raw(eng.getattr(key, "coordinates")))


class Row(SV):
    __slots__ = ("obj", "key")

    def __init__(self, obj, key):
        self.obj, self.key = obj, key

    def has(self, eng, k):
        return z3.Select(z3.Select(z3.Select(eng.heap_array(HAS, BB), self.obj.e), self.key), k)

    def val(self, eng, k):
        return z3.Select(z3.Select(z3.Select(eng.heap_array(VAL, RR), self.obj.e), self.key), k)

    def vc_contains(self, eng, key):
        return self.has(eng, eng.raw(eng.getattr(key, "coordinates")))

    def vc_getitem(self, eng, key, node):
        k = eng.raw(eng.getattr(key, "coordinates"))
        eng.require(self.has(eng, k), KeyError, "the distance is cached", node)
        return SNum(self.val(eng, k))

    def vc_setitem(self, eng, key, v, node):
        if eng.binders or eng.ctx.parent is not None:
            raise Unsupported("caching inside a loop")
        k = eng.raw(eng.getattr(key, "coordinates"))
        for name, sort, x in ((HAS, BB, z3.BoolVal(True)), (VAL, RR, z3.ToReal(eng.znum(v)) if z3.is_int(eng.znum(v)) else eng.znum(v))):
            arr = eng.heap_array(name, sort)
            outer = z3.Select(arr, self.obj.e)
            inner = z3.Select(outer, self.key)
            eng.heap[name] = z3.Store(arr, self.obj.e, z3.Store(outer, self.key, z3.Store(inner, k, x)))
        eng.heap_version += 1000003 + next(eng.counter)

    def vc_getattr(self, eng, name, node):
        if name == "get":
            def get(key, default=None):
                try:
                    eng.handler_stack = eng.handler_stack + [(KeyError,)]
                    return self.vc_getitem(eng, key, node)
                except PyRaise:
                    return default
                finally:
                    eng.handler_stack = eng.handler_stack[:-1]

            return Builtin(name, get)
        raise Unsupported(f"dict.{name}")


def cache_ok(eng, surface):
    """The invariant of the cache: what it holds is the metric of the coordinates."""
    a, b = z3.Consts("ca cb", Coords)
    has = z3.Select(z3.Select(z3.Select(eng.heap_array(HAS, BB), surface.e), a), b)
    val = z3.Select(z3.Select(z3.Select(eng.heap_array(VAL, RR), surface.e), a), b)
    return z3.ForAll([a, b], z3.Implies(has, val == METRIC(surface.e, a, b)), patterns=[has])


S.consts["metric"] = lambda eng, obj: Metric(obj)
S.consts["cache"] = lambda eng, obj: Cache(obj)
