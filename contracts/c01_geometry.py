"""C01: positions, services, surfaces and metrics."""
import z3

from pyvc.spec import R, engine_level
from pyvc.values import Ref

from .a_schema import METRIC, cache_ok

M = "jinete.models."


def self_(self):
    return self


# ---------------------------------------------------------------------------------------------------- metrics

for name in ("EUCLIDEAN", "MANHATTAN"):
    c = R.add(M + f"constants:DistanceMetric.{name}", params=dict(a="coords", b="coords"), result="num", props=["C01"], opaque=False,
              unfold=(1,))

    @c.pre("both places have as many coordinates")
    def _(a, b):
        return len(a) == len(b)

    @c.post("never negative")
    def _(a, b, result):
        return result >= 0

    @c.post("zero from a place to itself")
    def _(a, b, result):
        return a != b or result == 0

    if name == "EUCLIDEAN":
        from math import sqrt

        @c.post("the straight-line distance, in either direction")
        def _(a, b, result):
            return result == sqrt(sum((b[i] - a[i]) ** 2 for i in range(len(a)))) and result == sqrt(sum((a[i] - b[i]) ** 2 for i in range(len(a))))

    else:

        @c.post("the city-block distance, in either direction")
        def _(a, b, result):
            return result == sum(abs(b[i] - a[i]) for i in range(len(a))) and result == sum(abs(a[i] - b[i]) for i in range(len(a)))


# ---------------------------------------------------------------------------------------------------- surfaces

for name, args in (("distance", {}), ("time", {})):
    c = R.add(M + f"surfaces:GeometricSurface.{name}", modifies=[("GeometricSurface.cached_distance", None)], opaque=False, props=["C01"], result="num", variant="all histories",
              params=dict(self="ref:GeometricSurface", position_a="ref:GeometricPosition", position_b="ref:GeometricPosition"))

    @c.pre("the cache only holds distances")
    @engine_level
    def _(eng, self):
        return cache_ok(eng, self)

    @c.post("the metric of the coordinates")
    @engine_level
    def _(eng, self, position_a, position_b, result):
        return eng.znum(result) == METRIC(self.e, eng.raw(eng.getattr(position_a, "coordinates")), eng.raw(eng.getattr(position_b, "coordinates")))

    @c.post("the cache still only holds distances")
    @engine_level
    def _(eng, self):
        return cache_ok(eng, self)

    @c.check("other surfaces are left alone")
    def _(eng, binding, result):
        from .a_schema import BB, HAS, RR, VAL

        o = z3.Const("other", Ref)
        for key, sort in ((HAS, BB), (VAL, RR)):
            new = eng.heap_array(key, sort)
            old = z3.Const("H0." + ".".join(key), new.sort())
            eng.oblige(z3.Implies(o != binding["self"].e, new[o] == old[o]), "other surfaces are left alone")


c = R.add(M + "surfaces:GeometricSurface.__init__", opaque=False, props=["C01"],
          params=dict(self="ref:GeometricSurface"))


def arrange(eng):
    from pyvc.values import EObj
    from jinete.models.surfaces import GeometricSurface

    metric = eng.schema.consts["metric"](eng, eng.fresh("ref:GeometricSurface", "m"))
    self = EObj(GeometricSurface)
    return [self, metric], {}, {"self": self, "metric": metric}


c.arrange(arrange)


@c.check("starts with nothing cached, no positions and the given metric")
def _(eng, binding, result):
    s = binding["self"]
    cached = s.attrs.get("cached_distance")
    from pyvc.values import LocalDict, LocalSet

    eng.oblige(z3.BoolVal(isinstance(cached, LocalDict) and not cached.d), "nothing is cached")
    eng.oblige(z3.BoolVal(s.attrs.get("metric") is binding["metric"]), "the given metric")
    p = s.attrs.get("positions")
    eng.oblige(z3.BoolVal(isinstance(p, LocalSet) and not p.items), "no positions")


c = R.add(M + "surfaces:Surface.get_or_create_position", modifies=[("GeometricSurface.positions", self_)], opaque=False, props=["C01"], result="ref:GeometricPosition")


def arrange(eng):
    self = eng.fresh("ref:GeometricSurface", "self")
    coords = eng.fresh("coords", "coordinates")
    return [self], {"coordinates": coords}, {"self": self, "coordinates": coords}


c.arrange(arrange)


@c.pre("no place is registered twice")
def _(self):
    return all(p is q or p.coordinates != q.coordinates for p in self.positions for q in self.positions)


@c.pre("positions of the surface exist already")
@engine_level
def _(eng, self):
    x = z3.Const("x", Ref)
    birth = z3.Function("birth", Ref, z3.IntSort())
    return z3.ForAll([x], z3.Implies(eng.getattr(self, "positions").mem(x), birth(x) == 0))


@c.post("exactly the given coordinates")
def _(coordinates, result):
    return result.coordinates == coordinates


@c.post("on this surface")
def _(self, result):
    return result.surface is self


@c.post("registered")
def _(self, result):
    return result in self.positions


@c.post("once")
def _(self):
    return all(p is q or p.coordinates != q.coordinates for p in self.positions for q in self.positions)


@c.post("nothing else is registered or forgotten")
def _(self, result, old, coordinates):
    return all(any(p is q for q in self.positions) for p in old(lambda: self.positions)) and all(
        p.coordinates == coordinates or any(p is q for q in old(lambda: self.positions)) for p in self.positions
    )


# ---------------------------------------------------------------------------------------------------- positions and services

for name in ("distance_to", "time_to"):
    c = R.add(M + "positions:Position." + name, result="num", ignore_args=("now",), symbol="distance", opaque=True,
              params=dict(self="ref:GeometricPosition", other="ref:GeometricPosition"),
              assumed="the distance of two positions is one fixed function of them (proved under C01 from the surface, which is one fixed object)")
    c.heap_free = True

    @c.post("a distance is never negative")
    def _(result):
        return result >= 0

    c = R.add(M + "positions:Position." + name, result="num", variant="the surface's", modifies=[("GeometricSurface.cached_distance", None)], props=["C01"], opaque=False,
              params=dict(self="ref:GeometricPosition", other="ref:GeometricPosition"))

    @c.pre("the cache only holds distances")
    @engine_level
    def _(eng, self):
        return cache_ok(eng, eng.getattr(self, "surface"))

    @c.post("the metric of the coordinates")
    @engine_level
    def _(eng, self, other, result):
        return eng.znum(result) == METRIC(eng.getattr(self, "surface").e, eng.raw(eng.getattr(self, "coordinates")), eng.raw(eng.getattr(other, "coordinates")))

    c = R.add(M + "services:Service." + name, result="num", props=["C01"], opaque=False,
              params=dict(self="ref:Service", other="ref:Service"))

    if name == "distance_to":
        @c.post("the distance of the places")
        def _(self, other, result):
            return result == self.position.distance_to(other.position)
    else:
        @c.post("the travel time of the places")
        def _(self, other, result):
            return result == self.position.time_to(other.position)


c = R.add(M + "positions:GeometricPosition.__eq__", result="bool", props=["C01"], opaque=False,
          params=dict(self="ref:GeometricPosition", other="ref:GeometricPosition"))


@c.post("equal exactly when the coordinates are")
def _(self, other, result):
    return result == (self.coordinates == other.coordinates)


c = R.add(M + "positions:GeometricPosition.__ne__", result="bool", props=["C01"], opaque=False,
          params=dict(self="ref:GeometricPosition", other="ref:GeometricPosition"))


@c.post("different exactly when the coordinates are")
def _(self, other, result):
    return result == (self.coordinates != other.coordinates)


c = R.add(M + "services:Service.__eq__", result="bool", props=["C01"], opaque=False, params=dict(self="ref:Service", other="ref:Service"))


@c.post("equal exactly when all attributes are")
def _(self, other, result):
    return result == (
        self.position.coordinates == other.position.coordinates and self.earliest == other.earliest
        and self.latest == other.latest and self.duration == other.duration
    )


@R.lemma("equal positions have equal hashes", ["C01"], a="ref:GeometricPosition", b="ref:GeometricPosition")
def _(a, b):
    return a.coordinates != b.coordinates or hash(a) == hash(b)


@R.lemma("equal services have equal hashes", ["C01"], a="ref:Service", b="ref:Service")
def _(a, b):
    return not a == b or hash(a) == hash(b)


c = R.add(M + "positions:GeometricPosition.__init__", modifies=[("GeometricPosition.coordinates", self_), ("GeometricPosition.surface", self_)], props=["C01"], opaque=False,
          params=dict(self="ref:GeometricPosition", coordinates="vec:num"))


def arrange(eng):
    self = eng.fresh("ref:GeometricPosition", "self")
    surface = eng.fresh("ref:GeometricSurface", "surface")
    xs = eng.fresh("list:num", "coordinates")
    return [self, xs, surface], {}, {"self": self, "coordinates": xs, "surface": surface}


c.arrange(arrange)


@c.post("the given coordinates")
def _(self, coordinates):
    return len(self.coordinates) == len(coordinates) and all(self.coordinates[i] == coordinates[i] for i in range(len(coordinates)))


@c.post("the given surface")
def _(self, surface):
    return self.surface is surface
