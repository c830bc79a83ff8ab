"""C08: copies of routes and plans are equivalent and independent."""
import z3

from jinete.models.planned_trips import PlannedTrip
from jinete.models.routes import Route, RouteCloner
from jinete.models.stops import Stop
from pyvc.builtins_model import pieces_of
from pyvc.engine import BIRTH
from pyvc.loops import Invariant
from pyvc.maps import SMap
from pyvc.spec import R, engine_level
from pyvc.world import Facade
from pyvc.values import NULL, EObj, LocalDict, LocalList, Ref, SNum, SRef, SSeq, SSet, Unsupported, mk_and

# ------------------------------------------------------------------------------------- requests and places are shared

for where in ("positions:Position", "services:Service", "trips:Trip", "vehicles:Vehicle", "vehicles:Fleet", "jobs:Job"):
    cls = where.split(":")[1]
    kind = {"Position": "ref:GeometricPosition", "Job": None}.get(cls, f"ref:{cls}")
    c = R.add(f"jinete.models.{where}.__deepcopy__", props=["C08"], opaque=False,
              params={"self": kind or (lambda eng: __import__("contracts.c05_trips_routes", fromlist=["a_job"]).a_job(eng)), "memo": lambda eng: EObj(object, {})})

    @c.post("it is shared")
    def _(self, result):
        return result is self


# ---------------------------------------------------------------------------------------------------------- vocabulary

PU = z3.Function("place of pickup", Ref, z3.IntSort())
DE = z3.Function("place of delivery", Ref, z3.IntSort())
k_, l_ = z3.Ints("k!co l!co")
p_, q_ = z3.Consts("p!co q!co", Ref)


class Shape(object):
    """The stops of a route at some moment."""

    def __init__(self, eng, stops):
        self.eng, self.n, seq = eng, stops.length, stops
        self.at = lambda k: seq.get(k).e
        self.heap = dict(eng.heap)

    def field(self, ref, cls, name):
        return self.eng.read_field(SRef(ref, cls), cls, name)

    def picks(self, k, p):
        return self.field(self.at(k), Stop, "pickup_planned_trips").mem(p)

    def drops(self, k, p):
        return self.field(self.at(k), Stop, "delivery_planned_trips").mem(p)

    def inside(self, k):
        return z3.And(0 <= k, k < self.n)


def shape(eng, self):
    route = self.attrs["route"]
    return Shape(eng, eng.to_seq(eng.getattr(route, "stops")))


def complete(eng, s):
    """Every trip picked up somewhere is delivered there or later, once, and the other way round."""
    one = z3.And(0 <= PU(p_), PU(p_) <= DE(p_), DE(p_) < s.n)
    return z3.And(
        s.n >= 2,
        z3.ForAll([k_, p_], z3.Implies(z3.And(s.inside(k_), s.picks(k_, p_)), z3.And(one, PU(p_) == k_, s.drops(DE(p_), p_)))),
        z3.ForAll([k_, p_], z3.Implies(z3.And(s.inside(k_), s.drops(k_, p_)), z3.And(one, DE(p_) == k_, s.picks(PU(p_), p_)))),
        z3.ForAll([p_], z3.Not(s.drops(z3.IntVal(0), p_))),
    )


def delivered(s, p, idx):
    return z3.And(idx <= DE(p), DE(p) < s.n, s.drops(DE(p), p))


def member(eng, s, x):
    s = eng.as_set(s)
    return z3.BoolVal(False) if s is None else s.mem(x)


def a_mapper(eng):
    return SMap(eng, PlannedTrip, "ref:PlannedTrip").arbitrary(eng)


a_mapper.accepts = (SMap, LocalDict)


def mapped(eng, m, p):
    return m.at(eng, p).e


def bare(eng, s, m):
    """The planned trips of the copy, before they have stops."""
    v = mapped(eng, m, p_)
    f = lambda name: s.field(v, PlannedTrip, name).e
    g = lambda name: s.field(p_, PlannedTrip, name).e
    return z3.And(
        z3.ForAll([p_], z3.Implies(m.has(eng, p_), z3.And(
            BIRTH(v) > 0, f("vehicle") == g("vehicle"), f("trip") == g("trip"), f("pickup") == NULL, f("delivery") == NULL))),
        z3.ForAll([p_, q_], z3.Implies(z3.And(m.has(eng, p_), m.has(eng, q_), v == mapped(eng, m, q_)), p_ == q_)),
    )


def covers(eng, s, m, idx):
    return z3.ForAll([p_], m.has(eng, p_) == delivered(s, p_, idx))


def is_new_one(eng, each):
    return BIRTH(each.e) > 0


new_one = engine_level(is_new_one)
new_one.each = True

# --------------------------------------------------------------------------------------------- where the copy begins


class Nothing(object):
    def has(self, eng, k):
        return z3.BoolVal(False)

    def at(self, eng, k):
        return SRef(NULL, PlannedTrip)


def as_map(eng, m):
    m = eng.deref(m)
    if isinstance(m, LocalDict) and not m.d:
        return Nothing()
    if not isinstance(m, SMap):
        raise Unsupported("the mapper is of another kind")
    return m


c = R.add("jinete.models.routes:RouteCloner._initialize", props=["C08"], opaque=False, assert_mode="check", loops={
    0: Invariant({"idx": "int", "mapper": a_mapper, "mismatches": "set:ref:PlannedTrip"}, [
        ("idx is a place", engine_level(lambda eng, self, idx: z3.And(0 <= eng.znum(idx), eng.znum(idx) <= shape(eng, self).n))),
        ("the deliveries seen have copies", engine_level(lambda eng, self, idx, mapper: covers(eng, shape(eng, self), as_map(eng, mapper), eng.znum(idx)))),
        ("the copies are new", engine_level(lambda eng, self, mapper: bare(eng, shape(eng, self), as_map(eng, mapper)))),
        ("mismatches are the trips picked up before", engine_level(lambda eng, self, idx, mismatches: z3.ForAll([p_], member(eng, mismatches, p_) == z3.And(
            delivered(shape(eng, self), p_, eng.znum(idx)), PU(p_) < eng.znum(idx))))),
    ], heap=[(f"PlannedTrip.{f}", new_one) for f in ("vehicle", "trip", "pickup", "delivery")]),
})


def a_cloner(eng, **kw):
    return EObj(RouteCloner, {"route": eng.fresh("ref:Route", "route"), "desired_idx": eng.fresh("int", "desired_idx"), "_idx": None, "_mapper": None, **kw})


c.arrange(lambda eng: (lambda self: ([self], {}, {"self": self}))(a_cloner(eng)))
c.pre("every trip of the route is picked up and delivered once, in that order")(engine_level(lambda eng, self: complete(eng, shape(eng, self))))


@c.check("it begins at or before the place asked for, between trips")
def _(eng, b, result):
    self = b["self"]
    s, idx, m, want = shape(eng, self), eng.znum(self.attrs["_idx"]), as_map(eng, self.attrs["_mapper"]), eng.znum(self.attrs["desired_idx"])
    for name, g in starting_point(eng, self):
        eng.oblige(g, name)


def starting_point(eng, self):
    s, idx, m, want = shape(eng, self), eng.znum(self.attrs["_idx"]), as_map(eng, self.attrs["_mapper"]), eng.znum(self.attrs["desired_idx"])
    return [
        ("it begins at a place of the route", z3.And(0 <= idx, idx <= s.n)),
        ("it begins where asked for, or before", z3.Or(idx == 0, idx <= want)),
        ("nothing is on board there", z3.ForAll([p_], z3.Implies(delivered(s, p_, idx), PU(p_) >= idx))),
        ("the trips delivered from there on have copies", covers(eng, s, m, idx)),
        ("the copies are new and stand for the same trips", bare(eng, s, m)),
    ]


# ------------------------------------------------------------------------------------------------------- the stops


def some_stops(eng):
    return LocalList(pieces_of(eng.to_iter(eng.fresh("list:ref:Stop", "cloned"))))


some_stops.accepts = lambda v: isinstance(v, LocalList) or (isinstance(v, SSeq) and v.view is None)      # (a slice is a new list)


def element(seq, k):
    return NULL if z3.is_int_value(seq.length) and seq.length.as_long() == 0 else seq.get(k).e


class Copy(object):
    def __init__(self, eng, self_, stops):
        self.eng, self.s, self.seq = eng, shape(eng, self_), eng.to_seq(stops)
        self.idx, self.m = eng.znum(self_.attrs["_idx"]), as_map(eng, self_.attrs["_mapper"])
        self.entry = getattr(eng.ghosts["self"], "attrs", self_.attrs)

    def at(self, k):
        return element(self.seq, k)

    def so_far(self, n):
        """The first ``n`` stops are copied: those before ``idx`` shared, the others new."""
        s, m, eng = self.s, self.m, self.eng
        f = lambda ref, name: s.field(ref, Stop, name)
        new, old = self.at(k_), s.at(k_)
        inside = z3.And(0 <= k_, k_ < n)
        copied = z3.And(self.idx <= k_, k_ < n)
        start, start0 = f(new, "_starting_time"), f(old, "_starting_time")
        each = lambda g: z3.ForAll([k_], z3.Implies(copied, g))
        M = lambda p: mapped(eng, m, p)
        out = [
            ("as many stops", self.seq.length == n),
            ("the stops before are shared", z3.ForAll([k_], z3.Implies(z3.And(inside, k_ < self.idx), new == old))),
            ("the others are new", each(BIRTH(new) > 0)),
            ("different ones", z3.ForAll([k_, l_], z3.Implies(z3.And(copied, self.idx <= l_, l_ < n, new == self.at(l_)), k_ == l_))),
            ("of the same vehicle", each(f(new, "vehicle").e == f(old, "vehicle").e)),
            ("at the same place", each(f(new, "position").e == f(old, "position").e)),
            ("with the same planned start", each(z3.And(start.isnone == start0.isnone, z3.Implies(z3.Not(start0.isnone), eng.znum(start.val) == eng.znum(start0.val))))),
            ("coming after the copied ones", each(f(new, "previous").e == z3.If(k_ == 0, NULL, self.at(k_ - 1)))),
        ]
        for what, name in (("pickups", "pickup_planned_trips"), ("deliveries", "delivery_planned_trips")):
            has = lambda k, p, name=name: f(self.at(k), name).mem(p)
            had = lambda k, p, name=name: f(s.at(k), name).mem(p)
            out.append((f"with the {what}", z3.ForAll([k_, p_], z3.Implies(z3.And(copied, had(k_, p_)), has(k_, M(p_))))))
            out.append((f"with no other {what}", z3.ForAll([k_, q_], z3.Implies(z3.And(copied, has(k_, q_)), z3.Exists([p_], z3.And(had(k_, p_), q_ == M(p_)))))))
        g = lambda p, name: s.field(p, PlannedTrip, name).e
        out += [
            ("whose planned trips are picked up there", z3.ForAll([p_], z3.Implies(
                z3.And(m.has(eng, p_), self.idx <= PU(p_)), g(M(p_), "pickup") == z3.If(PU(p_) < n, self.at(PU(p_)), NULL)))),
            ("and delivered there", z3.ForAll([p_], z3.Implies(
                m.has(eng, p_), g(M(p_), "delivery") == z3.If(DE(p_) < n, self.at(DE(p_)), NULL)))),
            ("and stand for the same trips", z3.ForAll([p_], z3.Implies(m.has(eng, p_), z3.And(
                BIRTH(M(p_)) > 0, g(M(p_), "vehicle") == g(p_, "vehicle"), g(M(p_), "trip") == g(p_, "trip"))))),
        ]
        return out


def step(j):
    def inv(eng, self, cloned_stops, i):
        c = Copy(eng, self, cloned_stops)
        return c.so_far(c.idx + eng.znum(i))[j][1]

    return engine_level(inv)


LABELS = ["as many stops", "the stops before are shared", "the others are new", "different ones", "of the same vehicle", "at the same place",
          "with the same planned start", "coming after the copied ones", "with the pickups", "with no other pickups", "with the deliveries",
          "with no other deliveries", "whose planned trips are picked up there", "and delivered there", "and stand for the same trips"]

c = R.add("jinete.models.routes:RouteCloner.clone", props=["C08"], opaque=False, loops={
    0: Invariant({"cloned_stops": some_stops}, [(label, step(j)) for j, label in enumerate(LABELS)],
                 heap=[(f"PlannedTrip.{f}", new_one) for f in ("pickup", "delivery")]
                 + [(f"Stop.{f}", new_one) for f in ("vehicle", "position", "previous", "pickup_planned_trips", "delivery_planned_trips", "_starting_time")]),
})


def arrange(eng):
    self = a_cloner(eng)
    self.attrs["_idx"] = eng.fresh("int", "idx")
    later = eng.fresh_const(z3.IntSort(), "births")      # (the cloner has created the planned trips)
    eng.fact(later >= eng.births)
    eng.births = later
    self.attrs["_mapper"] = a_mapper(eng)
    return [self], {}, {"self": self}


c.arrange(arrange)
c.pre("every trip of the route is picked up and delivered once, in that order")(engine_level(lambda eng, self: complete(eng, shape(eng, self))))
c.pre("it begins between trips, with new planned trips at hand")(engine_level(lambda eng, self: mk_and([g for _, g in starting_point(eng, self)])))


@c.check("the copy is like the route and independent of it")
def _(eng, b, result):
    route, self = eng.deref(result), b["self"]
    eng.oblige(BIRTH(route.e) > 0, "the route is new")
    eng.oblige(eng.getattr(route, "vehicle").e == eng.getattr(self.attrs["route"], "vehicle").e, "the vehicle is shared")
    c = Copy(eng, self, eng.getattr(route, "stops"))
    for label, g in c.so_far(c.s.n):
        eng.oblige(g, label)


# ---------------------------------------------------------------------------------------------------- deep copies

DC = z3.Function("deep copy of", Ref, Ref)
OF = z3.Function("copied from", Ref, Ref)
GRAPH = (Stop, PlannedTrip)


def shares(eng, cls):
    """The class says itself how it is copied: by giving the object itself."""
    f = getattr(cls, "__deepcopy__", None)
    if f is None:
        return False
    x = SRef(eng.fresh_const(Ref, "shared"), cls)
    r = eng.deref(eng.call(eng.find_method(x, "__deepcopy__"), [EObj(object, {})], {}))
    if not isinstance(r, SRef) or not r.e.eq(x.e):
        raise Unsupported(f"{cls.__name__} is not shared")
    return True


def deeply(eng, args, kwargs, node):
    """``copy.deepcopy`` of the library: objects without a ``__deepcopy__`` of their own are copied field by field, once."""
    what = eng.deref(args[0])
    if isinstance(what, SRef):
        f = eng.find_method(what, "__deepcopy__")
        if f is None:
            raise Unsupported("deepcopy of one object")
        return eng.call(f, [args[1]], {}, node)
    if len(args) != 2 or not isinstance(what, SSeq) or eng.binders or eng.ctx.parent is not None:
        raise Unsupported("deepcopy")
    eng.assumptions.add("C08: copy.deepcopy copies objects without __deepcopy__ field by field, each once, keeping what refers to what (library contract)")
    for cls in GRAPH:
        for name in ("__deepcopy__", "__reduce__", "__reduce_ex__", "__getstate__", "__setstate__", "__copy__", "__new__"):
            if getattr(cls, name, None) is not getattr(object, name, None):
                raise Unsupported(f"{cls.__name__}.{name}")
    before = eng.births
    x, y = z3.Consts("x!dc y!dc", Ref)
    later = eng.fresh_const(z3.IntSort(), "births")
    eng.fact(later >= before)
    eng.births = later
    eng.fact(z3.ForAll([x], z3.Implies(z3.And(x != NULL, BIRTH(x) <= before), z3.And(
        DC(x) != NULL, BIRTH(DC(x)) > before, BIRTH(DC(x)) <= later, OF(DC(x)) == x)), patterns=[DC(x)]))
    eng.fact(DC(NULL) == NULL)
    for cls in GRAPH:
        for field, kind in eng.schema.fields[cls.__name__].items():
            base = kind.split(":")[-1]
            copied = base in [c.__name__ for c in GRAPH]
            if kind.startswith("ref") or kind.startswith("set:ref"):
                if not copied and not shares(eng, eng.schema.classes[base]):
                    raise Unsupported(f"a field of class {base}")
            elif kind not in ("opt:num", "num", "str"):
                raise Unsupported(f"a field of kind {kind}")
            for suffix, sort in eng.field_parts(cls.__name__, field):
                key = (cls.__name__, field + suffix)
                old = eng.heap_array(key, sort)
                if not z3.is_const(old):
                    named = eng.fresh_param(old.sort(), "before." + ".".join(key))
                    eng.fact(z3.ForAll([x], z3.Select(named, x) == z3.Select(old, x), patterns=[z3.Select(named, x)]))
                    old = named
                new = eng.fresh_param(old.sort(), "copied." + ".".join(key))
                exists = z3.And(x != NULL, BIRTH(x) <= before)
                eng.fact(z3.ForAll([x], z3.Implies(BIRTH(x) <= before, z3.Select(new, x) == z3.Select(old, x)), patterns=[z3.Select(new, x)]))
                there, here = z3.Select(new, DC(x)), z3.Select(old, x)
                if not copied or not kind.startswith(("ref", "set")):
                    eng.fact(z3.ForAll([x], z3.Implies(exists, there == here), patterns=[there]))
                elif kind.startswith("ref"):
                    eng.fact(z3.ForAll([x], z3.Implies(exists, there == DC(here)), patterns=[there]))
                else:
                    eng.fact(z3.ForAll([x, y], z3.Implies(z3.And(exists, z3.Select(here, y)), y != NULL), patterns=[z3.Select(here, y)]))
                    eng.fact(z3.ForAll([x, y], z3.Implies(z3.And(exists, z3.Select(here, y)), z3.Select(there, DC(y))), patterns=[z3.Select(here, y)]))
                    eng.fact(z3.ForAll([x, y], z3.Implies(z3.And(exists, z3.Select(there, y)), z3.And(z3.Select(here, OF(y)), y == DC(OF(y)))), patterns=[z3.Select(there, y)]))
                eng.heap[key] = new
                eng.ages.append((new, later, True))
            if kind.startswith(("set:", "list:")):
                eng.generation[(cls.__name__, field)] = eng.generation.get((cls.__name__, field), 0) + 1
    eng.heap_version += 1000003 + next(eng.counter)
    return LocalList(pieces_of(eng.to_iter(SSeq(what.length, lambda i: SRef(DC(what.get(i).e), Stop)))))


class Memo(Facade):
    """The memo of a deep copy."""

    __slots__ = ()

    def vc_setitem(self, eng, k, v, node):
        pass


c = R.add("jinete.models.routes:Route.__deepcopy__", props=["C08"], opaque=False, views={"copy:deepcopy": deeply},
          params={"self": "ref:Route", "memo": lambda eng: Memo("the memo", {})})


@c.check("every stop and planned trip is new, like the one of the route, and refers to the new ones")
def _(eng, b, result):
    route, new = b["self"], eng.deref(result)
    eng.oblige(BIRTH(new.e) > 0, "the route is new")
    eng.oblige(eng.getattr(new, "vehicle").e == eng.getattr(route, "vehicle").e, "the vehicle is shared")
    s, t = Shape(eng, eng.to_seq(eng.getattr(route, "stops"))), Shape(eng, eng.to_seq(eng.getattr(new, "stops")))
    eng.oblige(s.n == t.n, "as many stops")
    f, g = (lambda r, n: s.field(r, Stop, n)), (lambda r, n: s.field(r, PlannedTrip, n).e)
    old, cop, d = s.at(k_), t.at(k_), lambda x: z3.If(x == NULL, NULL, DC(x))
    each = lambda g, vs=(): z3.ForAll([k_, *vs], z3.Implies(s.inside(k_), g))
    start, start0 = f(cop, "_starting_time"), f(old, "_starting_time")
    eng.oblige(each(z3.And(BIRTH(cop) > 0, cop == DC(old))), "the stops are new")
    eng.oblige(z3.ForAll([k_, l_], z3.Implies(z3.And(s.inside(k_), s.inside(l_), cop == t.at(l_)), old == s.at(l_))), "different for different stops")
    eng.oblige(each(z3.And(f(cop, "vehicle").e == f(old, "vehicle").e, f(cop, "position").e == f(old, "position").e)), "of the same vehicle, at the same places")
    eng.oblige(each(z3.And(start.isnone == start0.isnone, z3.Implies(z3.Not(start0.isnone), eng.znum(start.val) == eng.znum(start0.val)))), "with the same planned start")
    eng.oblige(each(f(cop, "previous").e == d(f(old, "previous").e)), "coming after the copied ones")
    for name in ("pickup_planned_trips", "delivery_planned_trips"):
        has, had = (lambda p: f(cop, name).mem(p)), (lambda p: f(old, name).mem(p))
        eng.oblige(each(z3.Implies(had(p_), has(DC(p_))), [p_]), f"with {name}")
        eng.oblige(each(z3.Implies(had(p_), BIRTH(DC(p_)) > 0), [p_]), f"that are new ({name})")
        eng.oblige(each(z3.Implies(has(q_), z3.Exists([p_], z3.And(had(p_), q_ == DC(p_)))), [q_]), f"and no other {name}")
        eng.oblige(each(z3.Implies(had(p_), z3.And(
            g(DC(p_), "trip") == g(p_, "trip"), g(DC(p_), "vehicle") == g(p_, "vehicle"),
            g(DC(p_), "pickup") == d(g(p_, "pickup")), g(DC(p_), "delivery") == d(g(p_, "delivery")))), [p_]), f"for the same trips, at the copied stops ({name})")


def routes_copied(eng, args, kwargs, node):
    """``deepcopy`` of a set of routes: of each its deep copy (see above)."""
    s = eng.as_set(args[0])
    if len(args) != 2 or s is None or s.elem != "ref:Route":
        raise Unsupported("deepcopy")
    x = z3.Const(f"route!{next(eng.counter)}", Ref)
    eng.births = eng.births + 1
    eng.fact(z3.ForAll([x], z3.Implies(s.mem(x), z3.And(DC(x) != NULL, BIRTH(DC(x)) > 0, OF(DC(x)) == x)), patterns=[DC(x)]))
    return SSet(lambda y: z3.And(s.mem(OF(y)), y == DC(OF(y))), "ref:Route")


c = R.add("jinete.models.plannings:Planning.__deepcopy__", props=["C08"], opaque=False, views={"copy:deepcopy": routes_copied},
          params={"self": "ref:Planning", "memo": lambda eng: Memo("the memo", {})})


@c.check("a new plan of the copied routes")
def _(eng, b, result):
    new, r = eng.deref(result), z3.Const("r!pl", Ref)
    old, now = eng.as_set(eng.getattr(b["self"], "routes")), eng.as_set(eng.getattr(new, "routes"))
    eng.oblige(BIRTH(new.e) > 0, "the plan is new")
    eng.oblige(z3.ForAll([r], z3.Implies(old.mem(r), now.mem(DC(r)))), "with a copy of every route")
    eng.oblige(z3.ForAll([r], z3.Implies(now.mem(r), z3.And(BIRTH(r) > 0, old.mem(OF(r)), r == DC(OF(r))))), "and no other route")


# ------------------------------------------------------------------------------------- copies report the same values


def like(stop, copy):
    """What is shown above of each copied stop, for its first or after an equal one."""
    a, b = stop.previous, copy.previous
    return (
        copy.vehicle is stop.vehicle
        and copy.position is stop.position
        and (stop._starting_time is None) == (copy._starting_time is None)
        and (stop._starting_time is None or stop._starting_time == copy._starting_time)
        and (a is None) == (b is None)
        and (a is None or (a.departure_time == b.departure_time and a.capacity == b.capacity and a.position is b.position))
    )


def same_requests(stop, copy):
    return (
        all(any(q.trip is p.trip for q in copy.pickup_planned_trips) for p in stop.pickup_planned_trips)
        and all(any(q.trip is p.trip for p in stop.pickup_planned_trips) for q in copy.pickup_planned_trips)
        and all(any(q.trip is p.trip for q in copy.delivery_planned_trips) for p in stop.delivery_planned_trips)
        and all(any(q.trip is p.trip for p in stop.delivery_planned_trips) for q in copy.delivery_planned_trips)
    )


def same_loads(stop, copy):
    return (
        sum(p.trip.capacity for p in stop.pickup_planned_trips) == sum(p.trip.capacity for p in copy.pickup_planned_trips)
        and sum(p.trip.capacity for p in stop.delivery_planned_trips) == sum(p.trip.capacity for p in copy.delivery_planned_trips)
    )


def same_times(stop, copy):
    return copy.earliest == stop.earliest and copy.latest == stop.latest and copy.starting_time == stop.starting_time


def same_before(stop, copy):
    return copy.vehicle is stop.vehicle and copy.previous_capacity == stop.previous_capacity


@R.lemma("a copied stop has the times of the stop", ["C08"], assumes=[like, same_requests], stop="ref:Stop", copy="ref:Stop")
def _(stop, copy):
    return (
        copy.arrival_time == stop.arrival_time
        and copy.earliest == stop.earliest
        and copy.latest == stop.latest
        and copy.starting_time == stop.starting_time
        and copy.load_time == stop.load_time
        and copy.departure_time == stop.departure_time
        and copy.distance == stop.distance
        and copy.transit_time == stop.transit_time
    )


@R.lemma("a copied stop has the load and verdict of the stop", ["C08"], assumes=[same_before, same_times, same_loads], stop="ref:Stop", copy="ref:Stop")
def _(stop, copy):
    return copy.capacity == stop.capacity and copy.feasible == stop.feasible
