"""C09: insertion candidates are the route plus the new trip, and feasible."""
import z3

from jinete.algorithms.heuristics.insertion.strategies.abc import InsertionStrategy
from jinete.algorithms.heuristics.insertion.strategies.intensive import IntensiveInsertionStrategy
from jinete.algorithms.heuristics.insertion.strategies.sampling import SamplingInsertionStrategy
from jinete.algorithms.heuristics.insertion.strategies.tail import TailInsertionStrategy
from jinete.models.planned_trips import PlannedTrip
from jinete.models.routes import Route, RouteCloner
from jinete.models.stops import Stop
from jinete.models.trips import Trip
from pyvc.builtins_model import SomeRandom, pieces_of
from pyvc.engine import BIRTH
from pyvc.loops import Invariant
from pyvc.spec import R, each, engine_level
from pyvc.values import NULL, Bnd, Branch, Builtin, EObj, LocalList, Ref, SBool, SIter, SNum, SRef, SSeq, Unsupported, mk_and, mk_not, mk_or

from .c06_edits import linked
from .c08_copies import DE, Copy, Shape, a_mapper, complete, k_, mapped, p_, q_, shape, starting_point

M = "jinete.algorithms.heuristics.insertion.strategies."
ABC = M + "abc:InsertionStrategy."
TRUE = z3.BoolVal(True)

# ------------------------------------------------------------------------------------------------------ the two stops

c = R.add(ABC + "_build_pickup", props=["C09"], opaque=False, params=dict(route="ref:Route", trip="ref:Trip", previous_idx="int"))
c.pre("a place of the route")(lambda route, previous_idx: 0 <= previous_idx and previous_idx < len(route.stops))


@c.post("an empty stop at the origin of the trip, after the place asked for")
def _(route, trip, previous_idx, result):
    return (
        result.vehicle is route.vehicle
        and result.position is trip.origin.position
        and result.previous is route.stops[previous_idx]
        and not any(result.pickup_planned_trips)
        and not any(result.delivery_planned_trips)
        and result._starting_time is None
    )


c = R.add(ABC + "_build_delivery", props=["C09"], opaque=False,
          params=dict(route="ref:Route", trip="ref:Trip", previous_idx="int", following_idx="int", pickup="ref:Stop"))


@c.pre("places of the route")
def _(route, previous_idx, following_idx):
    return 0 <= previous_idx and previous_idx < following_idx and following_idx <= len(route.stops)


@c.post("an empty stop at the destination of the trip, before the following place")
def _(route, trip, previous_idx, following_idx, pickup, result):
    return (
        result.vehicle is route.vehicle
        and result.position is trip.destination.position
        and result.previous is (pickup if following_idx == previous_idx + 1 else route.stops[following_idx - 1])
        and not any(result.pickup_planned_trips)
        and not any(result.delivery_planned_trips)
        and result._starting_time is None
    )


# ---------------------------------------------------------------------------------------------- repairing ride times


@each
def from_there(each, route, idx):
    return any(each is route.stops[k] for k in range(0 if idx <= 0 else idx, len(route.stops)))


def some_number(eng, args, kwargs, node):
    return eng.fresh("num", "some")


def some_verdict(eng, args, kwargs, node):
    return SBool(eng.fresh_const(z3.BoolSort(), "some"))


SOME = {
    "jinete.models.routes:Route.feasible": some_verdict,
    "jinete.models.planned_trips:PlannedTrip.duration": some_number,
    "jinete.models.stops:Stop.waiting_time": some_number,
    "jinete.models.stops:Stop.starting_time": some_number,
}

c = R.add(ABC + "_improve_ride_times", props=["C09"], views=SOME, params=dict(self=lambda eng: EObj(InsertionStrategy, {"only_feasible": True}), route="ref:Route", idx="int"),
          modifies=[("Stop._starting_time", from_there)], result="none",
          loops={0: Invariant({}, [], heap=[("Stop._starting_time", from_there)])})
c.pre("the route has stops")(lambda route, idx: len(route.stops) >= 2 and 0 <= idx)


# ---------------------------------------------------------------------------------------------------- one candidate


def begin(eng, args, kwargs, node):
    """``RouteCloner._initialize``, by its C08 contract."""
    self = eng.deref(args[0])
    eng.oblige(complete(eng, shape(eng, self)), "the route to copy is complete", node)
    later = eng.fresh_const(z3.IntSort(), "births")
    eng.fact(later >= eng.births)
    eng.births = later
    self.attrs["_idx"], self.attrs["_mapper"] = eng.fresh("int", "idx"), a_mapper(eng)
    for name, g in starting_point(eng, self):
        if name != "the copies are new and stand for the same trips":      # (they get stops when the route is copied)
            eng.fact(g)


def copied(eng, args, kwargs, node):
    """``RouteCloner.clone``, by its C08 contract: the new objects are taken from those that already are what it promises."""
    self = eng.deref(args[0])
    if self.attrs["_idx"] is None:
        begin(eng, [self], {}, node)
    later = eng.fresh_const(z3.IntSort(), "births")
    eng.fact(later >= eng.births)
    eng.births = later
    route = SRef(eng.newborn("copy"), Route)
    stops = eng.fresh("list:ref:Stop", "copied")
    eng.write_field(route, "vehicle", eng.getattr(self.attrs["route"], "vehicle"))
    eng.write_field(route, "stops", stops)
    c = Copy(eng, self, stops)
    for _, g in c.so_far(c.s.n):
        eng.fact(g)
    eng.ghosts["copies"] = getattr(eng.ghosts.get("copies"), "attrs", eng.ghosts.get("copies")) or []
    eng.ghosts["copies"].append((self, c))
    return route


CLONER = {"jinete.models.routes:RouteCloner._initialize": begin, "jinete.models.routes:RouteCloner.clone": copied}

c = R.add(ABC + "_compute_one", props=["C09"], opaque=False, assert_mode="check", views=CLONER, modifies=[],
          params=dict(self=lambda eng: EObj(InsertionStrategy, {"only_feasible": True}), route="ref:Route", trip="ref:Trip", previous_idx="int", following_idx="int"))
c.pre("the route is well linked")(lambda route: linked(route))
c.pre("places of the route")(lambda route, previous_idx, following_idx: 0 <= previous_idx and previous_idx < following_idx and following_idx < len(route.stops))
c.pre("every trip of the route is picked up and delivered once, in that order")(
    engine_level(lambda eng, route: complete(eng, Shape(eng, eng.to_seq(eng.getattr(route, "stops"))))))


@c.check("the route with the trip")
def _(eng, b, result):
    if len(eng.ghosts.get("copies") or []) != 1:
        raise Unsupported("not one copy of the route")
    (self, copy), = eng.ghosts["copies"]
    i, j, new, trip = eng.znum(b["previous_idx"]), eng.znum(b["following_idx"]), eng.deref(result), b["trip"]
    eng.oblige(BIRTH(new.e) > 0, "a new route")
    eng.oblige(eng.getattr(new, "vehicle").e == eng.getattr(b["route"], "vehicle").e, "of the same vehicle")
    t = Shape(eng, eng.to_seq(eng.getattr(new, "stops")))
    s = Shape(eng, eng.to_seq(eng.getattr(b["route"], "stops")))
    place = lambda k: z3.If(k <= i, k, z3.If(k < j, k + 1, k + 2))
    eng.oblige(t.n == s.n + 2, "two more stops")
    eng.oblige(z3.ForAll([k_], z3.Implies(s.inside(k_), t.at(place(k_)) == copy.at(k_))), "the others are copies of the stops, in order")
    f = lambda ref, name: s.field(ref, Stop, name)
    each = lambda g, vs=(): z3.ForAll([k_, *vs], z3.Implies(s.inside(k_), g))
    eng.oblige(each(z3.And(f(copy.at(k_), "vehicle").e == f(s.at(k_), "vehicle").e, f(copy.at(k_), "position").e == f(s.at(k_), "position").e)), "of the same vehicle, at the same places")
    M = lambda p: z3.If(DE(p) < copy.idx, p, mapped(eng, copy.m, p))
    g = lambda p, name: s.field(p, PlannedTrip, name).e
    for name in ("pickup_planned_trips", "delivery_planned_trips"):
        has, had = (lambda p: f(copy.at(k_), name).mem(p)), (lambda p: f(s.at(k_), name).mem(p))
        M = lambda p: z3.If(k_ < copy.idx, p, mapped(eng, copy.m, p))
        eng.oblige(each(z3.Implies(had(p_), z3.And(has(M(p_)), g(M(p_), "trip") == g(p_, "trip"))), [p_]), f"they keep their trips ({name})")
        eng.oblige(each(z3.Implies(has(q_), z3.Exists([p_], z3.And(had(p_), q_ == M(p_)))), [q_]), f"and get no other trip ({name})")
    for what, k, here, there, where in (("pickup", i + 1, "pickup_planned_trips", "delivery_planned_trips", "origin_position"),
                                        ("delivery", j + 1, "delivery_planned_trips", "pickup_planned_trips", "destination_position")):
        stop = t.at(k)
        eng.oblige(BIRTH(stop) > 0, f"a new stop for the {what}")
        eng.oblige(z3.ForAll([p_], z3.Not(f(stop, there).mem(p_))), f"for nothing but the {what}")
        eng.oblige(z3.Exists([q_], z3.And(f(stop, here).mem(q_), g(q_, "trip") == trip.e, g(q_, what) == stop)), f"the {what} of the trip")
        eng.oblige(z3.ForAll([p_], z3.Implies(f(stop, here).mem(p_), g(p_, "trip") == trip.e)), f"the {what} of no other trip")
        eng.oblige(f(stop, "position").e == eng.getattr(trip, where).e, f"at the place of the {what}")
        eng.oblige(f(stop, "vehicle").e == eng.getattr(b["route"], "vehicle").e, f"the {what} by the same vehicle")
    eng.oblige(eng.spec_bool(linked, dict(route=new)), "the candidate is well linked")


# ------------------------------------------------------------------------------------- candidates at a pair of places

CAND = z3.Function("candidate", Ref, Ref, z3.IntSort(), z3.IntSort(), Ref)
FEAS = z3.Function("feasible candidate", Ref, z3.BoolSort())
x_, t_ = z3.Consts("x!cd t!cd", Ref)
i_, j_ = z3.Ints("i!cd j!cd")


def the_candidate(eng, args, kwargs, node):
    """``_compute_one``: some route of the trip at the places (see above)."""
    self, route, trip, i, j = args[:5]
    e = CAND(eng.deref(route).e, eng.deref(trip).e, eng.znum(i), eng.znum(j))
    eng.fact(e != NULL) if not eng.binders else None
    return SRef(e, Route)


def its_verdict(eng, args, kwargs, node):
    return SBool(FEAS(eng.deref(args[0]).e))


VIEW = {ABC + "_compute_one": the_candidate, "jinete.models.routes:Route.feasible": its_verdict}


def a_strategy(cls):
    def make(eng):
        attrs = {"only_feasible": eng.fresh("bool", "only_feasible")}
        if cls is SamplingInsertionStrategy:
            attrs["random"] = SomeRandom()
        return EObj(cls, attrs)

    return make


def members(eng, v):
    """x -> the formula that x is one of the routes."""
    it = eng.to_iter(v)
    return lambda x: mk_or([z3.Exists(b.consts, z3.And(b.cond, b.value.e == x)) if b.consts else z3.And(b.cond, b.value.e == x) for b in it.branches])


for variant, kind in (("one trip", "ref:Trip"), ("several trips", "list:ref:Trip")):
    c = R.add(ABC + "compute", props=["C09"], opaque=False, variant=variant, views=VIEW,
              params=dict(self=a_strategy(InsertionStrategy), route="ref:Route", trips=kind, previous_idx="int", following_idx="int", only_feasible="opt:bool"))
    c.pre("two places, in order")(lambda previous_idx, following_idx: previous_idx < following_idx)

    @c.check("one candidate for each trip, where feasible or where infeasible ones were asked for")
    def _(eng, b, result, kind=kind):
        of = eng.deref(b["trips"])
        trip = (lambda t: t == of.e) if kind.startswith("ref") else (lambda t: z3.Exists([k_], z3.And(0 <= k_, k_ < of.length, of.get(k_).e == t)))
        asked = b["only_feasible"]
        only = z3.If(asked.isnone, eng.zbool(b["self"].attrs["only_feasible"]), eng.zbool(asked.val))
        one = lambda t: CAND(b["route"].e, t, eng.znum(b["previous_idx"]), eng.znum(b["following_idx"]))
        given = members(eng, result)
        wanted = lambda x: z3.And(z3.Implies(only, FEAS(x)))
        eng.oblige(z3.ForAll([t_], z3.Implies(z3.And(trip(t_), wanted(one(t_))), given(one(t_)))), "every wanted candidate is there")
        eng.oblige(z3.ForAll([x_], z3.Implies(given(x_), z3.And(wanted(x_), z3.Exists([t_], z3.And(trip(t_), x_ == one(t_)))))), "nothing else is there")


# ------------------------------------------------------------------------------------------------- which places to try

MANY = z3.Function("candidates at", z3.IntSort(), z3.IntSort(), z3.IntSort())
NTH = z3.Function("candidate at", z3.IntSort(), z3.IntSort(), z3.IntSort(), Ref)


def at_places(eng, args, kwargs, node):
    """``InsertionStrategy.compute`` for one pair of places (see above): some routes."""
    self, route, trips, i, j = (eng.deref(x) for x in args[:5])
    given = eng.ghosts["given"].attrs
    eng.oblige(z3.BoolVal(self is given["self"] and route is given["route"]), "for the route given", node)
    if isinstance(given["trips"], SRef):
        eng.oblige(z3.BoolVal(isinstance(trips, SRef) and trips.e.eq(given["trips"].e)), "for the trip given", node)
    else:
        a, b = eng.to_seq(trips), given["trips"]
        eng.oblige(z3.And(a.length == b.length, z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < b.length), a.get(k_).e == b.get(k_).e))), "for the trips given", node)
    asked = args[5] if len(args) > 5 else kwargs.get("only_feasible")
    eng.oblige(z3.BoolVal(asked is given["only_feasible"] or same_flag(eng, asked, given["only_feasible"])), "feasible or not, as asked for", node)
    i, j = eng.znum(i), eng.znum(j)
    eng.fact(z3.ForAll([i_, j_], MANY(i_, j_) >= 0, patterns=[MANY(i_, j_)])) if not eng.binders else None
    return SSeq(MANY(i, j), lambda k: SRef(NTH(i, j, k), Route), "list")


def same_flag(eng, a, b):
    return isinstance(a, SBool) and isinstance(b, SBool) and a.e.eq(b.e)


def some_pairs(eng, args, kwargs, node):
    """``sample_index_pairs``, by its C20 contract."""
    n, count = eng.znum(args[0]), eng.znum(args[1] if len(args) > 1 else kwargs["count"])
    eng.oblige(z3.And(n >= 0, count >= 0), "sizes are not negative", node)
    m = eng.fresh_const(z3.IntSort(), "pairs")
    a, b = (z3.Function(f"{w} place!{next(eng.counter)}", z3.IntSort(), z3.IntSort()) for w in ("first", "second"))
    inside = lambda k: z3.And(0 <= k, k < m)
    ok = lambda i, j: z3.And(0 <= i, i < j, j < n)
    few = n * (n - 1) <= 2 * count
    eng.fact(m >= 0)
    eng.fact(z3.ForAll([k_], z3.Implies(inside(k_), ok(a(k_), b(k_)))))
    eng.fact(z3.ForAll([k_, i_], z3.Implies(z3.And(inside(k_), inside(i_), a(k_) == a(i_), b(k_) == b(i_)), k_ == i_)))
    eng.fact(z3.Implies(few, z3.ForAll([i_, j_], z3.Implies(ok(i_, j_), z3.Exists([k_], z3.And(inside(k_), a(k_) == i_, b(k_) == j_))))))
    eng.fact(z3.Implies(z3.Not(few), m == count))
    eng.ghosts["sample"] = EObj(object, {"of": (n, count, m, a, b)})
    return SSeq(m, lambda k: (SNum(a(k)), SNum(b(k))), "list")


PLACES = {ABC + "compute": at_places, "jinete.utils.random:sample_index_pairs": some_pairs}


def tried(eng, b, result, pair, exists=None):
    """The routes are those of the pairs of places that satisfy ``pair``."""
    given = members(eng, result)
    inside = z3.And(0 <= k_, k_ < MANY(i_, j_))
    eng.oblige(z3.ForAll([i_, j_, k_], z3.Implies(z3.And(pair(i_, j_), inside), given(NTH(i_, j_, k_)))), "all candidates of those places")
    eng.oblige(z3.ForAll([x_], z3.Implies(given(x_), z3.Exists([i_, j_, k_], z3.And(pair(i_, j_), inside, x_ == NTH(i_, j_, k_))))), "and of no others")


def strategy_calls(cls, **more):
    def make(eng):
        kind = more["kind"]
        self, route, trips = a_strategy(cls)(eng), eng.fresh("ref:Route", "route"), eng.fresh(kind, "trips")
        asked = eng.fresh("bool", "only_feasible") if more["asked"] else None
        kwargs = dict(only_feasible=asked) if more["asked"] else {}
        binding = dict(self=self, route=route, trips=trips, given=EObj(object, dict(self=self, route=route, trips=trips, only_feasible=asked)))
        if cls is SamplingInsertionStrategy:
            kwargs["count"] = binding["count"] = eng.fresh("int", "count")
        return [self, route, trips], kwargs, binding

    return make


for cls, where in ((TailInsertionStrategy, "tail"), (IntensiveInsertionStrategy, "intensive"), (SamplingInsertionStrategy, "sampling")):
    for kind in ("ref:Trip", "list:ref:Trip"):
        for asked in (False, True):
            c = R.add(f"{M}{where}:{cls.__name__}.compute", props=["C09"], opaque=False, views=PLACES,
                      variant=f"{'one trip' if kind == 'ref:Trip' else 'several trips'}{', infeasible or not' if asked else ''}")
            c.arrange(strategy_calls(cls, kind=kind, asked=asked))
            c.pre("the route has stops")(lambda route: len(route.stops) >= 2)
            if where == "sampling":
                c.pre("the size is not negative")(lambda count: count >= 0)

            @c.check("exactly the places of the strategy")
            def _(eng, b, result, where=where):
                n = eng.to_seq(eng.getattr(b["route"], "stops")).length
                if where == "tail":
                    return tried(eng, b, result, lambda i, j: z3.And(i == n - 2, j == n - 1))
                if where == "intensive":
                    return tried(eng, b, result, lambda i, j: z3.And(0 <= i, i < j, j < n))
                size, count, m, first, second = eng.ghosts["sample"].attrs["of"]
                eng.oblige(size == n, "a sample of the places of the route")
                eng.oblige(count == b["count"].e, "of the size asked for")
                l = z3.Int("l!cd")
                tried(eng, b, result, lambda i, j: z3.Exists([l], z3.And(0 <= l, l < m, first(l) == i, second(l) == j)))
