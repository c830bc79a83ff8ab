"""C11: local search never loses, duplicates or worsens anything."""
import z3

from jinete.algorithms.heuristics.local_search.strategies.abc import LocalSearchStrategy
from jinete.algorithms.heuristics.local_search.strategies.plannings.reallocation import ReallocationLocalSearchStrategy
from jinete.models.plannings import Planning
from jinete.models.results import Result
from jinete.models.routes import Route
from jinete.models.trips import Trip
from pyvc import engine as E
from pyvc.builtins_model import pieces_of
from pyvc.engine import BIRTH
from pyvc.loops import Invariant
from pyvc.spec import R, each, engine_level
from pyvc.values import NULL, Bnd, Branch, Builtin, EObj, LocalList, LocalSet, Ref, SBool, SIter, SNum, SRef, SSeq, SSet, Unsupported, mk_and, mk_not, mk_or
from pyvc.world import Facade, method

from .c09_candidates import some_pairs

M = "jinete.algorithms.heuristics.local_search.strategies."
ABC = M + "abc:LocalSearchStrategy."
ROUTES = "jinete.models.routes:Route."
TRUE = z3.BoolVal(True)
r_, s_, t_, a_, b_, x_, y_ = z3.Consts("r!ls s!ls t!ls a!ls b!ls x!ls y!ls", Ref)

# ---------------------------------------------------------------------------------------------------- the new plan


def a_search(cls):
    def make(eng):
        result = EObj(Result, {"planning": eng.fresh("ref:Planning", "planning"), "computation_time": eng.fresh("num", "seconds"), "algorithm": None})
        return EObj(cls, {"result": result})

    return make


def the_plan(self):
    return self.result.planning


c = R.add(ABC + "_update_routes", props=["C11"], opaque=False, params=dict(self=a_search(LocalSearchStrategy), overwritten_routes="set:ref:Route"),
          modifies=[("Planning.routes", the_plan)])


@c.post("the given routes take the place of those of their vehicles, the others stay")
def _(self, overwritten_routes, old):
    before = old(lambda: self.result.planning.routes)
    after = self.result.planning.routes
    return (
        all(r in after for r in overwritten_routes)
        and all(r in after for r in before if all(r.vehicle is not o.vehicle for o in overwritten_routes))
        and all(r in overwritten_routes or (r in before and all(r.vehicle is not o.vehicle for o in overwritten_routes)) for r in after)
    )


# ------------------------------------------------------------------------------------------------- improving a result


def copy_of(eng, args, kwargs, node):
    """``copy.deepcopy`` of a result."""
    if "copied" in eng.ghosts:
        raise Unsupported("several copies")
    eng.ghosts["copied"] = EObj(object, {"of": eng.deref(args[0]), "is": EObj(Result, {"copy": True})})
    return eng.ghosts["copied"].attrs["is"]


for with_copy, how in ((None, "by default"), (True, "with a copy"), (False, "in place")):
    c = R.add(ABC + "__init__", props=["C11"], opaque=False, variant=how, views={"copy:deepcopy": copy_of})

    def arrange(eng, with_copy=with_copy):
        self, result = EObj(LocalSearchStrategy, {}), EObj(Result, {"planning": eng.fresh("ref:Planning", "planning")})
        return [self, result] + ([] if with_copy is None else [with_copy]), {}, {"self": self, "given": result}

    c.arrange(arrange)

    @c.check("the result that is improved")
    def _(eng, b, result, with_copy=with_copy):
        given, mine, copied = b["given"], b["self"].attrs["result"], getattr(eng.ghosts.get("copied"), "attrs", None)
        if with_copy is False:
            eng.oblige(z3.BoolVal(mine is given), "the given one")
        else:
            eng.oblige(z3.BoolVal(copied is not None and copied["of"] is given and mine is copied["is"]), "a deep copy of the given one")


# --------------------------------------------------------------------------------------------------- moving a trip


def field(eng, r, name):
    return eng.read_field(SRef(r, Route), Route, name)


def serves(eng, r, t):
    return field(eng, r, "vc trips").mem(t)


def value(eng, r):
    return eng.znum(field(eng, r, "vc value"))


def ok(eng, r):
    return eng.zbool(field(eng, r, "vc ok"))


def vehicle(eng, r):
    return field(eng, r, "vehicle").e


FROM = z3.Function("made from", Ref, Ref)


def new_route(eng, args, kwargs, node):
    """``Route.clone``, by its C08 contract: a new route of the same vehicle with the same trips."""
    old = eng.deref(args[0])
    new = SRef(eng.newborn("clone"), Route)
    eng.fact(z3.And(FROM(new.e) == old.e, vehicle(eng, new.e) == vehicle(eng, old.e), z3.ForAll([t_], serves(eng, new.e, t_) == serves(eng, old.e, t_))))
    return new


def without_trip(eng, args, kwargs, node):
    """``Route.remove_trip``, by its C07 contract: the stops of the trip are gone, nothing else."""
    route, trip = eng.deref(args[0]), eng.deref(args[1])
    eng.oblige(serves(eng, route.e, trip.e), "the route serves the trip", node)
    old = dict(eng.heap)
    had = field(eng, route.e, "vc trips")
    eng.havoc_fields({("Route", "vc trips"): [route.e], ("Route", "vc value"): [route.e], ("Route", "vc ok"): [route.e], ("Route", "stops"): [route.e]})
    eng.fact(z3.ForAll([t_], serves(eng, route.e, t_) == z3.And(had.mem(t_), t_ != trip.e)))


def its_trips(eng, args, kwargs, node):
    t = z3.Const(f"trip!{next(eng.counter)}", Ref)
    return SIter([Branch([Bnd(t, serves(eng, eng.deref(args[0]).e, t), False)], TRUE, SRef(t, Trip))])


def candidates(eng, args, kwargs, node):
    """``InsertionStrategy.compute``, by its C09 contract."""
    self, route, trip, i, j = (eng.deref(x) for x in args[:5])
    if kwargs or len(args) != 5 or not isinstance(trip, SRef):
        raise Unsupported("candidates of another kind")
    i, j = eng.znum(i), eng.znum(j)
    stops = eng.to_seq(eng.getattr(route, "stops"))
    eng.oblige(z3.And(0 <= i, i < j, j < stops.length), "two places of the route, in order", node)
    only = eng.zbool(eng.getattr(self, "only_feasible"))
    before = eng.births
    later = eng.fresh_const(z3.IntSort(), "births")
    eng.fact(later >= before)
    eng.births = later
    out = eng.fresh("list:ref:Route", "candidates")
    k = z3.Int(f"k!{next(eng.counter)}")
    c = out.get(k).e
    eng.fact(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < out.length), z3.And(
        BIRTH(c) > before, FROM(c) == route.e, vehicle(eng, c) == vehicle(eng, route.e), z3.Implies(only, ok(eng, c))))))
    eng.fact(z3.ForAll([k, t_], z3.Implies(z3.And(0 <= k, k < out.length), serves(eng, c, t_) == z3.Or(serves(eng, route.e, t_), t_ == trip.e))))
    return out


BASE = z3.Real("value of the plan")


def its_value(eng, args, kwargs, node):
    """The value of a route, or of a plan: vectors, of which the last number is the sum over the routes (C12)."""
    v = eng.deref(args[0])
    first = [eng.fresh("num", "value") for _ in range(1)]
    if isinstance(v, SRef) and v.cls is Route:
        return (*first, field(eng, v.e, "vc value"))
    if isinstance(v, SRef) and v.cls is Planning:
        return (*first, SNum(BASE))
    raise Unsupported("the value of something else")


def the_objective(eng, args, kwargs, node):
    return Facade("the objective", {"optimization_function": lambda e, n: Builtin("optimization_function", lambda v: its_value(e, [v], {}, n))})


VIEWS = {
    ROUTES + "clone": new_route,
    ROUTES + "remove_trip": without_trip,
    ROUTES + "flush": lambda eng, args, kwargs, node: None,
    ROUTES + "trips": its_trips,
    ROUTES + "feasible": lambda eng, args, kwargs, node: field(eng, eng.deref(args[0]).e, "vc ok"),
    "jinete.algorithms.heuristics.insertion.strategies.abc:InsertionStrategy.compute": candidates,
    "jinete.utils.random:sample_index_pairs": some_pairs,
    "jinete.models.results:Result.objective": the_objective,
}


def plan_routes(eng, self):
    return eng.as_set(eng.getattr(eng.deref(self).attrs["result"].attrs["planning"], "routes"))


def some_exchange(eng):
    """No routes, or the two routes of some exchange."""
    a, b = (eng.fresh("ref:Route", "exchange").e for _ in range(2))
    yes = eng.fresh_const(z3.BoolSort(), "exchanged")
    new = SSet(lambda x: z3.And(yes, z3.Or(x == a, x == b)), "ref:Route")
    eng.ghosts.setdefault("exchanges", []).append((new, yes, a, b))
    return new


some_exchange.accepts = lambda v: E.is_set_value(v)


def the_pair(eng, new):
    """(whether there is an exchange, its two routes)"""
    new = eng.deref(new)
    for v, yes, a, b in eng.ghosts.get("exchanges", ()):
        if v is new:
            return yes, a, b
    items = [x for _, x in new.items] if isinstance(new, LocalSet) and all(t == "v" for t, _ in new.items) else None
    if items is not None and not items:
        return z3.BoolVal(False), NULL, NULL
    if items is None or len(items) != 2:
        raise Unsupported("other than two routes")
    return (z3.BoolVal(True), *(eng.deref(x).e for x in items))


def exchange(eng, self, new, gain):
    """No routes, or two feasible ones in the place of the two of the plan they were made from, together with exactly their trips."""
    routes, (yes, a, b) = plan_routes(eng, self), the_pair(eng, new)
    r, s = FROM(a), FROM(b)
    S = lambda r, t: serves(eng, r, t)
    return [
        ("no gain without an exchange", z3.Implies(z3.Not(yes), gain == 0)),
        ("two routes of the plan are exchanged", z3.Implies(yes, z3.And(routes.mem(r), routes.mem(s), r != s, r != NULL, s != NULL))),
        ("for two new ones", z3.Implies(yes, z3.And(a != b, BIRTH(a) > 0, BIRTH(b) > 0))),
        ("of the same vehicles", z3.Implies(yes, z3.And(vehicle(eng, a) == vehicle(eng, r), vehicle(eng, b) == vehicle(eng, s)))),
        ("that are feasible", z3.Implies(yes, z3.And(ok(eng, a), ok(eng, b)))),
        ("serve the same trips", z3.Implies(yes, z3.ForAll([t_], z3.Or(S(a, t_), S(b, t_)) == z3.Or(S(r, t_), S(s, t_))))),
        ("once", z3.Implies(yes, z3.ForAll([t_], z3.Not(z3.And(S(a, t_), S(b, t_)))))),
        ("and are worth more", z3.Implies(yes, z3.And(gain > 0, gain == value(eng, a) + value(eng, b) - value(eng, r) - value(eng, s)))),
    ]


def kept(k):
    return engine_level(lambda eng, self, overwritten_routes, best_cost, base_cost:
                        exchange(eng, self, overwritten_routes, eng.znum(best_cost) - eng.znum(base_cost))[k][1])


def new_objects(eng, each):
    return BIRTH(each.e) > 0


new_objects = engine_level(new_objects)
new_objects.each = True

EXCHANGE = ["no gain without an exchange", "two routes of the plan are exchanged", "for two new ones", "of the same vehicles", "that are feasible",
            "serve the same trips", "once", "and are worth more"]
KEPT = [(label, kept(k)) for k, label in enumerate(EXCHANGE)]
KINDS = {"overwritten_routes": some_exchange, "best_cost": "num"}
HEAP = [(f"Route.{f}", new_objects) for f in ("vc trips", "vc value", "vc ok", "vehicle", "stops")]

c = R.add(M + "plannings.reallocation:ReallocationLocalSearchStrategy._improve", props=["C11"], opaque=False, views=VIEWS,
          modifies=[("Planning.routes", the_plan)],
          loops={k: Invariant(dict(KINDS), KEPT, heap=HEAP if k < 2 else []) for k in range(3)})


def good_plan(eng, routes):
    return [
        ("no vehicle has two routes", z3.ForAll([r_, s_], z3.Implies(z3.And(routes.mem(r_), routes.mem(s_), vehicle(eng, r_) == vehicle(eng, s_)), r_ == s_))),
        ("every route is feasible", z3.ForAll([r_], z3.Implies(routes.mem(r_), ok(eng, r_)))),
        ("no trip is served twice", z3.ForAll([r_, s_, t_], z3.Implies(z3.And(routes.mem(r_), routes.mem(s_), serves(eng, r_, t_), serves(eng, s_, t_)), r_ == s_))),
    ]


def arrange(eng):
    self = a_search(ReallocationLocalSearchStrategy)(eng)
    return [self], {}, {"self": self, "_before": EObj(object, {"routes": plan_routes(eng, self)})}


c.arrange(arrange)
c.pre("a feasible plan of one route per vehicle, without repeated trips")(engine_level(lambda eng, self: mk_and([g for _, g in good_plan(eng, plan_routes(eng, self))])))


@c.check("the plan is as good, for the same trips")
def _(eng, b, result):
    old, new = b["_before"].attrs["routes"], plan_routes(eng, b["self"])
    for label, g in good_plan(eng, new):
        eng.oblige(g, label)
    S = lambda r, t: serves(eng, r, t)
    V = lambda r: vehicle(eng, r)
    eng.oblige(z3.ForAll([r_], z3.Implies(old.mem(r_), z3.Exists([s_], z3.And(new.mem(s_), V(s_) == V(r_))))), "every vehicle keeps a route")
    eng.oblige(z3.ForAll([r_], z3.Implies(new.mem(r_), z3.Exists([s_], z3.And(old.mem(s_), V(s_) == V(r_))))), "no other vehicle gets one")
    eng.oblige(z3.ForAll([r_, t_], z3.Implies(z3.And(old.mem(r_), S(r_, t_)), z3.Exists([s_], z3.And(new.mem(s_), S(s_, t_))))), "no trip is lost")
    eng.oblige(z3.ForAll([r_, t_], z3.Implies(z3.And(new.mem(r_), S(r_, t_)), z3.Exists([s_], z3.And(old.mem(s_), S(s_, t_))))), "no trip is added")
    same = z3.ForAll([r_], old.mem(r_) == new.mem(r_))
    better = z3.Exists([r_, s_, a_, b_], z3.And(
        old.mem(r_), old.mem(s_), r_ != s_, new.mem(a_), new.mem(b_), a_ != b_, z3.Not(old.mem(a_)), z3.Not(old.mem(b_)),
        z3.ForAll([x_], z3.Implies(z3.And(x_ != a_, x_ != b_), new.mem(x_) == z3.And(old.mem(x_), x_ != r_, x_ != s_))),
        value(eng, a_) + value(eng, b_) > value(eng, r_) + value(eng, s_)))
    eng.oblige(z3.Or(same, better), "the same routes, or two of them exchanged for two of a higher value")


# -------------------------------------------------------------------------------------------------- one improvement


def improving(eng, args, kwargs, node):
    eng.effect("improve", args, kwargs)


c = R.add(ABC + "improve", props=["C11"], opaque=False, assert_mode="assume", views={ABC + "_improve": improving}, params=dict(self=a_search(LocalSearchStrategy)))
c.pre("every route has a first and a last stop")(lambda self: all(len(r.stops) >= 2 for r in self.result.planning.routes))


@c.check("the result is improved once and given back")
def _(eng, b, result):
    eng.oblige(z3.BoolVal(result is b["self"].attrs["result"]), "the result itself")
    eng.oblige(z3.BoolVal([x[0] for x in eng.trace] == ["improve"]), "improved once")


# ------------------------------------------------------------------------------------------- flipping two stops

from jinete.algorithms.heuristics.local_search.strategies.routes.one_shift import OneShiftLocalSearchStrategy  # noqa: E402

from .c06_edits import linked, nothing_stale  # noqa: E402

FLIP = M + "routes.one_shift:OneShiftLocalSearchStrategy."


def the_given_route(route):
    return route


@each
def one_of_them(each, previous, other, following):
    return each is previous or each is other or (following is not None and each is following)


c = R.add(FLIP + "_flip", props=["C11", "C06"], track=True, params=dict(self=a_search(OneShiftLocalSearchStrategy), route="ref:Route", previous="ref:Stop", other="ref:Stop", following="ref?:Stop", _at="int"),
          opaque=False, assert_mode="check", modifies=[("Route.stops", the_given_route), ("Stop.previous", one_of_them)])
c.pre("the route is well linked")(lambda route: linked(route))


@c.pre("two neighbours and the stop after them")
def _(route, previous, other, following, _at):
    return (
        1 <= _at and _at + 1 < len(route.stops)
        and route.stops[_at] is previous and route.stops[_at + 1] is other
        and (following is None) == (_at + 2 == len(route.stops))
        and (following is None or route.stops[_at + 2] is following)
    )


@c.post("the two are exchanged, the others stay")
def _(route, previous, other, _at, old):
    before = old(lambda: route.stops)
    return (
        len(route.stops) == len(before)
        and route.stops[_at] is other and route.stops[_at + 1] is previous
        and all(route.stops[k] is before[k] for k in range(_at))
        and all(route.stops[k] is before[k] for k in range(_at + 2, len(before)))
    )


c.post("the route is well linked")(lambda route: linked(route))
nothing_stale(c, of="route")


# ---------------------------------------------------------------------------------------------------- one-shift

HOME = z3.Function("route of stop", Ref, Ref)
ARR = z3.ArraySort(z3.IntSort(), Ref)
FITS = z3.Function("feasible in this order", Ref, ARR, z3.IntSort(), z3.BoolSort())
RANK = z3.Function("value in this order", Ref, ARR, z3.IntSort(), z3.RealSort())
j_, k_ = z3.Ints("j!ls k!ls")


class Order(object):
    """The order of the stops of every route at some moment."""

    def __init__(self, eng):
        self.eng = eng
        eng.read_field(SRef(r_, Route), Route, "stops"), eng.read_field(SRef(x_, E_STOP), E_STOP, "previous")
        self.el, self.len, self.prev = (eng.heap_array(*key) for key in ORDER)

    def n(self, r):
        return z3.Select(self.len, r)

    def at(self, r, k):
        return z3.Select(z3.Select(self.el, r), k)

    def fits(self, r):
        return FITS(r, z3.Select(self.el, r), self.n(r))

    def rank(self, r):
        return RANK(r, z3.Select(self.el, r), self.n(r))

    def good(self, routes):
        """label -> formula, for every one of the routes."""
        r, k, j = r_, k_, j_
        inside = z3.And(0 <= k, k < self.n(r))
        each = lambda g, *vs: z3.ForAll([r, *vs], z3.Implies(routes.mem(r), g))
        has = lambda s, name, p: self.eng.read_field(SRef(s, E_STOP), E_STOP, name).mem(p)
        return [
            ("every route has a first and a last stop", each(self.n(r) >= 2)),
            ("its stops are its own", each(z3.Implies(inside, z3.And(HOME(self.at(r, k)) == r, self.at(r, k) != NULL)), k)),
            ("each once", each(z3.Implies(z3.And(inside, 0 <= j, j < k), self.at(r, j) != self.at(r, k)), j, k)),
            ("each comes right after its previous one", each(z3.Implies(inside, z3.Select(self.prev, self.at(r, k)) == z3.If(k == 0, NULL, self.at(r, k - 1))), k)),
            ("no trip is delivered before it is picked up", each(z3.Implies(z3.And(inside, 0 <= j, j < k), z3.Not(z3.And(
                has(self.at(r, j), "delivery_planned_trips", t_), has(self.at(r, k), "pickup_planned_trips", t_)))), j, k, t_)),
            ("it is feasible", each(self.fits(r))),
        ]


from jinete.models.stops import Stop as E_STOP  # noqa: E402

ORDER = ((("Route", "stops#el"), z3.ArraySort(Ref, ARR)), (("Route", "stops#len"), z3.ArraySort(Ref, z3.IntSort())), (("Stop", "previous"), z3.ArraySort(Ref, Ref)))
GOOD = ["every route has a first and a last stop", "its stops are its own", "each once", "each comes right after its previous one",
        "no trip is delivered before it is picked up", "it is feasible"]


def since(eng, first, now, routes):
    """label -> formula: what every route keeps."""
    inside = lambda g, *vs: z3.ForAll([r_, *vs], z3.Implies(routes.mem(r_), g))
    return [
        ("as many stops as at first", inside(first.n(r_) == now.n(r_))),
        ("the same first stop", inside(now.at(r_, 0) == first.at(r_, 0))),
        ("worth no less than at first", inside(now.rank(r_) >= first.rank(r_))),
    ]


SINCE = ["as many stops as at first", "the same first stop", "worth no less than at first"]


def all_good(k):
    return engine_level(lambda eng, self: Order(eng).good(plan_routes(eng, self))[k][1])


def all_since(k):
    return engine_level(lambda eng, self: since(eng, eng.ghosts["_first"].attrs["is"], Order(eng), plan_routes(eng, self))[k][1])


@engine_level
def of_the_plan(eng, each, self):
    return plan_routes(eng, self).mem(each.e)


@engine_level
def stop_of_the_plan(eng, each, self):
    return plan_routes(eng, self).mem(HOME(each.e))


of_the_plan.each = stop_of_the_plan.each = True


def fits(eng, args, kwargs, node):
    return SBool(Order(eng).fits(eng.deref(args[0]).e))


def ranked(eng, v):
    v = eng.deref(v)
    if isinstance(v, SRef) and v.cls is Route:
        return Order(eng).rank(v.e)
    if isinstance(v, tuple) and len(v) == 1:
        return eng.znum(v[0])
    raise Unsupported("the value of something else")


def ranking_objective(eng, args, kwargs, node):
    """An objective (C12): values are ordered; the best of several is the first one that no other beats."""

    def value_of(e, n):
        return Builtin("optimization_function", lambda v: (SNum(ranked(e, v)),))

    def best(e, n):
        def go(*args):
            if len(args) != 2:
                raise Unsupported("the best of other than two")
            return args[1] if e.branch(ranked(e, args[1]) > ranked(e, args[0])) else args[0]

        return Builtin("best", go)

    return Facade("the objective", {"optimization_function": value_of, "best": best})


def flipped(eng, args, kwargs, node):
    """``_flip``, by its contract above."""
    self, route, previous, other = (eng.deref(x) for x in args[:4])
    following = eng.raw(args[4] if len(args) > 4 else kwargs.get("following"))
    o, r, at = Order(eng), route.e, eng.fresh_const(z3.IntSort(), "at")
    given = lambda k: z3.And(
        1 <= k, k + 1 < o.n(r), o.at(r, k) == previous.e, o.at(r, k + 1) == other.e,
        (following == NULL) == (k + 2 == o.n(r)), z3.Implies(k + 2 < o.n(r), o.at(r, k + 2) == following))
    eng.oblige(z3.Exists([k_], given(k_)), "two neighbours and the stop after them", node)
    linked = z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < o.n(r)), z3.Select(o.prev, o.at(r, k_)) == z3.If(k_ == 0, NULL, o.at(r, k_ - 1))))
    eng.oblige(linked, "the route is well linked", node)
    eng.fact(given(at))
    for key, new in ((ORDER[0][0], z3.Store(o.el, r, z3.Store(z3.Store(z3.Select(o.el, r), at, other.e), at + 1, previous.e))),
                     (ORDER[2][0], z3.Store(z3.Store(z3.Store(o.prev, other.e, o.at(r, at - 1)), previous.e, other.e), z3.If(following == NULL, previous.e, following), z3.If(following == NULL, other.e, previous.e)))):
        eng.heap[key] = new
    eng.heap_version += 1000003 + next(eng.counter)
    eng.generation[("Route", "stops")] = eng.generation.get(("Route", "stops"), 0) + 1


c = R.add(FLIP + "_improve", props=["C11"], opaque=False,
          views={FLIP + "_flip": flipped, ROUTES + "flush": lambda eng, args, kwargs, node: None, ROUTES + "feasible": fits, "jinete.models.results:Result.objective": ranking_objective},
          modifies=[("Route.stops", of_the_plan), ("Stop.previous", stop_of_the_plan)],
          loops={
              0: Invariant({}, [(l, all_good(k)) for k, l in enumerate(GOOD)] + [(l, all_since(k)) for k, l in enumerate(SINCE)],
                           heap=[("Route.stops", of_the_plan), ("Stop.previous", stop_of_the_plan)]),
              1: Invariant({"cost": "tuple:(num)"}, [(l, all_good(k)) for k, l in enumerate(GOOD)] + [(l, all_since(k)) for k, l in enumerate(SINCE)]
                           + [("the cost is that of the route", engine_level(lambda eng, route, cost: Order(eng).rank(eng.deref(route).e) == ranked(eng, cost)))],
                           heap=[("Route.stops", of_the_plan), ("Stop.previous", stop_of_the_plan)]),
          })


def arrange(eng):
    self = a_search(OneShiftLocalSearchStrategy)(eng)
    return [self], {}, {"self": self, "_first": EObj(object, {"is": Order(eng)})}


c.arrange(arrange)
c.pre("a feasible plan")(engine_level(lambda eng, self: mk_and([g for _, g in Order(eng).good(plan_routes(eng, self))])))


@c.check("the plan is as good, for the same trips")
def _(eng, b, result):
    routes, now = plan_routes(eng, b["self"]), Order(eng)
    for label, g in now.good(routes) + since(eng, b["_first"].attrs["is"], now, routes):
        eng.oblige(g, label)
