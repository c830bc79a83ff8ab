"""C10: the bookkeeping of the constructive search.

In these proofs a route is described to its callers by the set of its planned trips (``Route.planned_trips`` is proved
against the stops under C21) and by its verdict (C05).
"""
import z3

from jinete.algorithms.heuristics.insertion.algorithm import InsertionAlgorithm
from jinete.algorithms.heuristics.insertion.iterators.abc import InsertionIterator
from jinete.algorithms.heuristics.insertion.iterators.ranking import RankingInsertionIterator
from jinete.algorithms.heuristics.insertion.iterators.stateless import BestStatelessInsertionIterator, StatelessInsertionIterator
from jinete.models.planned_trips import PlannedTrip
from jinete.models.results import Result
from jinete.models.routes import Route
from jinete.models.trips import Trip
from jinete.models.vehicles import Vehicle
from pyvc.builtins_model import SomeRandom, pieces_of
from pyvc.loops import Invariant
from pyvc.maps import SMap, SPool, Stored, attribute
from pyvc.spec import R, engine_level
from pyvc.values import NULL, Bnd, Branch, Builtin, EObj, LocalList, Ref, SBool, SIter, SNum, SRef, SSeq, Unsupported, forall_pat, mk_and, mk_not, mk_or
from pyvc.world import Facade, Ghost, OpenDict, UnknownClass, method, same_settings

from .c05_trips_routes import a_fleet, a_job

M = "jinete.algorithms.heuristics.insertion.iterators."
ROUTES = "jinete.models.routes:Route."
TRUE = z3.BoolVal(True)
PLANS = z3.Function("plans", Ref, Ref, z3.BoolSort())
FEASIBLE = z3.Function("route feasible", Ref, z3.BoolSort())


def planned(eng, args, kwargs, node):
    route = eng.deref(args[0])
    p = z3.Const(f"planned!{next(eng.counter)}", Ref)
    eng.assumptions.add("C10: a route is described by the set of its planned trips: each of them is picked up at one stop only")
    eng.fact(forall_pat([p], z3.Implies(PLANS(route.e, p), p != NULL), [PLANS(route.e, p)]))
    return SIter([Branch([Bnd(p, PLANS(route.e, p), False)], TRUE, SRef(p, PlannedTrip))])


VIEWS = {
    ROUTES + "planned_trips": planned,
    ROUTES + "pickups": planned,
    ROUTES + "feasible": lambda eng, args, kwargs, node: SBool(FEASIBLE(eng.deref(args[0]).e)),
}
ATTRACTIVE = "_InsertionIterator__attractive_vehicles"


def trip_of(eng, p):
    return eng.read_field(SRef(p, PlannedTrip), PlannedTrip, "trip").e


def vehicle_of(eng, r):
    return eng.read_field(SRef(r, Route), Route, "vehicle").e


def an_iterator(eng, cls=InsertionIterator, **extra):
    stored = Stored(eng, Vehicle, "map!stored")
    stored.arbitrary(eng)
    self = EObj(cls, {"fleet": a_fleet(eng), "job": a_job(eng), "routes_container": SMap(eng, Vehicle, "ref:Route").arbitrary(eng),
                      "pending_trips": SPool(eng, Trip).arbitrary(eng), "__dict__": stored, "strategy_cls": None, "criterion_cls": None,
                      "args": (), "kwargs": {}, **extra})
    self.attrs[ATTRACTIVE] = None
    return self


class State(object):
    """The books of an iterator at some moment."""

    def __init__(self, eng, self_):
        self.eng = eng
        if self_ is None:
            return
        self.container, pool = self_.attrs["routes_container"], eng.as_set(self_.attrs["pending_trips"])
        self.vehicles = eng.as_set(eng.getattr(self_.attrs["fleet"], "vehicles"))
        self.trips = eng.as_set(eng.getattr(self_.attrs["job"], "trips"))
        has = eng.heap[(self.container.name, "#has")]
        val = eng.heap[(self.container.name, "#val")]
        self.has = lambda v: z3.Select(has, v)
        self.route = lambda v: z3.Select(val, v)
        self.pending = (lambda t: z3.BoolVal(False)) if pool is None else pool.mem

    def well_kept(self):
        eng = self.eng
        v, w, p, q, t = z3.Consts("v!st w!st p!st q!st t!st", Ref)
        H, C, T = self.has, self.route, lambda x: trip_of(eng, x)
        on = lambda v, p: z3.And(H(v), PLANS(C(v), p))
        return [
            ("every vehicle has one route, its own", z3.ForAll([v], z3.And(H(v) == self.vehicles.mem(v), z3.Implies(H(v), vehicle_of(eng, C(v)) == v)))),
            ("no planned trip is pending", z3.ForAll([v, p], z3.Implies(on(v, p), z3.Not(self.pending(T(p)))))),
            ("no trip is lost", z3.ForAll([t], z3.Implies(self.trips.mem(t), z3.Or(self.pending(t), z3.Exists([v, p], z3.And(on(v, p), T(p) == t)))))),
            ("no trip is planned twice", z3.ForAll([v, w, p, q], z3.Implies(z3.And(on(v, p), on(w, q), T(p) == T(q)), z3.And(v == w, p == q)))),
            ("only requested trips are pending", z3.ForAll([t], z3.Implies(self.pending(t), self.trips.mem(t)))),
        ]

    def all_feasible(self):
        v = z3.Const("v!st", Ref)
        return z3.ForAll([v], z3.Implies(self.has(v), FEASIBLE(self.route(v))))

    def proposal(self, r):
        """``r`` adds pending trips to what its vehicle serves."""
        eng = self.eng
        p, q = z3.Consts("p!pr q!pr", Ref)
        T = lambda x: trip_of(eng, x)
        c = self.route(vehicle_of(eng, r))
        return [
            ("its vehicle is of the fleet", self.vehicles.mem(vehicle_of(eng, r))),
            ("it keeps the trips its vehicle serves", z3.ForAll([p], z3.Implies(PLANS(c, p), z3.Exists([q], z3.And(PLANS(r, q), T(q) == T(p)))))),
            ("it adds pending trips only", z3.ForAll([q], z3.Implies(PLANS(r, q), z3.Or(self.pending(T(q)), z3.Exists([p], z3.And(PLANS(c, p), T(p) == T(q))))))),
            ("it serves no trip twice", z3.ForAll([p, q], z3.Implies(z3.And(PLANS(r, p), PLANS(r, q), T(p) == T(q)), p == q))),
        ]

    def serves(self, r, t):
        p = z3.Const("p!serves", Ref)
        return z3.Exists([p], z3.And(PLANS(r, p), trip_of(self.eng, p) == t))

    def after(self, old, r):
        """This state is ``old`` with the route ``r`` accepted."""
        v, t = z3.Consts("v!af t!af", Ref)
        u = vehicle_of(self.eng, r)
        return [
            ("its trips, and no others, are not pending any more",
             z3.ForAll([t], self.pending(t) == z3.And(old.pending(t), z3.Not(self.serves(r, t))))),
            ("it replaces the route of its vehicle, and no other",
             z3.ForAll([v], z3.And(self.has(v) == old.has(v), z3.Implies(old.has(v), self.route(v) == z3.If(v == u, r, old.route(v)))))),
        ]


# ------------------------------------------------------------------------------------------------ accepting a proposal


def set_route(cls, views=()):
    c = R.add(M + "abc:InsertionIterator._set_route", props=["C10"], opaque=False, variant=cls.__name__, frame=True,
              views={**VIEWS, **dict(views)})

    def arrange(eng):
        self = an_iterator(eng, cls)
        route = eng.fresh("ref:Route", "route")
        old = State(eng, self)
        return [self, route], {}, {"self": self, "route": route, "_old": old}

    c.arrange(arrange)
    c.pre("every trip is pending or planned once")(engine_level(lambda eng, _old: mk_and([g for _, g in _old.well_kept()])))
    c.pre("the route is a proposal")(engine_level(lambda eng, route, _old: mk_and([g for _, g in _old.proposal(route.e)])))
    c.pre("the vehicle has a route")(engine_level(lambda eng, route, _old: _old.has(vehicle_of(eng, route.e))))

    @c.check("the books after it")
    def _(eng, binding, result):
        old, now, r = binding["_old"], State(eng, binding["self"]), binding["route"].e
        for label, g in now.after(old, r):
            eng.oblige(g, label)

    return c


c = set_route(InsertionIterator)


@c.check("every trip is still pending or planned once")
def _(eng, binding, result):
    old, now, r = binding["_old"], State(eng, binding["self"]), binding["route"].e
    for label, g in now.after(old, r):
        eng.fact(g)
    for label, g in now.well_kept():
        eng.oblige(g, label)
    eng.oblige(z3.Implies(z3.And(old.all_feasible(), FEASIBLE(r)), now.all_feasible()), "a feasible proposal keeps all routes feasible")


for cls in (StatelessInsertionIterator, BestStatelessInsertionIterator):
    c = set_route(cls)

    @c.check("candidates computed before are forgotten")
    def _(eng, binding, result):
        old, r = binding["_old"], binding["route"].e
        q = z3.Const("q!new", Ref)
        new = z3.Exists([q], z3.And(PLANS(r, q), mk_not(old.serves(old.route(vehicle_of(eng, r)), trip_of(eng, q)))))
        stored = binding["self"].attrs["__dict__"]
        eng.oblige(z3.Implies(new, mk_not(z3.Select(eng.heap[stored.key], attribute("iterator")))), "candidates computed before are forgotten")

# (ranking: what its own part of the books becomes is shown below)
set_route(RankingInsertionIterator, {M + "ranking:RankingInsertionIterator._update_ranking": lambda eng, args, kwargs, node: None})


# ------------------------------------------------------------------------------------------------ looking at the books

c = R.add(M + "abc:InsertionIterator._routes", props=["C10"], opaque=False, views=VIEWS)
c.arrange(lambda eng: (lambda self: ([self], {}, {"self": self}))(an_iterator(eng)))


@c.check("the routes of all vehicles")
def _(eng, binding, result):
    st, s = State(eng, binding["self"]), eng.as_set(result)
    r, v = z3.Consts("r!rs v!rs", Ref)
    eng.oblige(z3.ForAll([v], z3.Implies(st.has(v), s.mem(st.route(v)))), "every vehicle's route")
    eng.oblige(z3.ForAll([r], z3.Implies(s.mem(r), z3.Exists([v], z3.And(st.has(v), st.route(v) == r)))), "and nothing else")


def attractive(known):
    c = R.add(M + "abc:InsertionIterator._attractive_routes", props=["C10"], opaque=False, variant="known" if known else "first time", views=VIEWS)

    def arrange(eng):
        self = an_iterator(eng)
        if known:
            self.attrs[ATTRACTIVE] = SPool(eng, Vehicle).arbitrary(eng)
        return [self], {}, {"self": self, "_st": State(eng, self)}

    c.arrange(arrange)
    c.pre("every vehicle has its route")(engine_level(lambda eng, _st: _st.well_kept()[0][1]))

    @c.pre("the attractive vehicles have routes")
    @engine_level
    def _(eng, self, _st):
        v = z3.Const("v!at", Ref)
        s = self.attrs[ATTRACTIVE]
        return z3.BoolVal(True) if s is None else z3.ForAll([v], z3.Implies(eng.as_set(s).mem(v), _st.has(v)))

    @c.check("routes of vehicles, an empty one among them while there is one")
    def _(eng, binding, result):
        st, s = binding["_st"], eng.as_set(result)
        r, v, p = z3.Consts("r!at v!at p!at", Ref)
        used = lambda r: z3.Exists([p], PLANS(r, p))
        eng.oblige(z3.ForAll([r], z3.Implies(s.mem(r), z3.Exists([v], z3.And(st.has(v), st.route(v) == r)))), "only routes of vehicles")
        eng.oblige(z3.Implies(z3.Exists([v], z3.And(st.has(v), z3.Not(used(st.route(v))))), z3.Exists([r], z3.And(s.mem(r), z3.Not(used(r))))),
                   "an empty route while there is one")
        if not known:
            eng.oblige(z3.ForAll([v], z3.Implies(z3.And(st.has(v), used(st.route(v))), s.mem(st.route(v)))), "every route in use")
        now = eng.as_set(binding["self"].attrs[ATTRACTIVE])
        eng.oblige(z3.ForAll([v], z3.Implies(now.mem(v), st.has(v))), "the attractive vehicles have routes")
        eng.oblige(z3.ForAll([v], z3.Implies(st.has(v), now.mem(v) == s.mem(st.route(v)))), "their routes are the attractive ones")


attractive(False)
attractive(True)


# ------------------------------------------------------------------------------------------------ the main loop

PENDING = z3.Function("pending at", z3.IntSort(), Ref, z3.BoolSort())
ROUTE = z3.Function("route at", z3.IntSort(), Ref, Ref)


def books(eng, algorithm, k):
    """The books after ``k`` accepted proposals."""
    st = State(eng, None)
    st.vehicles = eng.as_set(eng.getattr(algorithm.attrs["fleet"], "vehicles"))
    st.trips = eng.as_set(eng.getattr(algorithm.attrs["job"], "trips"))
    st.has, st.route, st.pending = st.vehicles.mem, lambda v: ROUTE(k, v), lambda t: PENDING(k, t)
    return st


def kept(eng, algorithm, n, m):
    """What is planned after n proposals is planned after m."""
    v, p, w, q = z3.Consts("v!k p!k w!k q!k", Ref)
    a, b = books(eng, algorithm, n), books(eng, algorithm, m)
    return z3.ForAll([v, p], z3.Implies(z3.And(a.has(v), PLANS(a.route(v), p)),
                                        z3.Exists([w, q], z3.And(b.has(w), PLANS(b.route(w), q), trip_of(eng, q) == trip_of(eng, p)))))


def all_books(eng, self, n):
    return mk_and([g for _, g in books(eng, self, n).well_kept()])


class SomeIterator(Facade):
    """An iterator that keeps its books (as shown above) and proposes routes in whatever way."""

    __slots__ = ("self", "log")

    def __init__(self, eng, algorithm, log):
        self.self, self.log = algorithm, log
        super().__init__("the iterator", {"_set_route": method(self.accept), "_routes": self.routes,
                                          "__next__": method(lambda e, a, k, node: self.vc_next(e, node)), "__iter__": method(lambda e, a, k, node: self)})

    def count(self, eng):
        return eng.znum(self.log.attrs["count"])

    def accept(self, eng, args, kwargs, node):
        (r,) = args + list(kwargs.values())
        r, n = eng.deref(r), self.count(eng)
        for label, g in books(eng, self.self, n).proposal(r.e):
            eng.oblige(g, f"an accepted route is a proposal: {label}", node)
            eng.ctx.pc.append(g)
        eng.fact(mk_and([g for _, g in books(eng, self.self, n + 1).after(books(eng, self.self, n), r.e)]))
        self.log.attrs["count"] = SNum(n + 1)
        self.log.attrs["open"] = False

    def routes(self, eng, node):
        st = books(eng, self.self, self.count(eng))
        v = z3.Const(f"v!{next(eng.counter)}", Ref)
        return SIter([Branch([Bnd(v, st.has(v), False)], TRUE, SRef(st.route(v), Route))], "set")

    def vc_next(self, eng, node):
        if eng.branch(eng.fresh_const(z3.BoolSort(), "stop")):
            self.log.attrs["over"] = True
            eng.raise_exc(StopIteration, "no proposal", node)
        r = eng.fresh("ref:Route", "proposal")
        eng.fact(mk_and([g for _, g in books(eng, self.self, self.count(eng)).proposal(r.e)]))
        self.log.attrs["last"] = r
        self.log.attrs["open"] = SBool(FEASIBLE(r.e))
        return r


def main_loop():
    c = R.add("jinete.algorithms.heuristics.insertion.algorithm:InsertionAlgorithm._optimize", props=["C10"], opaque=False, views=VIEWS,
              loops={0: Invariant({}, [
                  ("every trip is pending or planned once", engine_level(lambda eng, self, _log: all_books(eng, self, eng.znum(_log.attrs["count"])))),
                  ("what was planned stays planned", engine_level(
                      lambda eng, self, _log: kept(eng, self, z3.IntVal(0), eng.znum(_log.attrs["count"])))),
                  ("feasible routes are followed by feasible ones", engine_level(lambda eng, self, _log: z3.Implies(
                      books(eng, self, z3.IntVal(0)).all_feasible(), books(eng, self, eng.znum(_log.attrs["count"])).all_feasible()))),
                  ("no feasible proposal is passed over", engine_level(lambda eng, _log: mk_not(eng.truth(_log.attrs["open"])))),
                  ("the iterator is not over", engine_level(lambda eng, _log: mk_not(eng.truth(_log.attrs["over"])))),
              ], ghosts={"_log": {"count": "int", "over": "bool", "open": "bool", "last": "ref?:Route"}})})

    def arrange(eng):
        log = EObj(Ghost, {"count": SNum(z3.IntVal(0)), "over": False, "open": False, "last": None})
        eng.ghosts["_log"] = log
        initial = eng.fresh("ref?:Result", "initial")
        self = EObj(InsertionAlgorithm, {"fleet": a_fleet(eng), "job": a_job(eng), "initial": initial, "kwargs": OpenDict(z3.Const("settings", Ref))})
        entry = OpenDict(z3.Const("settings", Ref))

        def new(eng, a, k, node):
            eng.oblige(z3.BoolVal(not a), "an iterator gets its settings by name", node)
            want = {}
            if eng.branch(initial.e != NULL) and not eng.branch(entry.base_has("routes")):
                want["routes"] = lambda v: eng.set_eq(v, eng.getattr(SRef(initial.e, Result), "routes"))
            eng.oblige(same_settings(eng, k, entry, want), "the iterator gets the configured settings and the initial routes", node)
            eng.fact(all_books(eng, self, z3.IntVal(0)))      # as its constructor leaves them
            return SomeIterator(eng, self, log)

        self.attrs["iterator_cls"] = UnknownClass("iterator", new, [InsertionIterator])
        return [self], {}, {"self": self, "_log": log}

    c.arrange(arrange)

    @c.check("the plan of the books at the end")
    def _(eng, binding, result):
        self, log = binding["self"], binding["_log"]
        n = eng.znum(log.attrs["count"])
        st = books(eng, self, n)
        got = eng.as_set(eng.getattr(result, "routes"))
        r, v = z3.Consts("r!pl v!pl", Ref)
        eng.oblige(z3.ForAll([v], z3.Implies(st.has(v), got.mem(st.route(v)))), "the route of every vehicle")
        eng.oblige(z3.ForAll([r], z3.Implies(got.mem(r), z3.Exists([v], z3.And(st.has(v), st.route(v) == r)))), "and no other route")
        for label, g in st.well_kept():
            eng.oblige(g, label)
        eng.oblige(kept(eng, self, z3.IntVal(0), n), "what the initial routes plan stays planned")
        eng.oblige(z3.Implies(books(eng, self, z3.IntVal(0)).all_feasible(), st.all_feasible()), "all routes are feasible if they were at the start")
        eng.oblige(mk_not(eng.truth(log.attrs["open"])), "no feasible proposal is passed over")
        last = log.attrs["last"]
        refused = z3.BoolVal(False) if last is None else z3.And(last.e != NULL, mk_not(FEASIBLE(last.e)))
        eng.oblige(mk_or([eng.truth(log.attrs["over"]), refused]), "it ends when there is no proposal, or an infeasible one")


main_loop()


# ------------------------------------------------------------------------------------------------ opening the books


def empty_route(eng, args, kwargs, node):
    """``Route(vehicle)``: a new route of the vehicle that plans nothing."""
    names = dict(zip(("vehicle", "stops"), args), **kwargs)
    if set(names) != {"vehicle"}:
        raise Unsupported("a route with given stops")
    r = eng.alloc(Route)
    eng.write_field(r, "vehicle", eng.deref(names["vehicle"]))
    p = z3.Const(f"p!{next(eng.counter)}", Ref)
    eng.axioms.append(z3.ForAll(list(eng.binders) + [p], z3.Not(PLANS(r.e, p)), patterns=[PLANS(r.e, p)]))
    return r


COPY = z3.Function("copy of", Ref, Ref)


def copied(eng, args, kwargs, node):
    """``deepcopy`` of a set of routes (C08): new routes of the same vehicles that plan the same trips."""
    given = eng.as_set(args[0])
    if given.elem != "ref:Route":
        raise Unsupported("deepcopy")
    r, s, p, t = z3.Consts("r!cp s!cp p!cp t!cp", Ref)
    eng.fact(z3.ForAll([r], vehicle_of(eng, COPY(r)) == vehicle_of(eng, r), patterns=[COPY(r)]))
    eng.fact(z3.ForAll([r, s], z3.Implies(COPY(r) == COPY(s), r == s)))
    eng.fact(z3.ForAll([r, p], z3.Implies(z3.And(given.mem(r), PLANS(r, p)), z3.And(PLANS(COPY(r), COPY(p)), trip_of(eng, COPY(p)) == trip_of(eng, p)))))
    eng.fact(z3.ForAll([r, p], z3.Implies(z3.And(given.mem(r), PLANS(COPY(r), p)), z3.Exists([s], z3.And(PLANS(r, s), p == COPY(s))))))
    eng.fact(z3.ForAll([r], z3.Implies(given.mem(r), z3.And(COPY(r) != NULL, z3.Not(given.mem(COPY(r)))))))
    eng.fact(z3.ForAll([r], FEASIBLE(COPY(r)) == FEASIBLE(r)))
    b = z3.Const(f"given!{next(eng.counter)}", Ref)
    return SIter([Branch([Bnd(b, given.mem(b), False)], TRUE, SRef(COPY(b), Route))], "set")


def opening(given):
    c = R.add(M + "abc:InsertionIterator.__init__", props=["C10"], opaque=False, variant="given routes" if given else "new routes",
              views={**VIEWS, "copy:deepcopy": copied})

    def arrange(eng):
        eng.class_hooks[Route] = empty_route
        self = EObj(InsertionIterator, {})
        fleet, job = a_fleet(eng), a_job(eng)
        routes = eng.fresh("set:ref:Route", "routes") if given else None
        kw = {"routes": routes} if given else {}
        return [self, fleet, job], kw, {"self": self, "fleet": fleet, "job": job, "routes": routes}

    c.arrange(arrange)

    if given:
        @c.pre("the routes given plan requested trips, each once, one route per vehicle")
        @engine_level
        def _(eng, fleet, job, routes):
            r, s, p, q, v = z3.Consts("r!gv s!gv p!gv q!gv v!gv", Ref)
            vehicles, trips = eng.as_set(eng.getattr(fleet, "vehicles")), eng.as_set(eng.getattr(job, "trips"))
            on = lambda r, p: z3.And(routes.mem(r), PLANS(r, p))
            return z3.And(
                z3.ForAll([r], z3.Implies(routes.mem(r), vehicles.mem(vehicle_of(eng, r)))),
                z3.ForAll([v], z3.Implies(vehicles.mem(v), z3.Exists([r], z3.And(routes.mem(r), vehicle_of(eng, r) == v)))),
                z3.ForAll([r, s], z3.Implies(z3.And(routes.mem(r), routes.mem(s), vehicle_of(eng, r) == vehicle_of(eng, s)), r == s)),
                z3.ForAll([r, p], z3.Implies(on(r, p), trips.mem(trip_of(eng, p)))),
                z3.ForAll([r, s, p, q], z3.Implies(z3.And(on(r, p), on(s, q), trip_of(eng, p) == trip_of(eng, q)), z3.And(r == s, p == q))),
            )

    @c.check("every trip is pending or planned once")
    def _(eng, binding, result):
        st = State(eng, binding["self"])
        for k in ("fleet", "job"):
            eng.oblige(z3.BoolVal(eng.deref(binding["self"].attrs[k]) is binding[k]), f"it is about the given {k}")
        for label, g in st.well_kept():
            eng.oblige(g, label)
        v, p, w, q = z3.Consts("v!op p!op w!op q!op", Ref)
        if given:
            routes = binding["routes"]
            eng.oblige(z3.ForAll([w, p], z3.Implies(z3.And(routes.mem(w), PLANS(w, p)), st.serves(st.route(vehicle_of(eng, w)), trip_of(eng, p)))),
                       "what the given routes plan is planned")
            eng.oblige(z3.ForAll([v], z3.Implies(st.has(v), z3.Not(routes.mem(st.route(v))))), "on routes of its own")
            eng.oblige(z3.Implies(z3.ForAll([w], z3.Implies(routes.mem(w), FEASIBLE(w))), st.all_feasible()), "feasible if they were")
        else:
            eng.oblige(z3.ForAll([v, p], z3.Implies(st.has(v), z3.Not(PLANS(st.route(v), p)))), "nothing is planned yet")

    return c


opening(False)
opening(True)


# ------------------------------------------------------------------------------------------------ proposing

CANDIDATE = z3.Function("candidate", Ref, Ref, Ref, z3.BoolSort())


def some_strategy(eng):
    """An insertion strategy (C09): its candidates serve the trips of the route and the given trip, on the same vehicle."""
    eng.assumptions.add("C10: candidates of an insertion strategy serve the trips of the route plus the inserted one, each once (C09)")
    r, t, c, p, q = z3.Consts("r!cd t!cd c!cd p!cd q!cd", Ref)
    T = lambda x: trip_of(eng, x)
    cand = CANDIDATE(r, t, c)
    serves = lambda r, t: z3.Exists([p], z3.And(PLANS(r, p), T(p) == t))
    twice = lambda r: z3.Exists([p, q], z3.And(PLANS(r, p), PLANS(r, q), T(p) == T(q), p != q))
    say = lambda g: eng.fact(z3.ForAll([r, t, c], z3.Implies(cand, g), patterns=[cand]))
    say(z3.And(c != NULL, vehicle_of(eng, c) == vehicle_of(eng, r)))
    say(z3.ForAll([p], z3.Implies(PLANS(r, p), serves_q(c, T(p), T))))
    say(z3.ForAll([q], z3.Implies(PLANS(c, q), z3.Or(T(q) == t, z3.Exists([p], z3.And(PLANS(r, p), T(p) == T(q)))))))
    say(z3.Or(serves(r, t), twice(r), z3.Not(twice(c))))

    def compute(e, node):
        def go(route, trip):
            route, trip = e.deref(route), e.deref(trip)
            if not isinstance(route, SRef) or not isinstance(trip, SRef):
                raise Unsupported("candidates for several trips")
            x = z3.Const(f"candidate!{next(e.counter)}", Ref)
            return SIter([Branch([Bnd(x, CANDIDATE(route.e, trip.e, x), True)], TRUE, SRef(x, Route))])

        return Builtin("compute", go)

    return Facade("the insertion strategy", {"compute": compute})


def serves_q(c, t, T):
    q = z3.Const("q!sv", Ref)
    return z3.Exists([q], z3.And(PLANS(c, q), T(q) == t))


c = R.add(M + "stateless:StatelessInsertionIterator.iterator", props=["C10"], opaque=False,
          views={**VIEWS, M + "abc:InsertionIterator._attractive_routes": lambda eng, args, kwargs, node: eng.ghosts["_attractive"]})


def arrange(eng):
    self = an_iterator(eng, StatelessInsertionIterator)
    self.attrs["_strategy"] = some_strategy(eng)
    st = State(eng, self)
    routes = eng.fresh("set:ref:Route", "attractive")
    r, v = z3.Consts("r!pp v!pp", Ref)
    eng.fact(z3.ForAll([r], z3.Implies(routes.mem(r), z3.Exists([v], z3.And(st.has(v), st.route(v) == r)))))      # as proved above
    eng.ghosts["_attractive"] = routes
    return [self], {}, {"self": self, "_st": st, "_attractive": routes}


c.arrange(arrange)
c.pre("every trip is pending or planned once")(engine_level(lambda eng, _st: mk_and([g for _, g in _st.well_kept()])))


@c.check("only proposals, and every candidate for an attractive route and a pending trip")
def _(eng, binding, result):
    st, routes = binding["_st"], binding["_attractive"]
    it = eng.to_iter(result)
    for b in it.branches:
        for label, g in st.proposal(b.value.e):
            eng.oblige(eng.forall_branch(b, g), label)
    r, t, x = z3.Consts("r!all t!all x!all", Ref)
    eng.oblige(z3.ForAll([r, t, x], z3.Implies(z3.And(routes.mem(r), st.pending(t), CANDIDATE(r, t, x)),
                                                mk_or([eng.exists_branch(b, b.value.e == x) for b in it.branches]))),
               "every candidate for an attractive route and a pending trip")


# ------------------------------------------------------------------------------------------------ the ranking

SCORE = z3.Function("how good", Ref, z3.RealSort())


def some_criterion(eng):
    """A criterion (C13): a total preorder on routes in which infeasible routes come last."""
    a, b = z3.Consts("a!cr b!cr", Ref)
    eng.fact(z3.ForAll([a, b], z3.Implies(z3.And(FEASIBLE(a), z3.Not(FEASIBLE(b))), SCORE(a) > SCORE(b))))
    eng.assumptions.add("C10: criteria pick and sort by a score in which infeasible routes come last (C13)")

    def best(e, node):
        def go(x, y):
            x, y = e.deref(x), e.deref(y)
            return SRef(z3.If(SCORE(y.e) > SCORE(x.e), y.e, x.e), Route)

        return Builtin("best", go)

    def ordered(e, node):
        def go(routes, inplace=False):
            routes = e.deref(routes)
            old = e.to_seq(routes)
            k = next(e.counter)
            at = z3.Function(f"sorted!{k}", z3.IntSort(), Ref)
            to = z3.Function(f"moved!{k}", z3.IntSort(), z3.IntSort())
            back = z3.Function(f"back!{k}", z3.IntSort(), z3.IntSort())
            i, j = z3.Ints("i!so j!so")
            inside = lambda i: z3.And(0 <= i, i < old.length)
            e.fact(z3.ForAll([i], z3.Implies(inside(i), z3.And(inside(to(i)), at(i) == old.get(to(i)).e, back(to(i)) == i)), patterns=[at(i)]))
            e.fact(z3.ForAll([i], z3.Implies(inside(i), z3.And(inside(back(i)), to(back(i)) == i, at(back(i)) == old.get(i).e)), patterns=[back(i)]))
            e.fact(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < old.length), SCORE(at(i)) >= SCORE(at(j)))))
            new = SSeq(old.length, lambda i: SRef(at(i), Route))
            if e.truth(inplace) is not True:
                return new
            if not isinstance(routes, LocalList) or routes.moved is not None:
                raise Unsupported("sorting in place")
            routes.items[:] = pieces_of(e.to_iter(new))
            return routes

        return Builtin("sorted", go)

    return Facade("the criterion", {"best": best, "sorted": ordered})


def some_candidates(eng):
    return LocalList(pieces_of(eng.to_iter(eng.fresh("list:ref:Route", "candidates"))))


some_candidates.accepts = LocalList


def ranked(eng, self, v, i):
    """The i-th route in the ranking of vehicle v, and whether there is one."""
    seq = self.attrs["ranking"].at(eng, v)
    return z3.And(self.attrs["ranking"].has(eng, v), 0 <= i, i < seq.length), seq.get(i).e


def at(s, k):
    return NULL if z3.is_int_value(s.length) and s.length.as_long() == 0 else s.get(k).e


def from_ranking(eng, self, candidates):
    s = eng.to_seq(candidates)
    k, i, v = z3.Int("k!fr"), z3.Int("i!fr"), z3.Const("v!fr", Ref)
    there, r = ranked(eng, self, v, i)
    return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < s.length), z3.Exists([v, i], z3.And(there, r == at(s, k)))))


def not_worse(eng, self, candidates, among):
    """With one candidate at most: it is not worse than the routes ``among(v, i)`` of the ranking."""
    s = eng.to_seq(candidates)
    i, v = z3.Int("i!nw"), z3.Const("v!nw", Ref)
    there, r = ranked(eng, self, v, i)
    one = eng.znum(self.attrs["randomized_size"]) == 1
    return z3.And(z3.Implies(one, s.length <= 1), z3.Implies(one, z3.ForAll([v, i], z3.Implies(
        z3.And(there, among(v, i)), z3.And(s.length == 1, SCORE(at(s, z3.IntVal(0))) >= SCORE(r))))),
        z3.ForAll([v, i], z3.Implies(z3.And(there, among(v, i)), s.length >= 1)),
        s.length <= eng.znum(self.attrs["randomized_size"]))


def visited(eng):
    return eng.frame.locals["#visited"].e


c = R.add(M + "ranking:RankingInsertionIterator.__next__", props=["C10"], opaque=False, views=VIEWS, loops={
    0: Invariant({"candidates": some_candidates}, [
        ("candidates are ranked routes", engine_level(from_ranking)),
        ("none of those seen is better", engine_level(lambda eng, self, candidates, seen: not_worse(eng, self, candidates, lambda v, i: seen.mem(v)))),
    ]),
    1: Invariant({"candidates": some_candidates}, [
        ("candidates are ranked routes", engine_level(from_ranking)),
        ("none of those seen is better", engine_level(lambda eng, self, candidates, i: not_worse(
            eng, self, candidates, lambda v, k: z3.Or(eng.frame.locals["#seen"].mem(v), z3.And(v == visited(eng), k < eng.znum(i)))))),
    ]),
})


def arrange(eng):
    self = an_iterator(eng, RankingInsertionIterator, ranking=SMap(eng, Vehicle, "list:ref:Route").arbitrary(eng),
                       randomized_size=eng.fresh("int", "randomized_size"), random=SomeRandom())
    self.attrs["_criterion"] = some_criterion(eng)
    return [self], {}, {"self": self}


c.arrange(arrange)


def at_least_one(eng, self):
    return eng.znum(self.attrs["randomized_size"]) >= 1


def sub_rankings_are_sorted(eng, self):
    i, j, v = z3.Int("i!sr"), z3.Int("j!sr"), z3.Const("v!sr", Ref)
    (there, r), (there2, q) = ranked(eng, self, v, i), ranked(eng, self, v, j)
    return z3.ForAll([v, i, j], z3.Implies(z3.And(there, there2, i <= j), SCORE(r) >= SCORE(q)))


c.pre("at least one candidate is drawn from")(engine_level(at_least_one))
c.pre("each sub ranking is sorted")(engine_level(sub_rankings_are_sorted))


@c.check("the next route is a ranked one, and with a single candidate none is better")
def _(eng, b, result):
    self = b["self"]
    r = eng.deref(result).e
    i, v = z3.Int("i!nx"), z3.Const("v!nx", Ref)
    there, q = ranked(eng, self, v, i)
    eng.oblige(z3.Exists([v, i], z3.And(there, q == r)), "the next route is a ranked one", None)
    eng.oblige(z3.Implies(eng.znum(self.attrs["randomized_size"]) == 1, z3.ForAll([v, i], z3.Implies(there, SCORE(r) >= SCORE(q)))), "with a single candidate no ranked route is better", None)


@c.raising(StopIteration, "the ranking ends when no route is ranked")
@engine_level
def _(eng, self):
    i, v = z3.Int("i!st"), z3.Const("v!st", Ref)
    there, q = ranked(eng, self, v, i)
    return z3.Not(z3.Exists([v, i], there))


# ---- what the ranking holds

def good_sub_ranking(eng, self, st, v, seq):
    """``seq`` ranks proposals for the vehicle ``v``, the best first."""
    i, j = z3.Int("i!gs"), z3.Int("j!gs")
    inside = lambda i: z3.And(0 <= i, i < seq.length)
    return z3.And(
        z3.ForAll([i], z3.Implies(inside(i), z3.And(vehicle_of(eng, at(seq, i)) == v, *[g for _, g in st.proposal(at(seq, i))]))),
        z3.ForAll([i, j], z3.Implies(z3.And(inside(i), inside(j), i <= j), SCORE(at(seq, i)) >= SCORE(at(seq, j)))),
    )


def strategy_for_many(eng):
    one = some_strategy(eng)

    def compute(e, node):
        def go(route, trips):
            route, trips = e.deref(route), e.as_set(trips)
            if not isinstance(route, SRef) or trips is None:
                raise Unsupported("candidates for one trip")
            out = e.fresh("list:ref:Route", "proposals")
            i, t, x = z3.Int("i!sm"), z3.Const("t!sm", Ref), z3.Const("x!sm", Ref)
            inside = z3.And(0 <= i, i < out.length)
            e.fact(z3.ForAll([i], z3.Implies(inside, z3.Exists([t], z3.And(trips.mem(t), CANDIDATE(route.e, t, out.get(i).e))))))
            e.fact(z3.ForAll([t, x], z3.Implies(z3.And(trips.mem(t), CANDIDATE(route.e, t, x)), z3.Exists([i], z3.And(inside, out.get(i).e == x)))))
            return LocalList(pieces_of(e.to_iter(out)))

        return Builtin("compute", go)

    return Facade("the insertion strategy", {**one.members, "compute": compute})


def a_ranking(eng):
    self = an_iterator(eng, RankingInsertionIterator, ranking=SMap(eng, Vehicle, "list:ref:Route").arbitrary(eng),
                       neighborhood_max_size=eng.fresh("int", "neighborhood_max_size"))
    self.attrs["_criterion"] = some_criterion(eng)
    self.attrs["_strategy"] = strategy_for_many(eng)
    return self


c = R.add(M + "ranking:RankingInsertionIterator._create_sub_ranking", props=["C10"], opaque=False, views=VIEWS)


def arrange(eng):
    self, route = a_ranking(eng), eng.fresh("ref:Route", "route")
    return [self, route], {}, {"self": self, "route": route, "_st": State(eng, self)}


c.arrange(arrange)
c.pre("every trip is pending or planned once")(engine_level(lambda eng, _st: mk_and([g for _, g in _st.well_kept()])))
c.pre("the route is the one of its vehicle")(engine_level(
    lambda eng, route, _st: z3.And(_st.has(vehicle_of(eng, route.e)), _st.route(vehicle_of(eng, route.e)) == route.e)))


@c.check("proposals for its vehicle, the best first")
def _(eng, b, result):
    st, v, s = b["_st"], vehicle_of(eng, b["route"].e), eng.to_seq(result)
    eng.oblige(good_sub_ranking(eng, b["self"], st, v, s), "proposals for its vehicle, the best first")
    t, x, k = z3.Const("t!cs", Ref), z3.Const("x!cs", Ref), z3.Int("k!cs")
    few = eng.znum(b["self"].attrs["neighborhood_max_size"]) >= eng.znum(eng.call(len, [b["self"].attrs["pending_trips"]], {}))
    eng.oblige(z3.Implies(few, z3.ForAll([t, x], z3.Implies(
        z3.And(st.pending(t), CANDIDATE(b["route"].e, t, x)), z3.Exists([k], z3.And(0 <= k, k < s.length, at(s, k) == x))))),
        "all of them, if the neighborhood allows for it")


def a_sub_ranking(eng, args, kwargs, node):
    """``_create_sub_ranking``, as proved above."""
    self, route = args
    st, route = State(eng, self), eng.deref(route)
    v = vehicle_of(eng, route.e)
    eng.oblige(z3.And(st.has(v), st.route(v) == route.e), "a sub ranking is created for the route of a vehicle", node)
    out = eng.fresh("list:ref:Route", "sub_ranking")
    eng.fact(good_sub_ranking(eng, self, st, v, out))
    return LocalList(pieces_of(eng.to_iter(out)))


def good_ranking(eng, self, now, only=None):
    v = z3.Const("v!gr", Ref)
    m = self.attrs["ranking"]
    which = m.has(eng, v) if only is None else z3.And(m.has(eng, v), only(v))
    return z3.ForAll([v], z3.Implies(which, z3.And(now.has(v), good_sub_ranking(eng, self, now, v, m.at(eng, v)))))


def of_attractive(eng, args, kwargs, node):
    return eng.ghosts["_attractive"]


def before_update(eng, self, planned):
    """The books in which the trip just planned was still pending."""
    st = State(eng, self)
    pending, t = st.pending, trip_of(eng, planned.e)
    st.pending = lambda x: z3.Or(pending(x), x == t)
    return st


def updating(eng, self, planned_trip, seen):
    now, old, v = State(eng, self), before_update(eng, self, planned_trip), z3.Const("v!up", Ref)
    done = lambda v: seen.mem(now.route(v))
    return z3.And(good_ranking(eng, self, now, done),
                  good_ranking(eng, self, old, lambda v: z3.And(z3.Not(done(v)), v != vehicle_of_planned(eng, planned_trip))),
                  z3.ForAll([v], z3.Implies(self.attrs["ranking"].has(eng, v), z3.Or(done(v), eng.ghosts["_ranked"](v)))),
                  z3.ForAll([v], z3.Implies(z3.And(now.has(v), done(v)), self.attrs["ranking"].has(eng, v))))


def vehicle_of_planned(eng, p):
    return eng.read_field(p, PlannedTrip, "vehicle").e


for what in ("_update_ranking", "_initialize_ranking"):
    first = what == "_initialize_ranking"
    c = R.add(M + f"ranking:RankingInsertionIterator.{what}", props=["C10"], opaque=False,
              views={**VIEWS, M + "abc:InsertionIterator._attractive_routes": of_attractive,
                     M + "ranking:RankingInsertionIterator._create_sub_ranking": a_sub_ranking},
              loops={0: Invariant({}, [("those seen are ranked afresh", engine_level(
                  (lambda eng, self, seen: updating_first(eng, self, seen)) if first else updating))],
                  maps=[lambda eng: eng.ghosts["self"].attrs["ranking"]])})

    def arrange(eng, first=first):
        self = a_ranking(eng)
        if first:
            self.attrs["ranking"] = SMap(eng, Vehicle, "list:ref:Route").empty(eng)
        st = State(eng, self)
        routes = eng.fresh("set:ref:Route", "attractive")
        r, v = z3.Consts("r!pp v!pp", Ref)
        eng.fact(z3.ForAll([r], z3.Implies(routes.mem(r), z3.Exists([v], z3.And(st.has(v), st.route(v) == r)))))      # as proved above
        ranked0 = eng.heap[(self.attrs["ranking"].name, "#has")]
        eng.ghosts["_attractive"] = routes
        eng.ghosts["_ranked"] = lambda v: z3.Select(ranked0, v)
        b = {"self": self, "_st": st, "_attractive": routes, "_ranked": eng.ghosts["_ranked"]}
        if not first:
            b["planned_trip"] = eng.fresh("ref:PlannedTrip", "planned_trip")
        return [self] + ([] if first else [b["planned_trip"]]), {}, b

    c.arrange(arrange)
    c.pre("every trip is pending or planned once")(engine_level(lambda eng, _st: mk_and([g for _, g in _st.well_kept()])))
    if not first:
        @c.pre("the ranking held proposals while the trip was pending")
        @engine_level
        def _(eng, self, planned_trip, _st, _attractive):
            v = z3.Const("v!ur", Ref)
            return z3.And(
                good_ranking(eng, self, before_update(eng, self, planned_trip), lambda v: v != vehicle_of_planned(eng, planned_trip)),
                z3.ForAll([v], z3.Implies(self.attrs["ranking"].has(eng, v), z3.And(_st.has(v), _attractive.mem(_st.route(v))))),
                z3.Not(_st.pending(trip_of(eng, planned_trip.e))))

    @c.check("the ranking holds proposals, the best of each vehicle first")
    def _(eng, b, result):
        now, m, v = State(eng, b["self"]), b["self"].attrs["ranking"], z3.Const("v!ud", Ref)
        eng.oblige(good_ranking(eng, b["self"], now), "the ranking holds proposals, the best of each vehicle first")
        eng.oblige(z3.ForAll([v], z3.Implies(now.has(v), m.has(eng, v) == b["_attractive"].mem(now.route(v)))), "for the attractive routes")


def updating_first(eng, self, seen):
    now, v = State(eng, self), z3.Const("v!up", Ref)
    return z3.And(good_ranking(eng, self, now),
                  z3.ForAll([v], z3.Implies(now.has(v), self.attrs["ranking"].has(eng, v) == seen.mem(now.route(v)))))


# ------------------------------------------------------------------------------------------------ the best proposal

def nbest_of(eng):
    """What C13 proves of ``nbest``: the best routes, as many as asked for if there are."""
    base = some_criterion(eng)

    def nbest(e, node):
        def go(n, routes):
            routes, n = e.as_set(routes), e.znum(n)
            out = e.fresh("list:ref:Route", "best")
            i, j, r = z3.Int("i!nb"), z3.Int("j!nb"), z3.Const("r!nb", Ref)
            inside = lambda i: z3.And(0 <= i, i < out.length)
            one_of = z3.Exists([i], z3.And(inside(i), out.get(i).e == r))
            e.fact(out.length <= z3.If(n >= 0, n, 0))
            e.fact(z3.ForAll([i], z3.Implies(inside(i), routes.mem(out.get(i).e))))
            e.fact(z3.ForAll([r], z3.Implies(z3.And(routes.mem(r), z3.Not(one_of)), z3.And(
                out.length == z3.If(n >= 0, n, 0), z3.ForAll([i], z3.Implies(inside(i), SCORE(out.get(i).e) >= SCORE(r)))))))
            return LocalList(pieces_of(e.to_iter(out)))

        return Builtin("nbest", go)

    return Facade("the criterion", {**base.members, "nbest": nbest})


c = R.add(M + "stateless:BestStatelessInsertionIterator.__next__", props=["C10"], opaque=False,
          views={**VIEWS, M + "stateless:StatelessInsertionIterator.iterator": lambda eng, args, kwargs, node: eng.ghosts["_proposals"]})


def arrange(eng):
    self = an_iterator(eng, BestStatelessInsertionIterator, randomized_size=eng.fresh("int", "randomized_size"), random=SomeRandom())
    self.attrs["_criterion"] = nbest_of(eng)
    proposals = eng.ghosts["_proposals"] = eng.fresh("set:ref:Route", "proposals")
    return [self], {}, {"self": self, "_proposals": proposals}


c.arrange(arrange)
c.pre("at least one candidate is drawn from")(engine_level(at_least_one))


@c.check("the next route is a proposal, and with a single candidate none is better")
def _(eng, b, result):
    r, q, s = eng.deref(result).e, z3.Const("q!bs", Ref), b["_proposals"]
    eng.oblige(s.mem(r), "the next route is a proposal")
    eng.oblige(z3.Implies(eng.znum(b["self"].attrs["randomized_size"]) == 1, z3.ForAll([q], z3.Implies(s.mem(q), SCORE(r) >= SCORE(q)))),
               "with a single candidate no proposal is better")


@c.raising(StopIteration, "there is no proposal")
@engine_level
def _(eng, _proposals):
    q = z3.Const("q!st", Ref)
    return z3.Not(z3.Exists([q], _proposals.mem(q)))
