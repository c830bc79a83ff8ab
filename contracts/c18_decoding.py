"""C18: how a solution of the linear model is read: places, requests, stops, times, routes."""
import pulp
import z3

from jinete.algorithms.exacts.milp import MilpAlgorithm
from jinete.models.plannings import Planning
from pyvc import builtins_model as B
from pyvc.engine import is_new, item
from pyvc.loops import Invariant
from pyvc.spec import R
from pyvc.values import EObj, LocalList
from pyvc.world import Facade, method, unknown_class

from .c05_trips_routes import a_fleet, a_job
from .c08_copies import new_one, some_stops
from .c18_exact_model import M, a_model, places, u, x


def some(kind):
    def fresh(eng):
        return LocalList(B.pieces_of(eng.to_iter(eng.fresh(f"list:{kind}", "gathered"))))

    fresh.accepts = LocalList
    return fresh


def solved(eng):
    """A model with a solution: every variable has its value, the one the linear expressions are built from."""
    eng.number_hooks["varValue"] = lambda eng, v: v
    return a_model(eng)


c = R.add(M + "_solution_to_positions", props=["C18"], opaque=False, params=dict(self=solved, k="int"), result="list:ref:GeometricPosition")


@c.pre("a vehicle of the fleet")
def _(self, k):
    return 0 <= k < len(self._vehicles)


@c.post("the places the vehicle goes on from, by the times it is there")
def _(self, k, result):
    def when(i):
        return u(self, k, i)

    return list(result) == [item(self._positions, i) for i in sorted(places(self), key=when) for j in places(self) if round(x(self, k, i, j)) == 1]


# ---------------------------------------------------------------------------------------------------------- the requests


c = R.add(M + "_positions_to_trips", props=["C18"], opaque=False, params=dict(self=a_model, positions="list:ref:GeometricPosition"),
          result="list:ref:Trip", loops={0: Invariant({"trips": some("ref:Trip")}, [
              ("requests picked up at the places seen", lambda self, positions, trips, i: all(
                  any(t is o for o in self._trips) and any(item(positions, p) == t.origin_position for p in range(i)) for t in trips)),
              ("all of them", lambda self, positions, trips, i: all(
                  t in trips for t in self._trips if any(item(positions, p) == t.origin_position for p in range(i)))),
              ("each once", lambda trips: all(trips[a] != trips[b] for b in range(len(trips)) for a in range(b))),
          ])})


@c.pre("different places")
def _(self):
    return all(self._trips[a].origin_position != self._trips[b].origin_position
               and self._trips[a].destination_position != self._trips[b].destination_position
               for b in range(len(self._trips)) for a in range(b))


@c.pre("no pickup is left twice")
def _(self, positions):
    return all(positions[a] != positions[b] or not any(positions[b] == t.origin_position for t in self._trips)
               for b in range(len(positions)) for a in range(b))


@c.post("requests of the job, picked up at the places given")
def _(self, positions, result):
    return all(any(t is o for o in self._trips) and any(p == t.origin_position for p in positions) for t in result)


@c.post("all of them")
def _(self, positions, result):
    return all(t in result for t in self._trips if any(p == t.origin_position for p in positions))


@c.post("each once")
def _(result):
    return all(result[a] != result[b] for b in range(len(result)) for a in range(b))


# -------------------------------------------------------------------------------------------------------------- the stops


def steps(route, positions):
    """It begins where the route does and goes on to another place every time."""
    return positions[0] == route.stops[0].position and all(positions[k] != positions[k - 1] for k in range(1, len(positions)))


def visited(route, positions, stops, i):
    return len(stops) == max(i, 1) and all(stops[k].position == positions[k] for k in range(1, i))


def begins(route, stops):
    return len(stops) >= 1 and stops[0] is route.stops[0]


def chained(stops):
    return all(stops[k].previous is stops[k - 1] for k in range(1, len(stops)))


def blank(route, stops):
    return all(is_new(stops[k]) and stops[k].vehicle is route.vehicle and stops[k]._starting_time is None
               and not any(True for _ in stops[k].pickup_planned_trips) and not any(True for _ in stops[k].delivery_planned_trips)
               for k in range(1, len(stops)))


def moving(stops):
    return all(stops[k].position != stops[k - 1].position for k in range(1, len(stops)))


def separate(stops):
    return all(stops[a] is not stops[b] for b in range(len(stops)) for a in range(b))


STOP_FIELDS = ("vehicle", "position", "previous", "pickup_planned_trips", "delivery_planned_trips", "_starting_time")

c = R.add(M + "_positions_to_stops", props=["C18"], opaque=False, params=dict(route="ref:Route", positions="list:ref:GeometricPosition"),
          result="list:ref:Stop", loops={0: Invariant({"stops": some_stops}, [
              ("it begins with the first stop", begins), ("one after the other", chained), ("new ones, without trips", blank),
              ("each at another place than the one before", moving), ("a stop of its own each", separate),
              ("at the places seen", lambda route, positions, stops, i: visited(route, positions, stops, i) if steps(route, positions) else True),
          ], heap=[(f"Stop.{f}", new_one) for f in STOP_FIELDS])})


@c.pre("a route with a first stop")
def _(route):
    return len(route.stops) >= 1 and route.stops[0].previous is None


@c.pre("places")
def _(positions):
    return len(positions) >= 1


c.post("it begins with the first stop of the route")(lambda route, result: begins(route, result))
c.post("each stop comes after the one before")(lambda result: chained(result))
c.post("the others are new, of the vehicle of the route and without trips")(lambda route, result: blank(route, result))
c.post("no place twice in a row")(lambda result: moving(result))
c.post("all of them different")(lambda result: separate(result))


@c.post("one for each place, in the order given")
def _(route, positions, result):
    return visited(route, positions, result, len(positions)) if steps(route, positions) else True


# -------------------------------------------------------------------------------------------------------------- the times


def of_stops(each, stops):
    return any(each is s for s in stops)


of_stops.each = True

c = R.add(M + "_adjust_waiting_times", props=["C18"], opaque=False, params=dict(self=solved, stops="list:ref:Stop", k="int"),
          modifies=[("Stop._starting_time", of_stops)], loops={0: Invariant({}, [
              ("those seen start when the solution says", lambda self, stops, k, i: all(
                  stops[a]._starting_time == u(self, k, self._positions.index(stops[a].position)) for a in range(i))),
          ], heap=[("Stop._starting_time", of_stops)])})


@c.pre("a vehicle of the fleet")
def _(self, k):
    return 0 <= k < len(self._vehicles)


@c.pre("different stops at places of the model")
def _(self, stops):
    return separate(stops) and all(any(s.position == p for p in self._positions) for s in stops)


@c.post("every stop starts when the solution says")
def _(self, stops, k):
    return all(stops[a]._starting_time == u(self, k, self._positions.index(stops[a].position)) for a in range(len(stops)))


# ------------------------------------------------------------------------------------------------------ asking the solver

c = R.add(M + "_problem", props=["C18"], opaque=False)


@c.arrange
def _(eng):
    goal, limits = eng.fresh("num", "objective"), eng.fresh("list:bool", "constraints")
    self = a_model(eng, _objective=goal, _constraints=limits)

    def init(eng, obj, args, kwargs, node):
        given = dict(zip(("name", "sense"), args), **kwargs)
        obj.attrs["sense"] = given.get("sense", pulp.LpMinimize)
        obj.attrs["objective"] = None

    def extend(eng, obj, args, kwargs, node):
        eng.effect("extend", args, kwargs)

    cls = unknown_class("Problem", __init__=init, extend=extend)
    eng.class_hooks[pulp.LpProblem] = lambda eng, args, kwargs, node: eng.instantiate(cls, list(args), dict(kwargs))
    return [self], {}, {"self": self, "_goal": goal, "_limits": limits}


@c.check("the least cost, within all constraints")
def _(eng, b, result):
    attrs = eng.deref(result).attrs
    eng.oblige(z3.BoolVal(attrs["sense"] == pulp.LpMinimize), "the least")
    eng.oblige(eng.eq(attrs["objective"], b["_goal"]), "of the objective")
    ok = [e[0] for e in eng.trace] == ["extend"] and len(eng.trace[0][1]) == 1 and not eng.trace[0][2]
    eng.oblige(z3.BoolVal(ok), "one set of constraints")
    if ok:
        eng.oblige(eng.eq(B.list_of(eng, eng.trace[0][1][0]), B.list_of(eng, b["_limits"])), "the constraints of the model")


@B.model(pulp.value)
def m_value(eng, args, kwargs, node):
    return args[0]


c = R.add(M + "solve", props=["C18"], opaque=False, views={
    M + "_validate": lambda eng, args, kwargs, node: None,
    M + "_solution_to_routes": lambda eng, args, kwargs, node: (eng.effect("decode", args[1:], kwargs), eng.ghosts["_routes"])[1],
})


@c.arrange
def _(eng):
    routes, solver = eng.fresh("set:ref:Route", "routes"), eng.fresh("ref:Trip", "solver")
    problem = Facade("problem", {"solve": method(lambda eng, args, kwargs, node: eng.effect("solve", args, kwargs)), "status": pulp.LpStatusOptimal})
    self = a_model(eng, _problem=problem, solver=solver, _objective=eng.fresh("num", "objective"))
    return [self], {}, {"self": self, "_routes": routes, "_solver": solver}


@c.check("solved once, by the solver asked for, and decoded then")
def _(eng, b, result):
    ok = [e[0] for e in eng.trace] == ["solve", "decode"]
    eng.oblige(z3.BoolVal(ok), "solved, then decoded")
    if ok:
        args = list(eng.trace[0][1]) + list(eng.trace[0][2].values())
        eng.oblige(z3.BoolVal(len(args) == 1) if len(args) != 1 else eng.identical(args[0], b["_solver"]), "by the solver asked for")
    eng.oblige(eng.identical(result, b["_routes"]), "the routes of the solution")


c = R.add("jinete.algorithms.exacts.milp:MilpAlgorithm._optimize", props=["C18"], opaque=False)


@c.arrange
def _(eng):
    routes = eng.fresh("set:ref:Route", "routes")
    job, fleet = a_job(eng), a_fleet(eng)

    def solve(eng, obj, args, kwargs, node):
        eng.effect("solve", args, kwargs)
        return routes

    model = unknown_class("AnyModel", __init__=lambda eng, obj, args, kwargs, node: eng.effect("new model", args, kwargs), solve=solve)
    solver = eng.fresh("ref:Trip", "solver")
    self = eng.instantiate(MilpAlgorithm, [], {"model_cls": model, "fleet": fleet, "job": job, "solver": solver})
    return [self], {}, {"self": self, "_routes": routes, "_given": {"fleet": fleet, "job": job, "solver": solver}}


@c.check("the plan of the routes of one model of the job and the fleet")
def _(eng, b, result):
    ok = [e[0] for e in eng.trace] == ["new model", "solve"]
    eng.oblige(z3.BoolVal(ok), "one model, solved once")
    if ok:
        (_, args, kwargs), given = eng.trace[0], b["_given"]
        eng.oblige(z3.BoolVal(not args and set(kwargs) == set(given)), "of the job, the fleet and the settings, by name")
        for k in sorted(set(kwargs) & set(given)):
            same = eng.deref(kwargs[k]) is given[k] if isinstance(given[k], EObj) else eng.identical(kwargs[k], given[k])
            eng.oblige(z3.BoolVal(same) if isinstance(same, bool) else same, f"the {k} given")
    ok = issubclass(result.cls, Planning)
    eng.oblige(z3.BoolVal(ok), "a plan")
    if ok:
        eng.oblige(eng.eq(B.m_set(eng, [eng.getattr(result, "routes")], {}, None), b["_routes"]), "of these routes")
