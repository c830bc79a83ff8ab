"""C18: the linear model of the exact algorithm, and how its solutions are read.

A linear expression stands for its value under an arbitrary assignment of the solver's variables, and a linear constraint
for whether that assignment satisfies it: ``pulp``'s variables and expressions are numbers here, its comparisons truth
values.
"""
import pulp
import z3

from jinete.algorithms.exacts.models.three_index import ThreeIndexLinearModel
from jinete.models.positions import GeometricPosition
from jinete.models.trips import Trip
from jinete.models.vehicles import Vehicle
from pyvc import builtins_model as B
from pyvc.engine import as_parts, item
from pyvc.spec import R, engine_level
from pyvc.values import EObj, Ref, Unsupported, SNum, SSeq

from .c05_trips_routes import a_fleet, a_job

M = "jinete.algorithms.exacts.models.three_index:ThreeIndexLinearModel."
I, Real = z3.IntSort(), z3.RealSort()
X = z3.Function("x", I, I, I, Real)
U = z3.Function("u", I, I, Real)
W = z3.Function("w", I, I, Real)


@B.model(pulp.lpSum)
def lp_sum(eng, args, kwargs, node):
    return B.m_sum(eng, args, kwargs, node)


def a_model(eng, **attrs):
    trips, vehicles, positions = (eng.fresh(f"list:ref:{k}", n) for k, n in
                                  (("Trip", "trips"), ("Vehicle", "vehicles"), ("GeometricPosition", "positions")))
    m, p = vehicles.length, positions.length

    def table(f):
        return SSeq(m, lambda k: SSeq(p, lambda i: SNum(f(k, i)), "list"), "list")

    cube = SSeq(m, lambda k: SSeq(p, lambda i: SSeq(p, lambda j: SNum(X(k, i, j)), "list"), "list"), "list")
    return EObj(ThreeIndexLinearModel, {"job": a_job(eng), "fleet": a_fleet(eng), "solver": None, "_trips": trips, "_vehicles": vehicles,
                                        "_positions": positions, "_x": cube, "_u": table(U), "_w": table(W), **attrs})


def laid_out(self):
    """The places: the depot, the pickups, the deliveries, the depot."""
    n = len(self._trips)
    return (len(self._positions) == 2 * n + 2
            and self._positions[0] is self._vehicles[0].origin_position
            and self._positions[2 * n + 1] is self._vehicles[0].destination_position
            and all(self._positions[i] is self._trips[i - 1].origin_position for i in range(1, n + 1))
            and all(self._positions[i] is self._trips[i - n - 1].destination_position for i in range(n + 1, 2 * n + 1)))


def of_model(name, result, **k):
    params = dict(self=a_model, **k.pop("params", {}))
    c = R.add(M + name, params=params, result=result, props=["C18"], **k)

    @c.pre("a fleet")
    def _(self):
        return len(self._vehicles) >= 1

    @c.pre("the places are the depot, the pickups, the deliveries and the depot again")
    def _(self):
        return laid_out(self)

    return c


c = of_model("_trip_by_position_idx", "ref?:Trip", params=dict(idx="int"))


@c.pre("the index of a place")
def _(self, idx):
    return 0 <= idx < len(self._positions)


@c.post("the request served there, none at the depot")
def _(self, idx, result):
    n = len(self._trips)
    if idx == 0 or idx == 2 * n + 1:
        return result is None
    if idx <= n:
        return result is self._trips[idx - 1]
    return result is self._trips[idx - n - 1]


def request(self, idx):
    return self._trips[idx - 1] if idx <= len(self._trips) else self._trips[idx - len(self._trips) - 1]


def is_depot(self, idx):
    return idx == 0 or idx == 2 * len(self._trips) + 1


def is_pickup(self, idx):
    return 1 <= idx and idx <= len(self._trips)


def of_place(name, result):
    c = of_model(name, result, params=dict(idx="int"))

    @c.pre("the index of a place")
    def _(self, idx):
        return 0 <= idx < len(self._positions)

    return c


c = of_place("_time_window_by_position_idx", "tuple:(num,num)")


@c.pre("the places of a request are distinct")
def _(self):
    return all(trip.origin_position != trip.destination_position for trip in self._trips)


@c.post("the window of the pickup or delivery, the day at the depot")
def _(self, idx, result):
    if is_depot(self, idx):
        return result[0] == 0 and result[1] == 1440
    trip = request(self, idx)
    if is_pickup(self, idx):
        return result[0] == trip.origin_earliest and result[1] == trip.origin_latest
    return result[0] == trip.destination_earliest and result[1] == trip.destination_latest


c = of_place("_capacity_by_position_idx", "num")


@c.post("what comes on board: the load at pickups, minus the load at deliveries")
def _(self, idx, result):
    if is_depot(self, idx):
        return result == 0
    if is_pickup(self, idx):
        return result == request(self, idx).capacity
    return result == -request(self, idx).capacity


c = of_place("_load_time_by_position_idx", "num")


@c.post("the service time there")
def _(self, idx, result):
    if is_depot(self, idx):
        return result == 0
    if is_pickup(self, idx):
        return result == request(self, idx).origin_duration
    return result == request(self, idx).destination_duration


c = of_place("_timeout_by_position_idx", "num")


@c.post("the longest ride of the request")
def _(self, idx, result):
    if is_depot(self, idx):
        return result == 0
    return result == request(self, idx).timeout


# ------------------------------------------------------------------------------------------------------ constraints


def routes(self):
    return range(len(self._vehicles))


def places(self):
    return range(len(self._positions))


def x(self, k, i, j):
    return item(item(item(self._x, k), i), j)


def u(self, k, i):
    return item(item(self._u, k), i)


def w(self, k, i):
    return item(item(self._w, k), i)


def at_place(*names):
    """The answer of a helper proved above: some function of the place's index, asked for places only."""
    fns = [z3.Function(n, I, Real) for n in names]

    def view(eng, args, kwargs, node):
        self, idx = eng.deref(args[0]), (list(args[1:]) + list(kwargs.values()))[0]
        i = eng.znum(idx)
        eng.require(z3.And(0 <= i, i < self.attrs["_positions"].length), IndexError, "the index of a place", node)
        out = tuple(SNum(f(i)) for f in fns)
        return out if len(out) > 1 else out[0]

    return view


TRAVEL = z3.Function("travel", Ref, Ref, Real)
DISTANCE = z3.Function("distance", Ref, Ref, Real)


def between(f):
    def view(eng, args, kwargs, node):
        return SNum(f(eng.raw(args[0]), eng.raw((list(args[1:]) + list(kwargs.values()))[0])))

    return view


def constraints(name):
    return of_model(name, "list:bool", opaque=False, views={
        M + "_time_window_by_position_idx": at_place("earliest", "latest"),
        M + "_capacity_by_position_idx": at_place("load"),
        M + "_load_time_by_position_idx": at_place("service"),
        M + "_timeout_by_position_idx": at_place("ride"),
        "jinete.models.positions:GeometricPosition.time_to": between(TRAVEL),
    })


c = constraints("_uniqueness_constraints")


@c.post("each pickup is left exactly once; its vehicle, and no other, leaves the delivery")
def _(self, result):
    n = len(self._trips)
    return all(result) == (all(sum(x(self, k, i, j) for j in places(self) for k in routes(self)) == 1 for i in range(1, n + 1))
                           and all(sum(x(self, k, i, j) for j in places(self)) == sum(x(self, k, n + i, j) for j in places(self))
                                   for i in range(1, n + 1) for k in routes(self)))


c = constraints("_connectivity_constraints")


@c.post("every vehicle leaves the depot once, returns once, and leaves each other place as often as it comes there")
def _(self, result):
    n = len(self._trips)
    return all(result) == (all(sum(x(self, k, 0, j) for j in places(self)) == 1 for k in routes(self))
                           and all(sum(x(self, k, i, 2 * n + 1) for i in places(self)) == 1 for k in routes(self))
                           and all(sum(x(self, k, j, i) for j in places(self)) == sum(x(self, k, i, j) for j in places(self))
                                   for i in range(1, 2 * n + 1) for k in routes(self)))


def of_index(name):
    f = z3.Function(name, I, Real)

    def at(i):
        raise NotImplementedError

    B.model(at)(lambda eng, args, kwargs, node: SNum(f(eng.znum(args[0]))))
    return at


earliest, latest, load, service, ride = (of_index(n) for n in ("earliest", "latest", "load", "service", "ride"))


def travel(self, i, j):
    return item(self._positions, i).time_to(item(self._positions, j))


c = constraints("_time_constraints")


@c.post("a place visited right after another is reached after serving and travelling, with what is on board added up")
def _(self, result):
    return all(result) == (
        all(u(self, k, j) >= u(self, k, i) + service(i) + travel(self, i, j)
            - max(0, latest(i) + service(i) + travel(self, i, j) - earliest(j)) * (1 - x(self, k, i, j))
            for k in routes(self) for i in places(self) for j in places(self))
        and all(w(self, k, j) >= w(self, k, i) + load(j)
                - (item(self._vehicles, k).capacity + min(0, load(i))) * (1 - x(self, k, i, j))
                for k in routes(self) for i in places(self) for j in places(self)))


c = constraints("_feasibility_constraints")


@c.post("the limits of tours, windows, rides and loads")
def _(self, result):
    n = len(self._trips)
    return all(result) == (
        all(u(self, k, 2 * n + 1) - u(self, k, 0) <= item(self._vehicles, k).timeout for k in routes(self))
        and all(earliest(i) <= u(self, k, i) and u(self, k, i) <= latest(i) for k in routes(self) for i in places(self))
        and all(travel(self, i, n + i) <= u(self, k, n + i) - u(self, k, i) - service(i)
                and u(self, k, n + i) - u(self, k, i) - service(i) <= ride(i)
                for k in routes(self) for i in range(1, n + 1))
        and all(max(0, load(i)) <= w(self, k, i)
                and w(self, k, i) <= item(self._vehicles, k).capacity + min(0, load(i))
                for k in routes(self) for i in places(self)))


# ---------------------------------------------------------------------------------------------- places, costs, objective


c = R.add(M + "_positions", props=["C18"], opaque=False, params=dict(self=a_model), result="list:ref:GeometricPosition")


@c.pre("a fleet")
def _(self):
    return len(self._vehicles) >= 1


@c.post("the depot, the pickups, the deliveries and the depot again")
def _(self, result):
    n = len(self._trips)
    return (len(result) == 2 * n + 2 and result[0] is self._vehicles[0].origin_position
            and result[2 * n + 1] is self._vehicles[0].destination_position
            and all(result[i] is self._trips[i - 1].origin_position for i in range(1, n + 1))
            and all(result[i] is self._trips[i - n - 1].destination_position for i in range(n + 1, 2 * n + 1)))


c = of_model("_costs", "list:list:num", opaque=False, views={"jinete.models.positions:Position.distance_to": between(DISTANCE)})


@c.post("the distance between two places; standing still is prohibitively expensive, save for a vehicle that stays in its depot")
def _(self, result):
    last = len(self._positions) - 1
    return len(result) == len(self._positions) and all(
        len(result[i]) == len(self._positions)
        and all(result[i][j] == (10000 if self._positions[i] == self._positions[j] and not (i == 0 and j == last)
                                 else self._positions[i].distance_to(self._positions[j])) for j in places(self)) for i in places(self))


COST = z3.Function("cost", I, I, Real)


def with_costs(eng):
    self = a_model(eng)
    p = self.attrs["_positions"].length
    self.attrs["_costs"] = SSeq(p, lambda i: SSeq(p, lambda j: SNum(COST(i, j)), "list"), "list")
    return self


c = R.add(M + "_objective", props=["C18"], opaque=False, params=dict(self=with_costs), result="num")


@c.post("the cost of all moves")
def _(self, result):
    return result == sum(x(self, k, i, j) * item(item(self._costs, i), j) for k in routes(self) for i in places(self) for j in places(self))


FAMILIES = ("_uniqueness_constraints", "_connectivity_constraints", "_time_constraints", "_feasibility_constraints")
c = R.add(M + "_constraints", props=["C18"], opaque=False, result="list:bool",
          params=dict(self=lambda eng: a_model(eng, **{f: eng.fresh("list:bool", f) for f in FAMILIES})))


@c.post("all families of constraints")
def _(self, result):
    return all(result) == (all(self._uniqueness_constraints) and all(self._connectivity_constraints)
                           and all(self._time_constraints) and all(self._feasibility_constraints))


# what the formulas above mean for two places visited one after the other (x = 1), and for any other two (x = 0)


def timing(uj, ui, serving, going, latest_i, earliest_j, x):
    return uj >= ui + serving + going - max(0, latest_i + serving + going - earliest_j) * (1 - x)


def loading(wj, wi, load_j, capacity, load_i, x):
    return wj >= wi + load_j - (capacity + min(0, load_i)) * (1 - x)


@R.lemma("consecutive places: arriving after serving and travelling", ["C18"], uj="num", ui="num", serving="num", going="num", late="num", early="num")
def _(uj, ui, serving, going, late, early):
    return timing(uj, ui, serving, going, late, early, 1) == (uj >= ui + serving + going)


@R.lemma("other places: nothing but their windows", ["C18"], uj="num", ui="num", serving="num", going="num", late="num", early="num")
def _(uj, ui, serving, going, late, early):
    return timing(uj, ui, serving, going, late, early, 0) if ui <= late and uj >= early else True


@R.lemma("consecutive places: what is on board", ["C18"], wj="num", wi="num", load_j="num", load_i="num", capacity="num")
def _(wj, wi, load_j, load_i, capacity):
    return loading(wj, wi, load_j, capacity, load_i, 1) == (wj >= wi + load_j)


@R.lemma("other places: nothing but the limits of the vehicle", ["C18"], wj="num", wi="num", load_j="num", load_i="num", capacity="num")
def _(wj, wi, load_j, load_i, capacity):
    return loading(wj, wi, load_j, capacity, load_i, 0) if wi <= capacity + min(0, load_i) and wj >= max(0, load_j) else True


# -------------------------------------------------------------------------------------------------------- the variables


def a_variable(eng, args, kwargs, node):
    """``LpVariable``: the value of the variable of that name, an arbitrary one of its category and bounds.

    A name is a text with whole numbers in it; with texts other than digits between the numbers, equal names have equal numbers.
    """
    given = dict(zip(("name", "lowBound", "upBound", "cat"), args))
    given.update(kwargs)
    texts, numbers = [""], []
    for part in as_parts(given["name"]):
        if isinstance(part, str):
            texts[-1] += part
        elif part[0] == "f" and part[1] in ("", "d") and isinstance(part[2], SNum) and part[2].is_int:
            texts.append("")
            numbers.append(part[2].e)
        else:
            raise Unsupported("the name of a variable")
    if any(not t or t[0].isdigit() or t[-1].isdigit() or t[0] == "-" or t[-1] == "-" for t in texts[1:-1]) or (texts[0] and texts[0][-1] in "-0123456789") \
            or (texts[-1] and texts[-1][0].isdigit()):
        raise Unsupported("the name of a variable")
    low, up = (None if given.get(b) is None else str(eng.znum(given[b])) for b in ("lowBound", "upBound"))
    what = (given.get("cat", pulp.LpContinuous), low, up)
    return SNum(z3.Function(f"variable {what} {texts}", *[n.sort() for n in numbers], Real)(*numbers))


def declared(name, dimensions, what):
    def arrange(eng):
        self = a_model(eng)
        for table in ("_x", "_u", "_w"):
            del self.attrs[table]
        eng.class_hooks[pulp.LpVariable] = a_variable
        return [self], {}, {"self": self}

    c = R.add(M + name, props=["C18"], opaque=False)
    c.arrange(arrange)

    @c.check("a variable of its own for every vehicle and place" if dimensions == 2 else "a variable of its own for every vehicle and two places")
    def _(eng, binding, result):
        attrs = binding["self"].attrs
        sizes = [attrs["_vehicles"].length] + [attrs["_positions"].length] * (dimensions - 1)
        at = [z3.Const(f"at{k}", I) for k in range(dimensions)]
        other = [z3.Const(f"other{k}", I) for k in range(dimensions)]
        for k, n in zip(at, sizes):
            eng.fact(z3.And(0 <= k, k < n))
        v = result
        for k, n in zip(at, sizes):
            eng.oblige(eng.znum(eng.length(v)) == n, "one entry for each")
            v = B.getitem(eng, v, SNum(k), None)
        e = v.e
        if not (z3.is_app(e) and e.decl().name().startswith("variable ")):
            raise Unsupported("an entry that is not a variable")
        eng.oblige(z3.BoolVal(e.decl().name().startswith(f"variable {what} ")), "of the right kind")
        again = z3.substitute(e, *zip(at, other))
        same = [x == y for x, y in zip(e.children(), again.children())]
        eng.oblige(z3.Implies(z3.And(same), z3.And([x == y for x, y in zip(at, other)])), "of its own")
        if name == "_x":
            for table in ("_u", "_w"):
                v = eng.getattr(binding["self"], table)
                for k in at[:2]:
                    v = B.getitem(eng, v, SNum(k), None)
                named = [d.decl().name().split(") ")[-1] for d in (e, v.e)]
                eng.oblige(z3.BoolVal(named[0] != named[1]), "other names than the other tables")


declared("_x", 3, (pulp.LpBinary, None, None))
declared("_u", 2, (pulp.LpContinuous, "0", None))
declared("_w", 2, (pulp.LpContinuous, "0", None))
