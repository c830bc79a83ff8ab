"""C22: the graph that is drawn for a result.

The collections of routes and of requests are sets; the code only goes through them, in an order that is the set's own: here
they are lists in an arbitrary order.  Places are compared by their coordinates, as the code does.
"""
import networkx as nx
import seaborn as sns
import z3

from jinete.models.positions import GeometricPosition
from jinete.storers.plots.graph import GraphPlotStorer
from pyvc import builtins_model as B
from pyvc.logs import KLog, Record
from pyvc.spec import R
from pyvc.values import NULL, SV, Bnd, Branch, Builtin, EObj, Ref, SNum, SRef, SSeq, SStr, StrS, Unsupported
from pyvc.world import Facade

G = "jinete.storers.plots.graph:GraphPlotStorer."


@B.model(sns.husl_palette)
def palette(eng, args, kwargs, node):
    """As many colours as asked for, all different."""
    n = eng.znum(args[0])
    return SSeq(n, lambda i: SNum(i), "list")


def a_storer(eng):
    routes, trips = eng.fresh("list:ref:Route", "routes"), eng.fresh("list:ref:Trip", "trips")
    eng.class_hooks[dict] = lambda eng, args, kwargs, node: KLog()
    return EObj(GraphPlotStorer, {"file_path": None, "result": None, "vc routes": routes, "vc trips": trips})


VIEWS = {
    G + "_routes": lambda eng, args, kwargs, node: args[0].attrs["vc routes"],
    G + "_trips": lambda eng, args, kwargs, node: args[0].attrs["vc trips"],
}


def place(eng):
    return eng.fresh("ref:GeometricPosition", "place")


def one_after_the_other(route, a, b):
    return any(route.stops[i].position == a and route.stops[i + 1].position == b for i in range(len(route.stops) - 1))


c = R.add(G + "_generate_edges", params=dict(self=a_storer, _a=place, _b=place, _c=place, _d=place), result="any", props=["C22"], views=VIEWS)


@c.post("an edge exactly where some route visits the places one right after the other")
def _(self, _a, _b, result):
    return ((_a, _b) in result) == any(one_after_the_other(r, _a, _b) for r in self._routes)


@c.post("edges of one colour are those of one route")
def _(self, _a, _b, _c, _d, result):
    if (_a, _b) not in result or (_c, _d) not in result:
        return True
    if result[(_a, _b)]["color"] != result[(_c, _d)]["color"]:
        return True
    return any(one_after_the_other(r, _a, _b) and one_after_the_other(r, _c, _d) for r in self._routes)


def pairs_of_places(eng):
    """The edges: whatever pairs of places, each with some record."""
    return log_of(eng, 2, lambda eng, args: Record({"color": SNum(z3.Function("edge.color", Ref, Ref, z3.IntSort())(*args)), "label": ""}))


def log_of(eng, arity, value):
    ps = [z3.Const(f"place!{next(eng.counter)}", Ref) for _ in range(arity)]
    has = z3.Function(f"has!{next(eng.counter)}", *[Ref] * arity, z3.BoolSort())
    real = z3.And(has(*ps), *[p != NULL for p in ps])
    refs = tuple(SRef(p, GeometricPosition) for p in ps)
    binders = [Bnd(p, real if k + 1 == arity else z3.BoolVal(True), False) for k, p in enumerate(ps)]
    others = [z3.Const(f"place!{next(eng.counter)}", Ref) for _ in range(arity)]
    alike = z3.And(*[eng.eq(p, SRef(o, GeometricPosition)) for p, o in zip(refs, others)])
    eng.fact(z3.ForAll(ps + others, z3.Implies(z3.And(has(*ps), has(*others), alike), z3.And(*[p == o for p, o in zip(ps, others)])),
                       patterns=[z3.MultiPattern(has(*ps), has(*others))]))
    return KLog([Branch(binders, z3.BoolVal(True), (refs if arity > 1 else refs[0], value(eng, ps)))], apart=True)


def asked_for(trips, p):
    return any(t.origin_position == p or t.destination_position == p for t in trips)


c = R.add(G + "_generate_nodes", params=dict(self=a_storer, edges=pairs_of_places, _p=place), result="any", props=["C22"], views=VIEWS)


@c.post("a node for every place asked for or at an end of an edge, and no other")
def _(self, edges, _p, result):
    return (_p in result) == (asked_for(self._trips, _p) or any(e[0] == _p or e[1] == _p for e in edges.keys()))


@c.post("labelled as a pickup or delivery of a request at that place, blank when there is none")
def _(self, _p, result):
    if _p not in result:
        return True
    label = result[_p]["label"]
    if not asked_for(self._trips, _p):
        return label == ""
    return any(t.origin_position == _p and label == f"+{t.identifier}" or t.destination_position == _p and label == f"-{t.identifier}"
               for t in self._trips)


# ------------------------------------------------------------------------------------------------------- the graph drawn


class Attributes(SV):
    """The attributes of one node or edge: what ``update`` is given is written under its key."""

    __slots__ = ("view", "key")

    def __init__(self, view, key):
        self.view, self.key = view, key

    def vc_getattr(self, eng, name, node):
        if name != "update":
            raise Unsupported(f"attributes.{name}")
        return Builtin(name, lambda other: self.view.written.vc_setitem(eng, self.key, other, node))


class View(SV):
    """``graph.nodes`` or ``graph.edges``: what was added, and the attributes written since."""

    __slots__ = ("added", "written")

    def __init__(self):
        self.added, self.written = KLog(), KLog()

    def add(self, eng, keys):
        for b in eng.to_iter(keys).branches:
            self.added.log.items.append(("b", Branch(b.binders, b.guard, (b.value, Record({})))))

    def vc_contains(self, eng, x):
        return self.added.vc_contains(eng, x)

    def vc_getitem(self, eng, x, node):
        eng.require(self.added.vc_contains(eng, x), KeyError, "the node or edge is in the graph", node)
        return self.written.vc_getitem(eng, x, node) if eng.spec_mode else Attributes(self, x)


def a_graph(eng, args, kwargs, node):
    """networkx's directed graph, as far as the code uses it: adding an edge adds the nodes at its ends."""
    if args or kwargs:
        raise Unsupported("DiGraph with content")
    nodes, edges = View(), View()

    def add_edges(*a):
        for b in eng.to_iter(a[0]).branches:
            first, second = b.value
            edges.added.log.items.append(("b", Branch(b.binders, b.guard, (b.value, Record({})))))
            for end in (first, second):
                nodes.added.log.items.append(("b", Branch(b.binders, b.guard, (end, Record({})))))

    return Facade("graph", {
        "nodes": nodes, "edges": edges,
        "add_edges_from": lambda eng, node: Builtin("add_edges_from", add_edges),
        "add_nodes_from": lambda eng, node: Builtin("add_nodes_from", lambda keys: nodes.add(eng, keys)),
    })


B.model(nx.DiGraph)(a_graph)


def nodes_of(eng, edges):
    """Whatever ``_generate_nodes`` made of these edges: a node at each end of an edge, and others."""
    nodes = log_of(eng, 1, lambda eng, args: Record({"label": SStr([("s", z3.Function("node.label", Ref, StrS)(*args))])}))
    for b in edges.read(eng, "keys").branches:
        for end in b.value:
            eng.fact(eng.forall_branch(b, eng.in_scope(b, lambda: nodes.among(eng, nodes.log.items, end))))
    return nodes


def a_drawer(eng):
    self = a_storer(eng)
    edges = pairs_of_places(eng)
    return EObj(GraphPlotStorer, {**self.attrs, "vc edges": edges, "vc nodes": nodes_of(eng, edges)})


def the_nodes(eng, args, kwargs, node):
    self, edges = args
    if eng.deref(edges) is not self.attrs["vc edges"]:
        raise Unsupported("nodes of other edges")
    return self.attrs["vc nodes"]


c = R.add(G + "_generate_graph", params=dict(self=a_drawer, _a=place, _b=place), result="any", props=["C22"], views={
    **VIEWS,
    G + "_generate_edges": lambda eng, args, kwargs, node: args[0].attrs["vc edges"],
    G + "_generate_nodes": the_nodes,
})


@c.post("the edges are those of the plan")
def _(self, _a, _b, result):
    return ((_a, _b) in result.edges) == ((_a, _b) in self._generate_edges())


@c.post("coloured as they are")
def _(self, _a, _b, result):
    edges = self._generate_edges()
    return (_a, _b) not in edges or result.edges[(_a, _b)]["color"] == edges[(_a, _b)]["color"]


@c.post("the nodes are those of the plan")
def _(self, _a, result):
    return (_a in result.nodes) == (_a in self._generate_nodes(self._generate_edges()))


@c.post("labelled as they are")
def _(self, _a, result):
    nodes = self._generate_nodes(self._generate_edges())
    return _a not in nodes or result.nodes[_a]["label"] == nodes[_a]["label"]


# ---------------------------------------------------------------------------------------------------------- what is shown


def a_plotter(eng):
    self = a_storer(eng)
    return EObj(GraphPlotStorer, {**self.attrs, "vc graph": Facade("the graph", {})})


def shown(eng, args, kwargs, node):
    eng.effect("show", args[1:], kwargs)


c = R.add(G + "store", props=["C22"], opaque=False, views={
    G + "_generate_graph": lambda eng, args, kwargs, node: args[0].attrs["vc graph"],
    G + "_show_graph": shown,
})


@c.arrange
def _(eng):
    self = a_plotter(eng)
    return [self], {}, {"self": self}


@c.check("the graph made is shown, once")
def _(eng, b, result):
    ok = [e[0] for e in eng.trace] == ["show"]
    eng.oblige(z3.BoolVal(ok), "shown once")
    if ok:
        given = list(eng.trace[0][1]) + list(eng.trace[0][2].values())
        eng.oblige(z3.BoolVal(len(given) == 1 and eng.deref(given[0]) is b["self"].attrs["vc graph"]), "the graph made")
