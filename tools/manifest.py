import json
PROVED = {
 "C01": "all 14 functions proved; math.sqrt/abs and the registration dictionary by library contracts, distance_to/time_to caching by the assumed heap-free wrappers whose bodies are proved separately",
 "C02": "all accessors of Trip/Pickup/Delivery proved over reals (floating-point rounding not modelled)",
 "C03": "every stop accessor proved for arbitrary predecessors",
 "C04": "local load equation proved for every stop; the 'on board' reading is the run-time contract (bounded) summed along generated routes",
 "C05": "both directions of every verdict proved for routes of any length",
 "C06": "edits proved to clear or rewrite every cache that depends on the edited state, for routes of any length, plus two frame lemmas; induction along the route is a meta-argument in DESIGN.md; equality with a rebuilt route is re-checked at run time (bounded)",
 "C07": "edits proved for routes of any length (remove_stop_at for the first and inner stops, insertion everywhere but after the last stop, remove_trip for trips with two inner stops; rest bounded)",
 "C08": "RouteCloner, deep copies of routes and plans, sharing of requests/places/vehicles proved for routes of any length; copy.deepcopy of stops and planned trips by the library's contract (field by field, each object once); equality of derived values by two lemmas per stop (induction along the stops is the meta-argument; equal load sums of equal request sets assumed), re-checked at run time (bounded)",
 "C09": "building, timing and filtering of candidates proved for any route, trip and places: the candidate is the route plus the trip with both stops linked in, offered only if feasible where that is asked for, the route given unchanged; the strategies try only valid pairs of places; copies and insertions by the contracts of C08 and C06/C07; that ride-time repairs help is not claimed",
 "C10": "the main loop, opening, accepting and all three iterators' books and proposals proved for any jobs, fleets, strategies and numbers of iterations; a route is described by its planned trips and its feasibility, candidates by the insertion strategy's contract (C09), criteria by a score (C13); that proposals of the strategies are such candidates is C09",
 "C11": "reallocation and one-shift proved for any feasible results, numbers of routes and orders of trying: each step keeps one route per vehicle and the same trips, leaves the given routes alone and never lowers the objective; copies, removals and insertions by the contracts of C08, C07 and C09, objective values by their order; stops serve one request each; the loop of LocalSearchAlgorithm is proved under C14; 2-opt stays bounded",
 "C12": "proved for every route, plan and candidate list length",
 "C13": "proved for every list of routes; sorted/heapq/max contracts trusted",
 "C14": "iterative, sequential and local-search searches proved for any number of runs and any algorithms given as settings; assumes a run does not change the results of earlier runs",
 "C15": "formatters and file loader proved for any number of rows; a position with exactly the given coordinates by the contract of Surface.get_or_create_position (C01)",
 "C16": "formatters and file loader proved for any number of rows; a position with exactly the given coordinates by the contract of Surface.get_or_create_position (C01)",
 "C17": "both formats and all storers proved for any plan and any format; layout is part of the contract; text rendering of numbers by uninterpreted format functions",
 "C18": "variables, costs, objective and all four families of constraints proved equal to the documented formulas for any numbers of vehicles and requests, with lemmas on what they force for consecutive and other places (linear expressions stand for their values under an arbitrary assignment); reading a solution proved up to the places, requests, stops and times of each vehicle, the problem handed to the solver and the plan returned; putting them together into planned trips and routes stays bounded; that formulas of this form describe exactly the legal tours is argued in DESIGN.md and checked (bounded) at run time",
 "C19": "solver, dispatchers and algorithm wrapper proved for unknown loaders, algorithms and storers; time.time() assumed not to go back",
 "C20": "proved for every n and size except termination of random sampling",
 "C21": "proved for routes and plans of any length",
 "C22": "edges, nodes, labels, colours and the graph made of them proved for any routes and requests (dictionaries keyed by places as logs of what was written, the library's graph and palette by contract); what is then shown is that graph; that the drawing library is given all of it is checked at run time (bounded)",
}
m={"version":1,"setup_cmd":"python3-vt -c 'import z3' && python3 check.py --help >/dev/null","checks":[],"not_applicable":[]}
for k in range(1,23):
    p=f"C{k:02d}"
    ok=p in PROVED
    m["checks"].append({"property":p,"quick_cmd":f"VERIF_TIER=quick python3 check.py --property {p}","thorough_cmd":f"VERIF_TIER=thorough python3 check.py --property {p}",
     "technique":"contracts on the real code discharged by a deductive verifier (pyvc, z3/cvc5); refuted obligations replayed at run time" if ok else "contracts on the real code evaluated at run time (bounded stand-in)",
     "level":"proof" if ok else "exploration","level_note":PROVED.get(p,"bounded: contracts evaluated on generated inputs")})
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
