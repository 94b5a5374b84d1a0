"""Declared sorts of the reference vocabulary (used only to draw well-typed interpretations)."""

NODE, NUM, NAT, BOOL = ("node",), ("num",), ("nat",), ("bool",)
GRAPH, RGRAPH = ("graph",), ("rgraph",)


def opt(s):
    return ("opt", s)


def lst(s, lo=0):
    return ("list", s, lo)


def mp(k, v):
    return ("map", k, v)


def pick(*v):
    return ("pick", v)


NODES_, PATH = lst(NODE), ("path",)
WALK = ("walk",)       # a path that may visit a customer repeatedly
PART = ("part",)       # a path, complete or partial
HEUR = pick("BestPaths", "BestEdges1", "BestEdges2", "Exact", "Hyper")
HEUR4 = pick("BestPaths", "BestEdges1", "BestEdges2", "Exact")
STATUS = pick(1, 1, 0, -1, -2, -3)
NEARINT = ("near",)
FRAC = ("frac",)       # a number, not always whole
SOLVER3 = pick("cbc", "cplex", "gurobi")
VT = pick(0, 0, 0, 1, 2)
HALF = ("half",)       # a path under construction
CUST = ("customers",)  # most customers
COSTS = lst(NAT, 3)

ATTR = {
    # nodes
    "i": NODE, "j": NODE, "v": NODE, "node": NODE, "new_node": NODE, "existing_node": NODE, "tail": NODE, "head": NODE,
    "_new_node": opt(NODE), "_last_node": NODE,
    "_processed_nodes": NODES_, "_unprocessed_nodes": NODES_, "_current_path": lst(NODE, 1), "path": opt(PATH),
    "_path": PATH,
    "dropped_nodes": NODES_, "_dropped_nodes": NODES_,
    # numbers
    "_weight": NUM, "_load": NUM, "_time": NUM, "_stops": NAT, "duration": opt(NUM), "num_stops": opt(NUM),
    "_max_num_stops": opt(NUM), "drop_penalty": opt(NUM), "total_cost": NUM, "_best_value": NUM, "periodic": opt(NAT),
    "_iteration": NAT, "_no_improvement": pick(0, 1, 999, 1000, 1001, 2), "max_iter": opt(NAT), "_max_iter": opt(NAT),
    "run_exact": NAT, "_run_exact": NAT, "_vehicle_types": pick(1, 1, 2, 3), "vehicle_types": pick(1, 1, 2, 3),
    "vehicle": VT, "vehicle_type": VT, "_lower_bound": lst(NUM, 1), "n_runs": NAT, "time_limit": opt(NUM), "_time_limit": opt(NUM),
    "_start_time": FRAC, "end_time": FRAC, "last_runtime": FRAC,
    "iteration": pick(0, 1, 2, 5, 9, 10, 11, 12, 15, 20, 21, 25, 30),
    "start_computing_average": pick(0, 1, 5, 10, 11, 20),
    "depth": NAT, "max_depth": NAT, "max_discrepancy": NAT, "status": STATUS, "_max_capacity": NUM, "max_capacity": NUM,
    # routes
    "_initial_routes": lst(PATH), "initial_routes": lst(PART), "_preassignments": lst(PART), "preassignments": lst(PART),
    "_best_routes": mp(NAT, PATH), "best_routes": mp(NAT, PATH), "routes": lst(RGRAPH, 1), "_routes": lst(RGRAPH),
    "_best_routes_as_graphs": lst(RGRAPH), "final_routes": lst(RGRAPH),
    "_route": mp(NODE, RGRAPH), "route": opt(RGRAPH), "new_route": opt(RGRAPH),
    "routes_with_node": mp(NODE, lst(RGRAPH)), "_routes_with_node": mp(NODE, lst(RGRAPH)),
    "_best_routes_vehicle_type": mp(NAT, NAT), "route_type": mp(NAT, NAT),
    "load_capacity": opt(lst(NUM, 3)), "num_vehicles": opt(lst(NAT)), "fixed_cost": opt(lst(NAT)),
    "_num_vehicles": opt(lst(NAT)), "num_vehicles_schedule": opt(lst(NAT)), "_num_vehicles_schedule": opt(lst(NAT)),
    # switches
    "relax": BOOL, "dive": BOOL, "greedy": BOOL, "_greedy": BOOL, "_dive": BOOL, "forward": BOOL, "elementary": BOOL,
    "use_all_vehicles": BOOL, "time_windows": BOOL, "pickup_delivery": BOOL, "distribution_collection": BOOL,
    "mixed_fleet": BOOL, "minimize_global_span": BOOL, "cspy": BOOL, "exact": BOOL, "run_subsolve": BOOL,
    "_more_routes": BOOL, "_heuristic_only": BOOL, "_cspy": BOOL, "_elementary": BOOL,
    "pricing_strategy": HEUR, "_pricing_strategy": HEUR, "solver": pick("cbc", "cplex", "gurobi", "other"), "_solver": pick("cbc", "cplex", "gurobi", "other"),
    "heuristic_points": mp(HEUR4, NUM), "tabu_list": lst(pick("a", "b", "c", "d")),
    "duals": mp(("dual",), NUM), "name": pick("a", "b", "c", "d", "non_a"),
    "constraints": mp(pick("visit_node_n1", "fix_visit_node_n1", "fix_a", "a", "visit_node_n2", "fix_visit_node_n2"), ("obj",)),
    "y": mp(NAT, ("obj",)),
    "current_heuristic": HEUR4, "heuristic_options": lst(HEUR4),
    "iterations": mp(HEUR4, NAT), "q": mp(HEUR4, NUM), "r": mp(HEUR4, NUM), "added_columns": mp(HEUR4, NAT), "exp": mp(HEUR4, NUM),
    "objective_decrease": mp(HEUR4, NUM), "norm_objective_decrease": mp(HEUR4, NUM), "norm_runtime": mp(HEUR4, NUM),
    "last_runtime_dict": mp(HEUR4, NUM), "active_columns": mp(HEUR4, NAT),
}

RET = {
    "_ClarkeWright._constraints_met": BOOL, "_Greedy._constraints_met": BOOL, "_SubProblemGreedy._constraints_met": BOOL,
    "VehicleRoutingProblem._is_feasible": BOOL, "VehicleRoutingProblem._get_max_load": NUM,
    "VehicleRoutingProblem._solve_subproblem_with_heuristic": BOOL, "VehicleRoutingProblem._attempt_solve_exact": BOOL,
    "VehicleRoutingProblem._attempt_solve_best_paths": BOOL, "VehicleRoutingProblem._attempt_solve_best_edges1": BOOL,
    "VehicleRoutingProblem._attempt_solve_best_edges2": BOOL,
    "VehicleRoutingProblem._get_next_pricing_strategy": HEUR, "VehicleRoutingProblem._get_time_remaining": opt(NUM),
    "VehicleRoutingProblem.best_routes": mp(NAT, PATH), "VehicleRoutingProblem.best_routes_cost": mp(NAT, NUM),
    "_SubProblemCSPY.create_new_route": RGRAPH,
}

UNIT = {
    "_ClarkeWright": {"load_capacity": opt(NUM), "num_stops": opt(NUM)},
    "_RoundTrip": {"load_capacity": opt(NUM)},
    "_Greedy": {"load_capacity": opt(NUM), "num_stops": ("opt8", pick(1, 2)), "_stops": pick(0, 1), "_new_node": NODE,
                "_unprocessed_nodes": CUST, "_current_path": HALF},
    "_ClarkeWright.__init__": {"load_capacity": ("alt", lst(NUM, 1), opt(NUM)), "num_stops": opt(NUM)},
    "_SubProblemGreedy": {"num_stops": ("opt8", pick(1, 2)), "_stops": pick(0, 1), "_new_node": ("opt8", NODE), "_unprocessed_nodes": CUST,
                          "_current_path": HALF},
    "_MyREFCallback": {"fwd_resources": lst(NUM, 6), "bwd_resources": lst(NUM, 6), "cumul_res": lst(NUM, 6), "_T": NUM, "_resources": lst(NODE, 6)},
    "_Greedy.__init__": {"load_capacity": ("alt", lst(NUM, 1), opt(NUM))},
    "_SubProblemCSPY": {"total_cost": opt(NUM), "path": WALK},
    # the master has rejected an unknown solver before these two are reached
    "_SubProblemLP": {"solver": SOLVER3},
    "_Schedule": {"solver": SOLVER3, "y": mp(NAT, mp(NAT, ("obj",))), "time_span": NAT, "routes": mp(NAT, PATH), "num_vehicles": opt(lst(NAT, 2)), "periodic": NAT},
    "_LPNode": {"tabu_list": opt(lst(pick("a", "b", "c", "d")))},
    "VehicleRoutingProblem._add_fixed_costs": {"fixed_cost": lst(NAT, 3)},
    "VehicleRoutingProblem._format": {"num_vehicles": ("alt", lst(NAT), NAT), "fixed_cost": ("alt", lst(NAT), NAT),
                                      "load_capacity": ("alt", lst(NAT), opt(NAT))},
    "VehicleRoutingProblem.__init__": {"num_vehicles": ("alt", lst(NAT), opt(NAT)), "fixed_cost": ("alt", lst(NAT), opt(NAT))},
    "check_arguments": {"num_vehicles": opt(lst(NAT)), "fixed_cost": ("alt", lst(NAT), NAT), "load_capacity": opt(lst(NAT)),
                        "pricing_strategy": pick("BestPaths", "BestEdges1", "BestEdges2", "Exact", "Hyper", "other", "best"),
                        "vehicle_types": NAT, "route": PATH},
    "VehicleRoutingProblem._is_feasible": {"route": PATH}, "VehicleRoutingProblem._get_max_load": {"route": PATH},
    "_MasterSolvePulp._formulate": {"routes": lst(RGRAPH)},
    "check_preassignments": {"routes": lst(PART)},
}

OTHER = {
    ("mcall", "solve"): ("obj",), ("mcall", "solve_and_dive"): ("obj",),
    ("item", ("mcall", "solve"), 0): lst(RGRAPH, 1),
    ("item", ("mcall", "solve"), 1): BOOL,
    ("item", ("mcall", "solve_and_dive"), 1): NUM,
    ("lpval",): ("opt8", NEARINT),
    ("na", "request"): NODE, ("na", "demand"): FRAC, ("na", "collect"): FRAC, ("fleet duals",): mp(NAT, NUM),
}

SCALAR_COST = {"check_arguments", "VehicleRoutingProblem._format", "_ClarkeWright._format_cost", "_Greedy._format_cost"}


def sort_of(sh, q=""):
    k = sh[0]
    if k == "attr":
        for key in (q, q.rpartition(".")[0]):
            r = UNIT.get(key, {}).get(sh[1])
            if r is not None:
                return r
        return ATTR.get(sh[1])
    if k == "ret":
        return RET.get(sh[1])
    if k in ("el", "val"):
        b = sort_of(sh[1], q)
        while b is not None and b[0] in ("opt", "alt"):
            b = b[1]
        if b is None:
            return OTHER.get(sh)
        if b[0] == "list":
            return b[1]
        if b[0] in ("path", "part", "walk"):
            return NODE
        if b[0] == "map":
            return b[1] if k == "el" else b[2]
        return None
    if k in ("na", "na0") and not isinstance(sh[1], str):
        n = sh[1].args[0] if hasattr(sh[1], "args") else sh[1]
        return OTHER.get(("na", n)) if k == "na" else None
    if k == "ea":
        n = sh[1].args[0] if hasattr(sh[1], "args") else sh[1]
        if n == "cost":
            return ("alt", NUM, COSTS) if q in SCALAR_COST else COSTS if not q.startswith(("_ClarkeWright", "_Greedy")) else NUM
        return NUM if n == "weight" else None
    if k == "ga":
        n = sh[1].args[0] if hasattr(sh[1], "args") else sh[1]
        if n == "vehicle_type":
            return VT
        if n == "name":
            return ("rname",)
        if n in ("cost", "load", "time"):
            return NUM
    return OTHER.get(sh)
