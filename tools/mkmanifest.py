"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V, M, LP, CS, SG, SB = ("vrpy/vrp.py", "vrpy/master_solve_pulp.py", "vrpy/subproblem_lp.py", "vrpy/subproblem_cspy.py",
                        "vrpy/subproblem_greedy.py", "vrpy/subproblem.py")
CW, GR, CK, PP, SC, HH, RM = ("vrpy/clarke_wright.py", "vrpy/greedy.py", "vrpy/checks.py", "vrpy/preprocessing.py",
                              "vrpy/schedule.py", "vrpy/hyper_heuristic.py", "vrpy/restricted_master_heuristics.py")
I, CF, H = "inputs", "configurations", "histories"
P = []


def p(id, title, statement, over, text, why, mech, observe=None):
    files = []
    ms = []
    for name, where in mech:
        f = where.split(":")[0]
        if f not in files:
            files.append(f)
        ms.append({"name": name, "where": where})
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": ms, "observe_at": observe or ["best_routes"],
                          "hook_needed": None}})


p("C01", "Load capacity of every returned route",
  "When a load capacity is given, no returned route ever carries more than the capacity of the vehicle type "
  "assigned to it, whichever pricing algorithm or initial heuristic produced the route. With pickup and delivery or "
  "with distribution and collection the bound applies to the peak load along the route, and with a mixed fleet to the "
  "capacity of the route's own type.",
  [I, CF], "all graphs, demands, capacities, fleets and combinations of solve options",
  "tests compare the optimum of a dozen small graphs; the bound must hold for every instance and for each of the "
  "independent places (LP, labelling, greedy pricing, Clarke-Wright, greedy, seed routes) that can create a route",
  [("knapsack / load constraints of the pricing LP", LP + ":_add_max_load"), ("resource bound of the labelling", CS + ":add_max_load"),
   ("capacity tests of the greedy pricing", SG + ":_check_capacity"), ("capacity tests of the heuristics", CW + ":_constraints_met"),
   ("", GR + ":_check_capacity"), ("vehicle type of a seed route", V + ":_convert_initial_routes_to_digraphs")],
  ["best_routes", "best_routes_load", "best_routes_type", "node_load"])
p("C02", "Maximum number of stops of every returned route",
  "When a maximum number of stops is given, no returned route visits more customers than that, whichever algorithm "
  "produced it, and routes with exactly that many customers stay allowed.",
  [I, CF], "all graphs, stop limits and combinations of solve options",
  "one instance with a limit of three stops is tested per algorithm; off-by-one slips that only bind for other limits, "
  "types or options pass",
  [("edge-count constraint of the pricing LP", LP + ":_add_max_stops"), ("resource bound of the labelling", CS + ":add_max_stops"),
   ("greedy pricing", SG + ":solve"), ("Clarke-Wright merges", CW + ":_constraints_met"), ("greedy construction", GR + ":run")])
p("C03", "Maximum duration of every returned route",
  "When a duration is given, the travel times plus the service times along any returned route never exceed it, "
  "whichever algorithm produced the route, and user supplied seed routes that exceed it are never returned silently.",
  [I, CF], "all graphs, travel and service times, durations and combinations of solve options",
  "tests use one duration on one graph, mostly without service times",
  [("time constraint of the pricing LP", LP + ":_add_max_duration"), ("resource bound of the labelling", CS + ":add_max_duration"),
   ("greedy pricing", SG + ":_check_duration"), ("Clarke-Wright", CW + ":_added_time"), ("greedy construction", GR + ":_check_duration"),
   ("seed routes", V + ":_is_feasible")], ["best_routes", "best_routes_duration"])
p("C04", "Time windows are respected at every customer",
  "When time windows are active, every returned route has a schedule in which each customer is reached within its "
  "window, counting travel and service times and waiting for a window to open. This holds for both pricing algorithms.",
  [I, CF], "all graphs, windows, travel/service times and both pricing algorithms",
  "the tests hold a few windows on small graphs and cannot enumerate the orderings in which a wrong propagation "
  "(no waiting, missing service time, weak big-M) shows",
  [("time window constraints of the pricing LP", LP + ":_add_time_windows"), ("time resource of the labelling", CS + ":REF_fwd"),
   ("arc preprocessing", V + ":_remove_infeasible_arcs_time_windows"), ("seed routes", V + ":_is_feasible")],
  ["best_routes", "arrival_time"])
p("C05", "Pickup and delivery pairs share a route, pickup first",
  "With pickup and delivery, every returned route that visits a pickup visits its delivery later on the same route "
  "and vice versa, and the load picked up never exceeds the capacity. The mode is solved exactly and with the linear "
  "model, whatever strategy is asked for, and start solutions that ignore pairs are not used.",
  [I, CF], "all graphs with requests, all option combinations",
  "two small request graphs are tested",
  [("pairing, precedence and load constraints", LP + ":_add_pickup_delivery"), ("choice of the pricing algorithm", V + ":_def_subproblem"),
   ("consistency checks", CK + ":check_consistency"), ("start solution", V + ":_get_initial_solution")])
p("C06", "Simultaneous distribution and collection respects capacity",
  "With distribution and collection, the load on board (goods still to be delivered plus goods collected so far) is "
  "at most the capacity on every leg of every returned route, for both pricing algorithms.",
  [I, CF], "all demands, collects, capacities and both pricing algorithms",
  "one four-customer instance is tested; the binding leg depends on the order of visits",
  [("arc-load constraints", LP + ":_add_distribution_collection"), ("collect/deliver resources", CS + ":REF_fwd"),
   ("peak load of seed routes", V + ":_get_max_load")], ["best_routes", "node_load"])
p("C07", "Every returned route is a simple Source-to-Sink path of the graph",
  "Every returned route starts at the Source, ends at the Sink, follows arcs of the user's graph and visits no "
  "customer twice when elementary routes are asked for (or implied by another option). Stand-in columns that the "
  "algorithm uses internally never appear in the result.",
  [I, CF], "all graphs and option combinations",
  "tests look at a few solutions; sub-tours or non-elementary columns need particular dual values",
  [("flow conservation and elementarity", LP + ":_formulate"), ("path to route", CS + ":create_new_route"),
   ("greedy pricing", SG + ":_add_new_route"), ("heuristics", CW + ":_merge_route"), ("selected columns", V + ":_best_routes_as_node_lists")])
p("C08", "Each customer is served exactly as often as required",
  "In a returned solution every customer is visited exactly once (or exactly as often as its frequency says), and only "
  "customers reported as dropped are unvisited. The routes built by the start heuristics cover all customers as well, "
  "and a solution that leaves a customer uncovered is never reported.",
  [I, CF], "all graphs, frequencies, drop penalties and options",
  "tests check the objective of single instances; losing a customer needs a particular column pool",
  [("covering constraints", M + ":_add_set_covering_constraints"), ("column coefficients", M + ":_add_route_selection_variable"),
   ("selected routes", M + ":get_total_cost_and_routes"), ("start solutions", CW + ":_initialize_routes")],
  ["best_routes", "schedule", "_dropped_nodes"])
p("C09", "Fleet size limits and use of all vehicles",
  "With a limit on the number of vehicles (per type for a mixed fleet) a solution never uses more routes of a type "
  "than the limit, and when all vehicles must be used it uses exactly that many. Complete preassigned routes come on "
  "top of the limit.",
  [I, CF], "all limits, fleets and option combinations",
  "a handful of limits on one graph are tested",
  [("vehicle bound constraints", M + ":_add_bound_vehicles"), ("dummy routes", M + ":_add_vehicle_dummy_variables"),
   ("argument normalisation", V + ":_format")], ["best_routes", "best_routes_type"])
p("C10", "Dropped customers and their penalty",
  "With a drop penalty a customer may be left out only at the price of the penalty per customer, the reported value "
  "contains exactly penalty times the number of dropped customers, and the list of dropped customers is exactly the "
  "set of customers no route serves. Without a drop penalty nothing is dropped.",
  [I, CF], "all penalties, graphs and options",
  "one instance with penalty 20 is tested",
  [("drop variables", M + ":_add_drop_variables"), ("dropped nodes", M + ":get_total_cost_and_routes"), ("reported value", V + ":best_value")],
  ["best_value"])
p("C11", "Columns of the restricted master carry their route's true data",
  "Every column enters the restricted master with the cost of its route at the costs of its vehicle type, with exactly "
  "the customers the route visits, and counts against the fleet limit of its own type only.",
  [I, CF, H], "all routes generated during column generation",
  "objective tests only see columns that end up selected",
  [("column construction", M + ":_add_route_selection_variable"), ("route graphs", LP + ":_add_new_route"),
   ("", CS + ":create_new_route"), ("", SG + ":_add_new_route")], ["best_value", "best_routes"])
p("C12", "Pricing uses the right dual values and accepts only improving columns",
  "The reduced cost of a route is its cost minus the dual values of the customers it visits and of the fleet, "
  "stop-related and makespan constraints of its type, and a route is added exactly when its reduced cost is negative "
  "beyond the numerical tolerance. Dual values always come from the current relaxed master.",
  [I, CF, H], "all dual vectors and graphs",
  "a wrong dual slows down or stops column generation early, which small instances rarely show",
  [("reduced costs", SB + ":add_reduced_cost_attribute"), ("duals", M + ":get_duals"), ("acceptance", LP + ":solve"), ("", CS + ":solve"), ("", SG + ":solve")],
  ["best_value"])
p("C13", "Exact pricing excludes no feasible route",
  "Every route that satisfies the active constraints stays representable in the exact pricing problem of its vehicle "
  "type and heuristic strategies work on a reduced copy of the graph only. With a fixed strategy, column generation does "
  "not stop before the exact pricing of every vehicle type has failed (unless a time or iteration limit says so).",
  [I, CF, H], "all graphs, constraints and strategies",
  "over-tight constraints only show on instances whose optimum is cut off",
  [("LP constraints", LP + ":_formulate"), ("labelling resources", CS + ":formulate"), ("edge removal on a copy", SB + ":remove_edges_1"),
   ("strategy schedule", V + ":_get_next_pricing_strategy"), ("stopping rule", V + ":_find_columns")], ["best_value"])
p("C14", "Reported costs are the original costs of the returned routes",
  "The cost reported per route is the sum of the user's arc costs (plus the fixed cost) for the route's vehicle type, "
  "and the reported value is their sum (or their maximum when the longest route is minimised) plus drop penalties, "
  "also with preassigned routes, periodic planning or the heuristic-only mode.",
  [I, CF], "all solutions",
  "tests compare the value for a few configurations",
  [("reported cost", V + ":best_routes_cost"), ("reported value", V + ":best_value"), ("copy of the costs", V + ":_pre_solve")],
  ["best_value", "best_routes_cost"])
p("C15", "Reported loads and times describe the returned routes",
  "The reported load, load after each stop, duration, arrival and departure times of a route are those obtained by "
  "driving the returned route through the user's graph: travel times plus service times, waiting for windows to open. "
  "With distribution and collection the load after each stop is that of a vehicle that left the Source full.",
  [I, CF], "all solutions and options",
  "tests check two instances",
  [("load", V + ":best_routes_load"), ("load per node", V + ":node_load"), ("duration", V + ":best_routes_duration"),
   ("arrival", V + ":arrival_time"), ("departure", V + ":departure_time")],
  ["best_routes_load", "node_load", "best_routes_duration", "arrival_time", "departure_time"])
p("C16", "Periodic schedules",
  "With a planning period every customer is visited as many times as its frequency over the period, no customer twice "
  "on a day, every selected route is planned on exactly one day of the period (as often as it was selected), and the "
  "vehicle limit holds on each day. When no such schedule exists the reported schedule is empty.",
  [I, CF], "all periods, frequencies and fleets",
  "two instances are tested",
  [("schedule model", SC + ":_formulate"), ("routes per day", SC + ":routes_per_day"), ("frequency in the covering constraints", M + ":_add_set_covering_constraints")],
  ["schedule", "best_routes"])
p("C17", "Preassigned routes are honoured",
  "A complete preassigned route appears unchanged in the solution with a vehicle type that can carry it, its customers "
  "are not served again, and its cost is part of the reported value, in every solution mode.",
  [I, CF], "all preassignments and modes",
  "three preassignments on one graph are tested",
  [("locking", V + ":_lock"), ("merging", V + ":_merge_preassigned_routes"), ("validation", CK + ":check_preassignments")],
  ["best_routes", "best_value", "best_routes_type"])
p("C18", "Malformed graphs are rejected",
  "A graph that is not directed, lacks a Source or a Sink, has arcs into the Source or out of the Sink, offers no path "
  "from Source to Sink or has an arc without cost is rejected with an error. A customer without an arc from the Source "
  "or to the Sink gets a prohibitively expensive one, and any other well-formed graph is accepted unchanged.",
  [I], "all graphs", "only one graph per error is tested",
  [("graph validation", CK + ":check_vrp")], ["VehicleRoutingProblem(...)"])
p("C19", "Inconsistent arguments and infeasible data are rejected",
  "Arguments of a wrong type or range, contradictory options and instances with a customer no vehicle can serve are "
  "rejected with an error before any computation, and consistent arguments are accepted.",
  [I, CF], "all argument combinations", "tests sample one value per argument",
  [("arguments", CK + ":check_arguments"), ("consistency", CK + ":check_consistency"), ("feasibility", CK + ":check_feasibility"),
   ("call sites", V + ":_pre_solve")], ["solve"])
p("C20", "No result is reported from an unsolved model",
  "When the underlying solver ends without an optimal or feasible answer, an error is raised or the previous feasible "
  "state is kept; values of an unsolved model are never reported as a solution and stand-in columns never stand for a "
  "solution.",
  [I, CF, "fault_sequences"], "all solver outcomes at every solve",
  "solver failures do not occur in tests",
  [("master status", M + ":_solve"), ("pricing status", LP + ":solve"), ("schedule status", SC + ":_solve"), ("selected columns", V + ":_best_routes_as_node_lists")],
  ["solve", "best_routes"])
p("C21", "Solving leaves the input alone and repeated solves are independent",
  "Solving never changes the user's graph, routes, lists or parameters, and the result of a solve depends only on the "
  "problem and the arguments of that call, not on earlier calls on the same object.",
  [H, I], "all sequences of solve calls", "tests solve once per object",
  [("state reset", V + ":solve"), ("working copy", V + ":_pre_solve"), ("copies in pricing", SB + ":remove_edges_1"), ("copies in heuristics", CW + ":__init__")],
  ["solve", "best_routes", "G"])
p("C22", "Problem instances are isolated from each other",
  "No mutable state is shared between problem objects, solves or vehicle types: creating or solving one instance never "
  "changes the behaviour of another.",
  [H, CF], "all sequences of operations on several objects", "tests use one object at a time",
  [("constructors", V + ":__init__"), ("", RM + ":__init__"), ("", M + ":__init__"), ("", HH + ":__init__")], ["solve"])
p("C23", "The time limit reaches every solver call",
  "When a time limit is given, every call of an underlying solver gets at most the time that remains, no new iteration "
  "starts after the limit, and without a limit no bound is imposed.",
  [I, CF, H], "all limits and all solver calls", "one test with one limit",
  [("remaining time", V + ":_get_time_remaining"), ("master", M + ":_solve"), ("pricing", LP + ":_solve"), ("", CS + ":solve"), ("schedule", SC + ":_solve")],
  ["solve", "comp_time"])
p("C24", "The chosen solver is used everywhere",
  "The solver chosen by the user is the one used for the master problem, for the pricing problems and for the "
  "schedule; an unknown solver name is rejected.",
  [CF], "all solver names and models", "commercial solvers are not installed for the tests",
  [("master", M + ":_solve"), ("pricing", LP + ":_solve"), ("schedule", SC + ":_solve"), ("forwarding", V + ":_def_subproblem")], ["solve"])
p("C25", "Heuristics that ignore an active constraint are not used",
  "Start, pricing or stand-alone heuristics that do not know an active constraint are either refused with an error or "
  "skipped in favour of a method that does.",
  [CF], "all option combinations", "tests sample a few combinations",
  [("Clarke-Wright compatibility", CK + ":check_clarke_wright_compatibility"), ("start solution", V + ":_get_initial_solution"), ("greedy pricing", V + ":_find_columns")],
  ["solve", "best_routes"])
p("C26", "Fixed costs are charged once per used vehicle",
  "A fixed cost is charged exactly once per route, at the amount of the route's vehicle type, and not at all for "
  "vehicles that stay unused.",
  [I, CF], "all fixed costs and fleets", "two instances are tested",
  [("fixed costs on leaving arcs", V + ":_add_fixed_costs"), ("formatting", V + ":_format")], ["best_value", "best_routes_cost"])
p("C27", "Preprocessing removes only what no feasible route can use",
  "Preprocessing and attribute completion never remove an arc, tighten a bound or change a value so that a feasible "
  "route becomes infeasible or an infeasible one feasible; missing attributes count as zero.",
  [I, CF], "all graphs and constraints", "tests cover four customers",
  [("arc removal", V + ":_remove_infeasible_arcs_capacities"), ("", V + ":_remove_infeasible_arcs_time_windows"), ("stop bound", PP + ":get_num_stops_upper_bound"), ("defaults", V + ":_set_zero_attributes")],
  ["best_routes", "best_value"])
p("C28", "The diving heuristic is safe",
  "Diving only guides the generation of columns: it leaves the master problem's variables as they were, terminates, "
  "and the returned solution is an integral selection of routes.",
  [I, CF, H], "all relaxations reached while diving", "one dive run per test graph",
  [("diving", RM + ":run_dive"), ("use", M + ":solve_and_dive"), ("", V + ":_solve")], ["best_routes"])
p("C29", "The hyper-heuristic always runs a valid strategy on sane statistics",
  "The strategy selector always picks one of the available strategies, its statistics and scores stay well defined for "
  "every history of runs, and the documented acceptance and performance rules are the ones in force.",
  [H, CF], "all histories of runs", "one run per configuration is tested",
  [("selection", HH + ":pick_heuristic"), ("performance", HH + ":current_performance"), ("acceptance", HH + ":move_acceptance"), ("use", V + ":_get_next_pricing_strategy")],
  ["solve"])
p("C30", "Minimising the global span",
  "When the global span is minimised the value minimised and reported is the cost of the most expensive route, and "
  "every route in the solution is bounded by it.",
  [I, CF], "all graphs", "one instance is tested",
  [("makespan variable", M + ":_add_makespan_variable"), ("makespan constraints", M + ":_add_maximum_makespan_constraints"), ("reported value", V + ":best_value")], ["best_value"])
p("C31", "Start solutions are feasible and complete",
  "The routes column generation starts from cover every customer, follow existing arcs, satisfy capacity, stop and "
  "duration limits and are assigned a vehicle type that can drive them; user routes are taken over unchanged. Where a "
  "start heuristic cannot guarantee this it is replaced or its routes are only stand-ins that cannot be returned.",
  [I, CF], "all graphs and options", "start heuristics are tested on one graph",
  [("start solution", V + ":_get_initial_solution"), ("Clarke-Wright", CW + ":run"), ("greedy", GR + ":run"), ("vehicle type", V + ":_convert_initial_routes_to_digraphs")],
  ["best_routes"])

NA = [
    ("C32", "Optimality of the returned value", "Without limits, the returned value equals the optimum over all feasible sets of routes that column generation can reach.",
     "the value is the outcome of iterated LP/MIP solves; no static argument over the source bounds it. The parts that are facts of the code (columns, duals, constraints, stopping rule) are C11-C13."),
    ("C33", "Both pricing algorithms give the same value", "The labelling algorithm and the linear model lead to the same value on every instance.",
     "relates two numerical search procedures (one in an external library) through their runtime results; their constraint sets are compared with one reference in C01-C06 and C13 instead."),
    ("C34", "Termination and wall-clock bound", "Every solve ends, and with a time limit soon after it.",
     "depends on solver run times and on the number of columns with negative reduced cost, runtime quantities; what is static (limit forwarding, loop exits on the limit) is C23."),
    ("C35", "Reproducible results", "Two runs on the same data return the same value.",
     "depends on solver tie-breaking, hash order and time-based scores at run time."),
    ("C36", "Schedules are as balanced as possible", "The longest day of the schedule is as short as possible.",
     "optimality of a MIP solution, a runtime quantity; the model's constraints and objective are compared in C16."),
    ("C37", "The lower bound is valid", "The relaxed value recorded at convergence bounds the integer optimum from below.",
     "depends on numerical convergence of the solver, a runtime quantity."),
]
TECH = ("static summary equivalence: gated value-flow summaries of every unit, canonical value numbering and random "
        "interpretation of residual terms against a tagged reference model")
NOTE = ("Source-level, path- and input-insensitive to sampling: each tagged obligation (returned value, final state, solver "
        "constraint, raised error) of the current source has the same normal form as the reference's for all inputs, modulo "
        "the term rewriting rules; residual terms are separated by random interpretation (one-sided: it can miss, not "
        "invent, a difference). Trusts the reference model, the summariser and the documented behaviour of networkx, PuLP "
        "and cspy; code outside the analysed language is counted as undecided and raises no alarm.")
EXTRA = {"C17": " Known finding: partial preassignments are only encouraged, not enforced.",
         "C13": " Known finding: duration combined with time windows in the labelling algorithm."}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            fh.write(json.dumps(x) + "\n")
        for id, title, st, why in NA:
            fh.write(json.dumps({"id": id, "title": title, "statement": st,
                                 "quantifier": {"over": ["inputs"], "text": "all instances"},
                                 "why_tests_cant": "sampled instances only",
                                 "anchors": {"files": [V], "mechanism": [{"name": "column generation", "where": V + ":_solve"}]}}) + "\n")
    man = {"version": 1, "setup_cmd": "true",
           "checks": [{"property": x["id"], "quick_cmd": "python3 check.py %s quick" % x["id"],
                       "thorough_cmd": "python3 check.py %s thorough" % x["id"], "technique": TECH, "level": "other",
                       "level_note": NOTE + EXTRA.get(x["id"], "")} for x in P],
           "not_applicable": [{"property": a, "reason": d} for a, b, c, d in NA],
           "notes": "No hooks: the checks read /repo's source and never import or run it. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
