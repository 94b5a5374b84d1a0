import sys
import logging
from time import time
from typing import List, Union
from networkx import DiGraph, shortest_path, shortest_path_length
from vrpy.greedy import _Greedy
from vrpy.schedule import _Schedule
from vrpy.subproblem_lp import _SubProblemLP
from vrpy.subproblem_cspy import _SubProblemCSPY
from vrpy.hyper_heuristic import _HyperHeuristic
from vrpy.master_solve_pulp import _MasterSolvePulp
from vrpy.subproblem_greedy import _SubProblemGreedy
from vrpy.preprocessing import get_num_stops_upper_bound
from vrpy.clarke_wright import _ClarkeWright, _RoundTrip
from vrpy.checks import check_arguments, check_consistency, check_feasibility, check_initial_routes, check_vrp, check_pickup_delivery_time_windows, check_periodic_num_vehicles, check_clarke_wright_compatibility, check_preassignments
logger = logging.getLogger(__name__)
logging.basicConfig(level=logging.INFO, stream=sys.stdout)

class VehicleRoutingProblem:

    def __init__(self, G, num_stops=None, load_capacity=None, duration=None, time_windows=False, pickup_delivery=False, distribution_collection=False, drop_penalty=None, fixed_cost=0, num_vehicles=None, use_all_vehicles=False, periodic=None, mixed_fleet=False, minimize_global_span=False):  #@ C21 C22 C19 C08 C14 C17
        self.G = G
        self._input_graph = G
        self.num_stops = num_stops  #@ C02
        self.load_capacity = load_capacity  #@ C01
        self.duration = duration  #@ C03
        self.time_windows = time_windows  #@ C04
        self.pickup_delivery = pickup_delivery  #@ C05
        self.distribution_collection = distribution_collection  #@ C06
        self.drop_penalty = drop_penalty  #@ C10
        self.fixed_cost = fixed_cost  #@ C26
        self.num_vehicles = num_vehicles if num_vehicles is not None else []  #@ C09
        self._num_vehicles = None  #@ C09
        self._num_vehicles_schedule = None  #@ C09
        self.use_all_vehicles = use_all_vehicles  #@ C09
        self.periodic = periodic  #@ C16
        self.mixed_fleet = mixed_fleet
        self.minimize_global_span = minimize_global_span  #@ C30
        self.masterproblem: _MasterSolvePulp = None
        self.hyper_heuristic: _HyperHeuristic = None
        self.routes: List = []
        self.comp_time = None
        self._solver: str = None
        self._time_limit: int = None
        self._pricing_strategy: str = None
        self._cspy: bool = None
        self._elementary: bool = None
        self._dive: bool = None
        self._greedy: bool = None
        self._max_iter: int = None
        self._run_exact = None
        self._start_time = None
        self._more_routes = None
        self._iteration = 0
        self._no_improvement = 0
        self._lower_bound = []
        self._max_capacity: int = None
        self._max_num_stops: int = None
        self._vehicle_types: Union[List, int] = None
        self._initial_routes = []
        self._preassignments = []
        self._dropped_nodes = []
        self._best_value = None
        self._best_routes = []
        self._best_routes_as_graphs = []
        self._schedule: _Schedule = None
        check_vrp(self.G)  #@ C18

    def solve(self, initial_routes=None, preassignments=None, pricing_strategy='BestEdges1', cspy=True, elementary=False, time_limit=None, solver='cbc', dive=False, greedy=False, max_iter=None, run_exact=1, heuristic_only=False):  #@ C21 C17 C13 C23 C24 C28 C29 C25 C19 C31 C01 C02 C03 C04 C05 C06 C08 C09 C14 C16 C18 C20 C26 C27 C30
        self._more_routes = True
        self._solver = solver
        self._time_limit = time_limit
        self._pricing_strategy = pricing_strategy
        self._cspy = cspy
        self._elementary = elementary if not dive else True  #@ C07
        self._dive = False
        self._greedy = greedy
        self._max_iter = max_iter
        self._run_exact = run_exact
        self._heuristic_only = heuristic_only
        self.hyper_heuristic = _HyperHeuristic() if self._pricing_strategy == 'Hyper' else None
        self._start_time = time()
        self.G = self._input_graph.to_directed()
        self._preassignments = preassignments if preassignments else []
        self._initial_routes = initial_routes if initial_routes else []
        self._iteration = 0
        self._no_improvement = 0
        self._lower_bound = []
        self._dropped_nodes = []  #@ C10
        self._best_routes_as_graphs = []
        if not self.mixed_fleet:
            self._format()
        self._pre_solve()
        if self._heuristic_only:
            self._solve_with_clarke_wright()
        else:
            self._initialize(solver)
            self._solve(dive, solver)

    @property
    def best_routes_type(self):  #@ C14 C15 C09 C21 C26
        return self._best_routes_vehicle_type

    @property
    def best_value(self):  #@ C14 C10 C30 C17 C21 C26
        if self.drop_penalty:
            penalty = self.drop_penalty * len(self._dropped_nodes)
            if self.minimize_global_span:
                return max(self.best_routes_cost.values()) + penalty
            return sum(self.best_routes_cost.values()) + penalty
        if self.minimize_global_span:
            return max(self.best_routes_cost.values())
        return sum(self.best_routes_cost.values())

    @property
    def best_routes(self):  #@ C14 C07 C08 C15 C17 C21
        return self._best_routes

    @property
    def best_routes_cost(self):  #@ C14 C26 C21
        cost = {}
        for route in self.best_routes:
            edges = list(zip(self.best_routes[route][:-1], self.best_routes[route][1:]))
            k = self._best_routes_vehicle_type[route]
            cost[route] = sum((self._H.edges[i, j]['cost'][k] for i, j in edges))
        return cost

    @property
    def best_routes_load(self):  #@ C15 C01 C06 C21
        load = {}
        if not self.load_capacity or self.distribution_collection or self.pickup_delivery:
            return load
        for route in self.best_routes:
            load[route] = sum((self._H.nodes[v]['demand'] for v in self.best_routes[route]))
        return load

    @property
    def node_load(self):  #@ C15 C01 C06 C21
        load = {}
        if not self.load_capacity and (not self.pickup_delivery) and (not self.distribution_collection):
            return load
        for i in self.best_routes:
            load[i] = {}
            amount = 0
            if self.distribution_collection:
                k = self._best_routes_vehicle_type[i]
                amount += self.load_capacity[k]
            for v in self.best_routes[i]:
                amount += self._H.nodes[v]['demand']
                if self.distribution_collection:
                    amount += self._H.nodes[v]['collect'] - 2 * self._H.nodes[v]['demand']
                load[i][v] = amount
        return load

    @property
    def best_routes_duration(self):  #@ C15 C03 C21
        duration = {}
        if not self.duration and (not self.time_windows):
            return duration
        for route in self.best_routes:
            edges = list(zip(self.best_routes[route][:-1], self.best_routes[route][1:]))
            duration[route] = sum((self._H.edges[i, j]['time'] for i, j in edges))
            duration[route] += sum((self._H.nodes[v]['service_time'] for v in self.best_routes[route]))
        return duration

    @property
    def arrival_time(self):  #@ C15 C04 C21
        arrival = {}
        if not self.duration and (not self.time_windows):
            return arrival
        for i in self.best_routes:
            arrival[i] = {}
            arrival[i]['Source'] = self._H.nodes['Source']['lower']
            route = self.best_routes[i]
            for j in range(1, len(route)):
                tail = route[j - 1]
                head = route[j]
                arrival[i][head] = max(arrival[i][tail] + self._H.nodes[tail]['service_time'] + self._H.edges[tail, head]['time'], self._H.nodes[head]['lower'])
        return arrival

    def check_arrival_time(self):  #@ C15 C04
        for k1, v1 in self.arrival_time.items():
            for k2, v2 in v1.items():
                assert self.G.nodes[k2]['lower'] <= v2
                assert v2 <= self.G.nodes[k2]['upper']

    @property
    def departure_time(self):  #@ C15 C04 C21
        departure = {}
        arrival = self.arrival_time
        if not self.duration and (not self.time_windows):
            return departure
        for i in self.best_routes:
            departure[i] = {}
            departure[i]['Source'] = self._H.nodes['Source']['lower'] + self._H.nodes['Source']['service_time']
            route = self.best_routes[i]
            for j in range(1, len(route)):
                tail = route[j - 1]
                head = route[j]
                departure[i][head] = arrival[i][head] + self._H.nodes[head]['service_time']
        return departure

    def check_departure_time(self):  #@ C15
        for k1, v1 in self.departure_time.items():
            for k2, v2 in v1.items():
                assert self.G.nodes[k2]['lower'] <= v2

    @property
    def schedule(self):  #@ C16 C21
        if self.periodic:
            return self._schedule
        return

    def _pre_solve(self):  #@ C19 C21 C17 C26 C27 C16 C09 C02 C01 C03 C06 C14 C04 C07 C08 C31
        if self.mixed_fleet:
            self._define_vehicle_types()
        else:
            self._vehicle_types = 1
        check_arguments(num_stops=self.num_stops, load_capacity=self.load_capacity, duration=self.duration, pricing_strategy=self._pricing_strategy, mixed_fleet=self.mixed_fleet, fixed_cost=self.fixed_cost, G=self.G, vehicle_types=self._vehicle_types, num_vehicles=self.num_vehicles, use_all_vehicles=self.use_all_vehicles)  #@ C13
        if self.fixed_cost:
            self._add_fixed_costs()
        self._update_dummy_attributes()
        self._pricing_strategy = check_consistency(cspy=self._cspy, pickup_delivery=self.pickup_delivery, pricing_strategy=self._pricing_strategy, G=self.G)  #@ C05 C13 C25
        check_feasibility(load_capacity=self.load_capacity, G=self.G, duration=self.duration, distribution_collection=self.distribution_collection)
        self._num_vehicles, self._num_vehicles_schedule = check_periodic_num_vehicles(periodic=self.periodic, num_vehicles=self.num_vehicles)
        if self._preassignments:
            check_preassignments(self._preassignments, self.G)
            self._lock()
        self._prune_graph()  #@ C13
        self._max_num_stops = self.num_stops  #@ C13
        if self.load_capacity and (not self.pickup_delivery):
            self._max_num_stops = get_num_stops_upper_bound(self.G, self._max_capacity, self.num_stops, self.distribution_collection)  #@ C13
        if self.use_all_vehicles:
            n_vehicle_types = len(self.G['Source']['Sink']['cost'])
            self.G['Source']['Sink']['cost'] = n_vehicle_types * [10000000000.0]

    def _initialize(self, solver):  #@ C31 C11 C09 C08 C10 C16 C24 C30 C14 C20 C21 C23 C26
        if self._initial_routes:
            check_initial_routes(initial_routes=self._initial_routes, G=self.G)
        else:
            self._get_initial_solution()
        self._convert_initial_routes_to_digraphs()
        self.masterproblem = _MasterSolvePulp(self.G, self._routes_with_node, self._routes, self.drop_penalty, self._num_vehicles, self.use_all_vehicles, self.periodic, self.minimize_global_span, solver)

    def _solve(self, dive, solver):  #@ C08 C20 C23 C28 C07 C10 C13 C14 C16 C17 C21 C24 C30
        self._column_generation()
        if dive:
            self._dive = True
            self._more_routes = True
            self._column_generation()
        if len(self.G.nodes()) > 2:
            _, _ = self.masterproblem.solve(relax=False, time_limit=self._get_time_remaining(mip=True))
            self._best_value, self._best_routes_as_graphs = self.masterproblem.get_total_cost_and_routes(relax=False)
        self._post_process(solver)

    def _column_generation(self):  #@ C13 C23 C12 C20 C25 C29
        while self._more_routes:
            self._find_columns()
            if isinstance(self._get_time_remaining(), float) and self._get_time_remaining() == 0.0:
                break
            if self._no_improvement > 1000 or (self._max_iter and self._iteration >= self._max_iter):
                break

    def _find_columns(self):  #@ C11 C12 C13 C25 C29 C23 C30 C28 C08 C09 C20 C21 C24
        if self._dive:
            duals, relaxed_cost = self.masterproblem.solve_and_dive(time_limit=self._get_time_remaining())  #@ C23
            if self.hyper_heuristic:
                self.hyper_heuristic.init(relaxed_cost)
        else:
            duals, relaxed_cost = self.masterproblem.solve(relax=True, time_limit=self._get_time_remaining())  #@ C23
        pricing_strategy = self._get_next_pricing_strategy(relaxed_cost)
        for vehicle in range(self._vehicle_types):
            if self._greedy and (not self.time_windows) and (not self.distribution_collection) and (not self.pickup_delivery) and (not self.minimize_global_span):
                subproblem = self._def_subproblem(duals, vehicle, greedy=True)
                self.routes, self._more_routes = subproblem.solve(n_runs=20)
                if self._more_routes:
                    for r in (r for r in self.routes if r.graph['name'] not in self.masterproblem.y):
                        self.masterproblem.update(r)
            self._more_routes = False
            if not self.minimize_global_span:
                self._more_routes = self._solve_subproblem_with_heuristic(pricing_strategy=pricing_strategy, vehicle=vehicle, duals=duals)
            else:
                for route in self._routes[:len(self._routes)]:
                    self._more_routes = self._solve_subproblem_with_heuristic(pricing_strategy=pricing_strategy, vehicle=vehicle, duals=duals, route=route)
                    if self._more_routes:
                        break
            if self._more_routes:
                self.routes[-1].graph['heuristic'] = pricing_strategy
                self.masterproblem.update(self.routes[-1])
                break
            elif self._pricing_strategy == 'Hyper':
                self.hyper_heuristic.end_time = time()
        self._iteration += 1
        if self._iteration > 1 and relaxed_cost == self._lower_bound[-1]:
            self._no_improvement += 1
        else:
            self._no_improvement = 0
        if not self._dive:
            self._lower_bound.append(relaxed_cost)

    def _solve_subproblem_with_heuristic(self, pricing_strategy=None, vehicle=None, duals=None, route=None):  #@ C13 C12 C29 C20 C23 C24
        more_columns = False
        if self._pricing_strategy == 'Hyper':
            if pricing_strategy == 'BestPaths':
                more_columns = self._attempt_solve_best_paths(vehicle=vehicle, duals=duals, route=route)
            elif pricing_strategy == 'BestEdges1':
                more_columns = self._attempt_solve_best_edges1(vehicle=vehicle, duals=duals, route=route)
            elif pricing_strategy == 'BestEdges2':
                more_columns = self._attempt_solve_best_edges2(vehicle=vehicle, duals=duals, route=route)
            elif pricing_strategy == 'Exact':
                more_columns = self._attempt_solve_exact(vehicle=vehicle, duals=duals, route=route)
        else:
            if pricing_strategy == 'BestPaths':
                more_columns = self._attempt_solve_best_paths(vehicle=vehicle, duals=duals, route=route)
            elif pricing_strategy == 'BestEdges1':
                more_columns = self._attempt_solve_best_edges1(vehicle=vehicle, duals=duals, route=route)
            elif pricing_strategy == 'BestEdges2':
                more_columns = self._attempt_solve_best_edges2(vehicle=vehicle, duals=duals, route=route)
            if pricing_strategy == 'Exact' or not more_columns:
                more_columns = self._attempt_solve_exact(vehicle=vehicle, duals=duals, route=route)
        return more_columns

    def _attempt_solve_best_paths(self, vehicle=None, duals=None, route=None):  #@ C13 C12 C23 C20 C24
        more_columns = False
        for k_shortest_paths in [3, 5, 7, 9]:
            subproblem = self._def_subproblem(duals, vehicle, route, 'BestPaths', k_shortest_paths)
            self.routes, self._more_routes = subproblem.solve(self._get_time_remaining())
            more_columns = self._more_routes
            if more_columns:
                break
        else:
            self._more_routes = True
        return more_columns

    def _attempt_solve_best_edges1(self, vehicle=None, duals=None, route=None):  #@ C13 C12 C23 C20 C24
        more_columns = False
        for alpha in [0.3, 0.5, 0.7, 0.9]:
            subproblem = self._def_subproblem(duals, vehicle, route, 'BestEdges1', alpha)
            self.routes, self._more_routes = subproblem.solve(self._get_time_remaining())
            more_columns = self._more_routes
            if more_columns:
                break
        else:
            self._more_routes = True
        return more_columns

    def _attempt_solve_best_edges2(self, vehicle=None, duals=None, route=None):  #@ C13 C12 C23 C20 C24
        more_columns = False
        for ratio in [0.1, 0.2, 0.3]:
            subproblem = self._def_subproblem(duals, vehicle, route, 'BestEdges2', ratio)
            self.routes, self._more_routes = subproblem.solve(self._get_time_remaining())
            more_columns = self._more_routes
            if more_columns:
                break
        else:
            self._more_routes = True
        return more_columns

    def _attempt_solve_exact(self, vehicle=None, duals=None, route=None):  #@ C13 C12 C23 C20 C24
        subproblem = self._def_subproblem(duals, vehicle, route)
        self.routes, self._more_routes = subproblem.solve(self._get_time_remaining())
        return self._more_routes

    def _get_next_pricing_strategy(self, relaxed_cost):  #@ C13 C29
        pricing_strategy = None
        if self._pricing_strategy == 'Hyper' and self._no_improvement != self._run_exact:
            self._no_improvement = self._iteration
            if self._iteration == 0:
                pricing_strategy = 'BestPaths'
                self.hyper_heuristic.init(relaxed_cost)
            else:
                self._update_hyper_heuristic(relaxed_cost)
                pricing_strategy = self.hyper_heuristic.pick_heuristic()
        elif self._no_improvement == self._run_exact:
            pricing_strategy = 'Exact'
        else:
            pricing_strategy = self._pricing_strategy
        return pricing_strategy

    def _update_hyper_heuristic(self, relaxed_cost):  #@ C29
        best_paths, best_paths_freq = self.masterproblem.get_heuristic_distribution()
        self.hyper_heuristic.current_performance(new_objective_value=relaxed_cost, produced_column=self._more_routes, active_columns=best_paths_freq)
        self.hyper_heuristic.move_acceptance()
        self.hyper_heuristic.update_parameters(self._iteration, self._no_improvement)

    def _get_time_remaining(self, mip=False):  #@ C23
        if self._time_limit:
            remaining_time = self._time_limit - (time() - self._start_time)
            if mip:
                return max(5, remaining_time)
            if remaining_time > 0:
                return remaining_time
            return 0.0
        return None

    def _def_subproblem(self, duals, vehicle_type, route=None, pricing_strategy='Exact', pricing_parameter=None, greedy=False):  #@ C01 C02 C03 C04 C05 C06 C07 C12 C13 C24 C25 C21 C23
        if greedy:
            subproblem = _SubProblemGreedy(self.G, duals, self._routes_with_node, self._routes, vehicle_type, route, self._max_num_stops, self.load_capacity, self.duration, self.time_windows, self.pickup_delivery, self.distribution_collection)
            return subproblem
        if self._cspy:
            subproblem = _SubProblemCSPY(self.G, duals, self._routes_with_node, self._routes, vehicle_type, route, self._max_num_stops, self.load_capacity, self.duration, self.time_windows, self.pickup_delivery, self.distribution_collection, pricing_strategy, pricing_parameter, elementary=self._elementary)
        else:
            subproblem = _SubProblemLP(self.G, duals, self._routes_with_node, self._routes, vehicle_type, route, self._max_num_stops, self.load_capacity, self.duration, self.time_windows, self.pickup_delivery, self.distribution_collection, pricing_strategy, pricing_parameter, solver=self._solver)
        return subproblem

    def _solve_with_clarke_wright(self):  #@ C25 C31 C17 C08 C07 C01 C02 C03 C20 C14 C16 C21 C26
        check_clarke_wright_compatibility(self.time_windows, self.pickup_delivery, self.distribution_collection, self.mixed_fleet, self.periodic)
        alg = _ClarkeWright(self.G, self.load_capacity, self.duration, self._max_num_stops)
        alg.run()
        if not all((self._is_feasible(route) for route in alg.best_routes)):
            raise ValueError('No feasible solution found.')
        self._best_routes = dict(zip([r for r in range(len(alg.best_routes))], alg.best_routes))
        self._best_routes_vehicle_type = dict(zip([r for r in range(len(alg.best_routes))], [0 for r in range(len(alg.best_routes))]))
        self._merge_preassigned_routes(len(alg.best_routes))

    def _get_initial_solution(self):  #@ C31 C25 C05 C08 C07 C01 C02 C03 C04 C06 C09 C16 C20 C21
        self._initial_routes = []
        if not self.time_windows and (not self.pickup_delivery) and (not self.distribution_collection) and (not self.mixed_fleet) and (not self.periodic):
            best_value = 10000000000.0
            best_num_vehicles = 10000000000.0
            for alpha in [x / 10 for x in range(1, 20)]:
                alg = _ClarkeWright(self.G, self.load_capacity, self.duration, self._max_num_stops, alpha)
                alg.run()
                self._initial_routes += alg.best_routes
                if alg.best_value < best_value:
                    best_value = alg.best_value
                    best_num_vehicles = len(alg.best_routes)
            alg = _Greedy(self.G, self.load_capacity, self._max_num_stops, self.duration)
            alg.run()
            self._initial_routes += alg.best_routes
        elif self.pickup_delivery:
            for v in self.G.nodes():
                if 'request' in self.G.nodes[v]:
                    obvious_route = ['Source', v, self.G.nodes[v]['request'], 'Sink']
                    edges = [('Source', v), (v, self.G.nodes[v]['request']), (self.G.nodes[v]['request'], 'Sink')]
                    if self.time_windows:
                        check_pickup_delivery_time_windows(self.G, edges)
                    self._initial_routes.append(obvious_route)
        else:
            alg = _RoundTrip(self.G)
            alg.run()
            self._initial_routes = alg.round_trips

    def _convert_initial_routes_to_digraphs(self):  #@ C11 C31 C08 C01 C07 C09 C14 C21 C26 C30
        self._routes = []
        self._routes_with_node = {}
        for route_id, r in enumerate(self._initial_routes, start=1):
            total_cost = 0
            G = DiGraph(name=route_id)
            if self.load_capacity:
                for k in range(len(self.load_capacity)):
                    if self._get_max_load(r) <= self.load_capacity[k]:  #@ C06 C05
                        G.graph['vehicle_type'] = k  #@ C06 C05
                        break
            else:
                G.graph['vehicle_type'] = 0  #@ C06 C05
            if 'vehicle_type' not in G.graph:  #@ C06 C05
                raise ValueError('Could not find initial feasible solution. Check loading capacities.')  #@ C02 C03 C04 C20
            edges = list(zip(r[:-1], r[1:]))
            for i, j in edges:
                edge = self.G.edges if self.G.has_edge(i, j) else self._H.edges
                edge_cost = edge[i, j]['cost'][G.graph['vehicle_type']]  #@ C06 C05
                G.add_edge(i, j, cost=edge_cost)
                total_cost += edge_cost
            G.graph['infeasible'] = not self._is_feasible(r)  #@ C02 C03 C04 C20
            G.graph['cost'] = 10000000000.0 if G.graph['infeasible'] else total_cost  #@ C02 C03 C04 C20
            self._routes.append(G)
            for v in r[1:-1]:
                if v in self._routes_with_node:
                    self._routes_with_node[v].append(G)
                else:
                    self._routes_with_node[v] = [G]

    def _is_feasible(self, route):  #@ C02 C03 C04 C31 C08 C17
        if self.num_stops and len(route) - 2 > self.num_stops:
            return False
        duration = 0
        arrival = self._H.nodes['Source']['lower']
        for i, j in zip(route[:-1], route[1:]):
            time_ij = self._H.nodes[i]['service_time'] + self._H.edges[i, j]['time']
            duration += time_ij
            arrival = max(arrival + time_ij, self._H.nodes[j]['lower'])
            if self.time_windows and arrival > self._H.nodes[j]['upper']:
                return False
        duration += self._H.nodes[route[-1]]['service_time']
        return not self.duration or duration <= self.duration

    def _get_max_load(self, route):  #@ C01 C06 C05 C31 C17
        if self.distribution_collection:
            load = sum((self._H.nodes[v]['demand'] for v in route))
            loads = [load]
            for v in route:
                load += self._H.nodes[v]['collect'] - self._H.nodes[v]['demand']
                loads.append(load)
            return max(loads)
        if self.pickup_delivery:
            load = 0
            loads = [load]
            for v in route:
                load += self._H.nodes[v]['demand']
                loads.append(load)
            return max(loads)
        return sum((self._H.nodes[v]['demand'] for v in route))

    def _lock(self):  #@ C17 C08 C01 C02 C03 C04 C07 C14 C15 C16 C21 C26 C27
        for route in self._preassignments:
            edges = list(zip(route[:-1], route[1:]))
            if route[0] == 'Source' and route[-1] == 'Sink':
                self.G.remove_nodes_from(route[1:-1])
            else:
                for i, j in edges:
                    for k in range(self._vehicle_types):
                        self.G.edges[i, j]['cost'][k] = 0
        if len(self.G.nodes()) == 2:
            self._more_routes = False

    def _add_fixed_costs(self):  #@ C26 C14 C21
        for v in self.G.successors('Source'):
            for k in range(self._vehicle_types):
                self.G.edges['Source', v]['cost'][k] += self.fixed_cost[k]

    def _remove_infeasible_arcs_capacities(self):  #@ C27 C13 C01 C06 C08 C21
        infeasible_arcs = []
        for i, j in self.G.edges():
            if self.G.nodes[i]['demand'] + self.G.nodes[j]['demand'] > self._max_capacity:
                infeasible_arcs.append((i, j))
        self.G.remove_edges_from(infeasible_arcs)

    def _remove_infeasible_arcs_time_windows(self):  #@ C27 C13 C04 C08 C21
        time_from_source = shortest_path_length(self.G, source='Source', weight='time')
        time_to_sink = shortest_path_length(self.G, target='Sink', weight='time')
        for v in self.G.nodes():
            if v not in ['Source', 'Sink']:
                self.G.nodes[v]['lower'] = max(self.G.nodes[v]['lower'], self.G.nodes['Source']['lower'] + time_from_source[v])
                self.G.nodes[v]['upper'] = min(self.G.nodes[v]['upper'], self.G.nodes['Sink']['upper'] - time_to_sink[v])
        infeasible_arcs = []
        for i, j in self.G.edges():
            travel_time = self.G.edges[i, j]['time']
            service_time = self.G.nodes[i]['service_time']
            tail_inf_time_window = self.G.nodes[i]['lower']
            head_sup_time_window = self.G.nodes[j]['upper']
            if tail_inf_time_window + travel_time + service_time > head_sup_time_window:
                infeasible_arcs.append((i, j))
        self.G.remove_edges_from(infeasible_arcs)

    def _prune_graph(self):  #@ C27 C13 C01 C04 C08 C18 C21
        if isinstance(self.load_capacity, list):
            self._max_capacity = max(self.load_capacity)
        else:
            self._max_capacity = self.load_capacity
        if self.load_capacity:
            self._remove_infeasible_arcs_capacities()
        if self.time_windows:
            self._remove_infeasible_arcs_time_windows()

    def _set_zero_attributes(self):  #@ C27 C15 C01 C03 C04 C16 C05 C06 C08 C10 C21
        for v in self.G.nodes():
            for attribute in ['demand', 'collect', 'service_time', 'lower', 'upper']:
                if attribute not in self.G.nodes[v]:
                    self.G.nodes[v][attribute] = 0
            if v in ['Source', 'Sink'] and self.G.nodes[v]['demand'] > 0:
                self.G.nodes[v]['demand'] = 0
            for attribute in ['frequency']:
                if attribute not in self.G.nodes[v]:
                    self.G.nodes[v][attribute] = 1

    def _set_time_to_zero_if_missing(self):  #@ C27 C15 C03 C04 C21
        for i, j in self.G.edges():
            for attribute in ['time']:
                if attribute not in self.G.edges[i, j]:
                    self.G.edges[i, j][attribute] = 0

    def _readjust_sink_time_windows(self):  #@ C27 C04 C13 C21
        if self.G.nodes['Sink']['upper'] == 0:
            self.G.nodes['Sink']['upper'] = max((self.G.nodes[u]['upper'] + self.G.nodes[u]['service_time'] + self.G.edges[u, 'Sink']['time'] for u in self.G.predecessors('Sink')))

    def _update_dummy_attributes(self):  #@ C27 C21 C14 C15 C09 C07 C01 C03 C04 C06 C08 C13 C26
        self._set_zero_attributes()
        if ('Source', 'Sink') not in self.G.edges():
            self.G.add_edge('Source', 'Sink', cost=[0] * self._vehicle_types)
        self._set_time_to_zero_if_missing()
        self._readjust_sink_time_windows()
        self._H = self.G.to_directed()

    def _best_routes_as_node_lists(self):  #@ C07 C08 C17 C20 C14 C16 C10 C15 C21 C30
        self._best_routes = {}
        self._best_routes_vehicle_type = {}
        route_id = 1
        for route in self._best_routes_as_graphs:
            if route.graph.get('infeasible'):
                raise ValueError('No feasible solution found.')
            node_list = shortest_path(route, 'Source', 'Sink')
            self._best_routes[route_id] = node_list
            self._best_routes_vehicle_type[route_id] = route.graph['vehicle_type']
            route_id += 1
        self._merge_preassigned_routes(route_id)

    def _merge_preassigned_routes(self, route_id):  #@ C17 C14 C01 C08 C02 C03 C07 C15 C16 C21 C26
        for route in self._preassignments:
            if route[0] == 'Source' and route[-1] == 'Sink':
                self._best_routes[route_id] = route
                edges = list(zip(route[:-1], route[1:]))
                best_cost = 10000000000.0
                for k in range(self._vehicle_types):
                    cost = sum((self._H.edges[i, j]['cost'][k] for i, j in edges))
                    load = self._get_max_load(route)
                    if cost < best_cost:
                        if self.load_capacity:
                            if load <= self.load_capacity[k]:
                                best_cost = cost
                                self._best_routes_vehicle_type[route_id] = k
                        else:
                            best_cost = cost
                            self._best_routes_vehicle_type[route_id] = k
                route_id += 1

    def _format(self):  #@ C21 C26 C01 C09 C14 C10 C15 C17 C30
        for i, j in self.G.edges():
            if not isinstance(self.G.edges[i, j]['cost'], list):
                self.G.edges[i, j]['cost'] = [self.G.edges[i, j]['cost']]
        if self.num_vehicles and (not isinstance(self.num_vehicles, list)):
            self.num_vehicles = [self.num_vehicles]
        if self.fixed_cost and (not isinstance(self.fixed_cost, list)):
            self.fixed_cost = [self.fixed_cost]
        if self.load_capacity and (not isinstance(self.load_capacity, list)):
            self.load_capacity = [self.load_capacity]

    def _define_vehicle_types(self):  #@ C19 C26 C13 C01 C09 C14 C21
        if self.load_capacity:
            self._vehicle_types = len(self.load_capacity)
        elif self.fixed_cost:
            self._vehicle_types = len(self.fixed_cost)
        elif self.num_vehicles:
            self._vehicle_types = len(self.num_vehicles)

    def _post_process(self, solver):  #@ C16 C10 C08 C23 C24 C09 C14 C17 C20 C21
        if self.drop_penalty:
            self._dropped_nodes = self.masterproblem.dropped_nodes
        self._best_routes_as_node_lists()
        if self.periodic:
            schedule = _Schedule(self.G, self.periodic, self.best_routes, self.best_routes_type, self._num_vehicles_schedule, solver)
            schedule.solve(self._get_time_remaining())
            self._schedule = schedule.routes_per_day
        self.comp_time = time() - self._start_time
