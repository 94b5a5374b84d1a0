import logging
from typing import Optional
from networkx import shortest_path
import pulp
from vrpy.masterproblem import _MasterProblemBase
from vrpy.restricted_master_heuristics import _DivingHeuristic
logger = logging.getLogger(__name__)

class _MasterSolvePulp(_MasterProblemBase):

    def __init__(self, *args):  #@ C11 C22 C08 C10 C30 C21
        super(_MasterSolvePulp, self).__init__(*args)
        self.prob = pulp.LpProblem('MasterProblem', pulp.LpMinimize)
        self.objective = pulp.LpConstraintVar('objective')
        self.y = {}
        self.drop = {}
        self.dropped_nodes = []
        self.dummy = {}
        self.dummy_bound = {}
        self.makespan = {}
        self.set_covering_constrs = {}
        self.vehicle_bound_constrs = {}
        self.drop_penalty_constrs = {}
        self.makespan_constr = {}
        self.diving_heuristic = _DivingHeuristic()
        self._n_columns = 1000
        self._formulate()

    def solve(self, relax, time_limit):  #@ C20 C12 C23 C08 C24 C28
        self._solve(relax, time_limit)
        if pulp.LpStatus[self.prob.status] != 'Optimal':
            raise Exception('problem ' + str(pulp.LpStatus[self.prob.status]))
        duals = self.get_duals()
        return (duals, self.prob.objective.value())

    def solve_and_dive(self, time_limit):  #@ C28 C12 C23 C20 C24
        self._solve(relax=True, time_limit=time_limit)
        self.diving_heuristic.run_dive(self.prob)
        self.prob.resolve()
        return (self.get_duals(), self.prob.objective.value())

    def update(self, new_route):  #@ C11 C30 C12 C08 C09 C16
        if self.minimize_global_span:
            self._add_route_selection_variable_for_global_span(new_route)
        else:
            self._add_route_selection_variable(new_route)

    def get_duals(self, relax=None):  #@ C12 C20 C09 C13
        duals = {}
        for node in self.G.nodes():
            if node not in ['Source', 'Sink'] and 'depot_from' not in self.G.nodes[node] and ('depot_to' not in self.G.nodes[node]):
                constr_name = self.set_covering_constrs[node].name
                if not relax:
                    duals[node] = self.prob.constraints[constr_name].pi
                else:
                    duals[node] = relax.constraints[constr_name].pi
        if self.num_vehicles and (not self.periodic):
            duals['upper_bound_vehicles'] = {}
            for k in range(len(self.num_vehicles)):
                if not relax:
                    duals['upper_bound_vehicles'][k] = self.prob.constraints['upper_bound_vehicles_%s' % k].pi
                else:
                    duals['upper_bound_vehicles'][k] = relax.constraints['upper_bound_vehicles_%s' % k].pi
        if self.minimize_global_span:
            for route in self.routes:
                if not relax:
                    duals['makespan_%s' % route.graph['name']] = self.prob.constraints['makespan_%s' % route.graph['name']].pi
                else:
                    duals['makespan_%s' % route.graph['name']] = relax.constraints['makespan_%s' % route.graph['name']].pi
        return duals

    def get_total_cost_and_routes(self, relax):  #@ C08 C16 C10 C14 C11 C20 C07 C09 C26 C28 C30
        best_routes = []
        for r in self.routes:
            val = pulp.value(self.y[r.graph['name']])
            if val is not None and val > 0:
                best_routes += [r] * max(1, round(val))
        if self.drop_penalty:
            self.dropped_nodes = [v for v in self.drop if pulp.value(self.drop[v]) > 0.5]
        self.prob.resolve()
        total_cost = self.prob.objective.value()
        if not relax and self.drop_penalty and (len(self.dropped_nodes) > 0):
            pass
        if not total_cost:
            total_cost = 0
        return (total_cost, best_routes)

    def get_heuristic_distribution(self):  #@ C29
        best_routes_heuristic = {'BestPaths': 0, 'BestEdges1': 0, 'BestEdges2': 0, 'Exact': 0, 'Other': 0}
        best_routes = []
        for r in self.routes:
            val = self.y[r.graph['name']].value()
            if val is not None and val > 0:
                if 'heuristic' not in r.graph:
                    r.graph['heuristic'] = 'Other'
                best_routes_heuristic[r.graph['heuristic']] += 1
                best_routes.append(r)
        return (best_routes, best_routes_heuristic)

    def _solve(self, relax, time_limit):  #@ C23 C24 C08 C20 C09 C16 C28 C07 C10 C12 C30
        if not relax:
            for name in [c for c in self.prob.constraints if c.startswith('fix_')]:
                del self.prob.constraints[name]
            for node in self.G.nodes():
                if node not in ['Source', 'Sink'] and 'depot_from' not in self.G.nodes[node] and ('depot_to' not in self.G.nodes[node]):
                    for const in self.prob.constraints:
                        if 'visit_node' in const:
                            self.prob.constraints[const].sense = pulp.LpConstraintEQ
                if self.periodic and self.G.nodes[node]['frequency'] > 1 and (node != 'Source'):
                    self.dummy[node].upBound = 0
            for var in self.y.values():
                if 'non' in var.name:
                    var.upBound = 0
                    var.lowBound = 0
                var.cat = pulp.LpInteger
            for var in self.dummy_bound.values():
                if 'artificial_bound_' in var.name:
                    var.upBound = 0
                    var.lowBound = 0
        if self.solver == 'cbc':
            self.prob.solve(pulp.PULP_CBC_CMD(msg=False, timeLimit=time_limit, options=['startalg', 'barrier', 'crossover', '0']))
        elif self.solver == 'cplex':
            self.prob.solve(pulp.CPLEX_CMD(msg=False, timeLimit=time_limit, options=['set lpmethod 4', 'set solutiontype 2']))
        elif self.solver == 'gurobi':
            gurobi_options = [('Method', 2), ('Crossover', 0)]
            if time_limit is not None:
                gurobi_options.append(('TimeLimit', time_limit))
            self.prob.solve(pulp.GUROBI(msg=False, options=gurobi_options))

    def _formulate(self):  #@ C08 C09 C11 C10 C16 C30 C14
        self._add_set_covering_constraints()
        if self.num_vehicles and (not self.periodic):
            self._add_bound_vehicles()
        if self.minimize_global_span:
            self._add_maximum_makespan_constraints()
        if self.minimize_global_span:
            for route in self.routes:
                self._add_route_selection_variable_for_global_span(route)
            for route in range(1, self._n_columns):
                self.prob += self.makespan_constr[route]
        else:
            for route in self.routes:
                self._add_route_selection_variable(route)
        if self.drop_penalty:
            self._add_drop_variables()
        if self.periodic:
            self._add_artificial_variables()
        for k in self.set_covering_constrs:
            self.prob += self.set_covering_constrs[k]
        for k in self.vehicle_bound_constrs:
            self.prob += self.vehicle_bound_constrs[k]
        self._add_vehicle_dummy_variables()
        if self.minimize_global_span:
            self._add_makespan_variable()
        self.prob.sense = pulp.LpMinimize
        self.prob.setObjective(self.objective)

    def _add_set_covering_constraints(self):  #@ C08 C16 C11 C12 C10
        for node in self.G.nodes():
            if node not in ['Source', 'Sink'] and 'depot_from' not in self.G.nodes[node] and ('depot_to' not in self.G.nodes[node]):
                right_hand_term = self.G.nodes[node]['frequency'] if self.periodic else 1
                sign = pulp.LpConstraintGE
                self.set_covering_constrs[node] = pulp.LpConstraintVar('visit_node_%s' % node, sign, right_hand_term)

    def _add_route_selection_variable(self, route):  #@ C11 C08 C09 C16 C07 C12 C10 C14 C26
        if 'path' in route.graph:
            nodes = [n for n in route.graph['path'] if n not in ['Source', 'Sink']]
        else:
            nodes = [n for n in route.nodes() if n not in ['Source', 'Sink']]
        self.y[route.graph['name']] = pulp.LpVariable('y{}'.format(route.graph['name']), lowBound=0, upBound=self.periodic if self.periodic else 1, cat=pulp.LpContinuous, e=pulp.lpSum((self.set_covering_constrs[n] for n in nodes)) + pulp.lpSum((self.vehicle_bound_constrs[k] for k in range(len(self.num_vehicles)) if route.graph['vehicle_type'] == k)) + route.graph['cost'] * self.objective)

    def _add_route_selection_variable_for_global_span(self, route):  #@ C11 C30 C08 C09 C07 C12 C16
        self.y[route.graph['name']] = pulp.LpVariable('y{}'.format(route.graph['name']), lowBound=0, upBound=1, cat=pulp.LpInteger, e=pulp.lpSum((self.set_covering_constrs[r] for r in route.nodes() if r not in ['Source', 'Sink'])) + pulp.lpSum((self.vehicle_bound_constrs[k] for k in range(len(self.num_vehicles)) if route.graph['vehicle_type'] == k)) + route.graph['cost'] * self.makespan_constr[route.graph['name']])

    def _add_vehicle_dummy_variables(self):  #@ C09 C11 C14
        for key in range(len(self.num_vehicles)):
            self.dummy_bound[key] = pulp.LpVariable('artificial_bound_%s' % key, lowBound=0, upBound=None, cat=pulp.LpContinuous, e=-1 * self.vehicle_bound_constrs[key] + 10000000000.0 * self.objective)

    def _add_drop_variables(self):  #@ C10 C08 C11 C14
        for node in self.G.nodes():
            if node not in ['Source', 'Sink']:
                self.drop[node] = pulp.LpVariable('drop_%s' % node, lowBound=0, upBound=1, cat=pulp.LpInteger, e=self.drop_penalty * self.objective + self.set_covering_constrs[node])

    def _add_artificial_variables(self):  #@ C16 C08 C11 C12 C20
        for node in self.G.nodes():
            if self.G.nodes[node]['frequency'] > 1 and node != 'Source':
                self.dummy[node] = pulp.LpVariable('periodic_%s' % node, lowBound=0, upBound=None, cat=pulp.LpContinuous, e=10000000000.0 * self.objective + self.set_covering_constrs[node])

    def _add_bound_vehicles(self):  #@ C09 C12 C11
        for k in range(len(self.num_vehicles)):
            sign = pulp.LpConstraintEQ if self.use_all_vehicles else pulp.LpConstraintLE
            self.vehicle_bound_constrs[k] = pulp.LpConstraintVar('upper_bound_vehicles_%s' % k, sign, self.num_vehicles[k])

    def _add_makespan_variable(self, new_route=None):  #@ C30 C11
        if new_route:
            constraints = [self.makespan_constr[new_route.graph['name']]]
            cost = 0
        else:
            constraints = list(self.makespan_constr.values())
            cost = 1
        self.makespan = pulp.LpVariable('makespan', lowBound=0, upBound=None, cat=pulp.LpContinuous, e=cost * self.objective - pulp.lpSum(constraints))

    def _add_maximum_makespan_constraints(self):  #@ C30
        for route in range(1, self._n_columns):
            self.makespan_constr[route] = pulp.LpConstraintVar('makespan_%s' % route, pulp.LpConstraintLE, 0)
