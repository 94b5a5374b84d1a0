import pulp
import logging
logger = logging.getLogger(__name__)

class _Schedule:

    def __init__(self, G, time_span, routes, route_type, num_vehicles=None, solver='cbc'):  #@ C16 C22 C24 C09
        self.G = G
        self.time_span = time_span
        self.routes = routes
        self.route_type = route_type
        self.num_vehicles = num_vehicles
        self.solver = solver
        self.prob = pulp.LpProblem('Schedule', pulp.LpMinimize)
        self.y = pulp.LpVariable.dicts('y', (self.routes, [t for t in range(self.time_span)]), lowBound=0, upBound=1, cat=pulp.LpBinary)
        self.load_max = pulp.LpVariable('load_max', lowBound=0, cat=pulp.LpContinuous)
        self.load_min = pulp.LpVariable('load_min', lowBound=0, cat=pulp.LpContinuous)

    def solve(self, time_limit):  #@ C16 C23 C20 C24
        self._formulate()
        self._solve(time_limit)

    def _formulate(self):  #@ C16 C09 C08
        self.prob += self.load_max - self.load_min
        for t in range(self.time_span):
            self.prob += (pulp.lpSum([self.y[r][t] for r in self.routes]) <= self.load_max, 'load_max_%s' % t)
        for t in range(self.time_span):
            self.prob += (pulp.lpSum([self.y[r][t] for r in self.routes]) >= self.load_min, 'load_min_%s' % t)
        for r in self.routes:
            self.prob += (pulp.lpSum([self.y[r][t] for t in range(self.time_span)]) == 1, 'schedule_%s' % r)
        for t in range(self.time_span):
            for v in self.G.nodes():
                if v not in ['Source', 'Sink']:
                    self.prob += (pulp.lpSum([self.y[r][t] for r in self.routes if v in self.routes[r]]) <= 1, 'day_%s_max_visit_%s' % (t, v))
        if self.num_vehicles:
            for k in range(len(self.num_vehicles)):
                for t in range(self.time_span):
                    self.prob += (pulp.lpSum([self.y[r][t] for r in self.routes if self.route_type[r] == k]) <= self.num_vehicles[k], 'max_fleet_type_%s_day_%s' % (k, t))

    def _solve(self, time_limit):  #@ C16 C23 C24 C20
        if self.solver == 'cbc':
            self.prob.solve(pulp.PULP_CBC_CMD(msg=False, timeLimit=time_limit))
        elif self.solver == 'cplex':
            self.prob.solve(pulp.CPLEX_CMD(msg=False, timeLimit=time_limit))
        elif self.solver == 'gurobi':
            gurobi_options = []
            if time_limit is not None:
                gurobi_options.append(('TimeLimit', time_limit))
            self.prob.solve(pulp.GUROBI(msg=False, options=gurobi_options))

    @property
    def routes_per_day(self):  #@ C16 C20 C21
        day = {}
        if pulp.LpStatus[self.prob.status] == 'Optimal':
            for r in self.routes:
                for t in range(self.time_span):
                    if pulp.value(self.y[r][t]) > 0.9:
                        if t not in day:
                            day[t] = [r]
                        else:
                            day[t].append(r)
        else:
            pass
        return day
