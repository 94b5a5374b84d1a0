from random import choice
from networkx import DiGraph, add_path
from .subproblem import _SubProblemBase
import logging
logger = logging.getLogger(__name__)

class _SubProblemGreedy(_SubProblemBase):

    def __init__(self, *args):  #@ C12 C22
        super(_SubProblemGreedy, self).__init__(*args)

    def _initialize_run(self):  #@ C01 C02 C03 C12 C07
        self._load = 0
        self._time = 0
        self._stops = 0
        self._weight = 0

    def solve(self, n_runs=5):  #@ C12 C07 C11 C01 C02 C03 C25
        more_routes = False
        for _ in range(n_runs):
            self._initialize_run()
            self.run_forward()
            if self._new_node and self._weight < 0:
                more_routes = True
                self._add_new_route()
        for _ in range(n_runs):
            self._initialize_run()
            self.run_backwards()
            if self._new_node and self._weight < 0:
                more_routes = True
                self._add_new_route()
        return (self.routes, more_routes)

    def run_forward(self):  #@ C07 C12 C01 C02 C03
        self._current_path = ['Source']
        self._time = self.sub_G.nodes['Source'].get('service_time', 0)
        extend = True
        new_node = True
        while extend and new_node:
            new_node = self._get_next_node()
            extend = self._update(forward=True)

    def _get_next_node(self):  #@ C07 C12 C01 C03
        self._last_node = self._current_path[-1]
        out_going_costs = {}
        for v in self.sub_G.successors(self._last_node):
            if self._constraints_met(v, forward=True):
                out_going_costs[v] = self.sub_G.edges[self._last_node, v]['weight']
        if out_going_costs == {}:
            self._new_node = None
            return False
        else:
            pool = sorted(out_going_costs, key=out_going_costs.get)[:5]
            self._new_node = choice(pool)
            return True

    def _constraints_met(self, v, forward):  #@ C07 C01 C03
        if v in self._current_path or self._check_source_sink(v):
            return False
        elif self.load_capacity and (not self._check_capacity(v)):
            return False
        elif self.duration and (not self._check_duration(v, forward)):
            return False
        else:
            return True

    def run_backwards(self):  #@ C07 C12 C01 C02 C03
        self._current_path = ['Sink']
        self._time = self.sub_G.nodes['Sink'].get('service_time', 0)
        extend = True
        new_node = True
        while extend and new_node:
            new_node = self._get_previous_node()
            extend = self._update(forward=False)

    def _get_previous_node(self):  #@ C07 C12 C01 C03
        self._last_node = self._current_path[0]
        incoming_costs = {}
        for v in self.sub_G.predecessors(self._last_node):
            if self._constraints_met(v, forward=False):
                incoming_costs[v] = self.sub_G.edges[v, self._last_node]['weight']
        if not incoming_costs:
            self._new_node = None
            return False
        else:
            pool = sorted(incoming_costs, key=incoming_costs.get)[:5]
            self._new_node = choice(pool)
            return True

    def _update(self, forward):  #@ C07 C12 C01 C02 C03
        if not self._new_node:
            return
        self._stops += 1
        self._load += self.sub_G.nodes[self._new_node]['demand']
        if forward:
            self._weight += self.sub_G.edges[self._last_node, self._new_node]['weight']
            self._time += self._get_added_time(self._new_node, forward)
            self._current_path.append(self._new_node)
            if self._stops == self.num_stops and self._new_node != 'Sink':
                self._last_node = self._new_node
                if self._new_node in self.sub_G.predecessors('Sink') and self._constraints_met('Sink', forward):
                    self._weight += self.sub_G.edges[self._new_node, 'Sink']['weight']
                    self._time += self._get_added_time('Sink', forward)
                    self._current_path.append('Sink')
                else:
                    self._new_node = False
                return False
            elif self._new_node == 'Sink':
                return False
        else:
            self._weight += self.sub_G.edges[self._new_node, self._last_node]['weight']
            self._time += self._get_added_time(self._new_node, forward)
            self._current_path.insert(0, self._new_node)
            if self._stops == self.num_stops and self._new_node != 'Source':
                self._last_node = self._new_node
                if self._new_node in self.sub_G.successors('Source') and self._constraints_met('Source', forward):
                    self._weight += self.sub_G.edges['Source', self._new_node]['weight']
                    self._time += self._get_added_time('Source', forward)
                    self._current_path.insert(0, 'Source')
                else:
                    self._new_node = False
                return False
            elif self._new_node == 'Source':
                return False
        return True

    def _add_new_route(self):  #@ C11 C07 C08 C12 C14 C26
        route_id = len(self.routes) + 1
        new_route = DiGraph(name=route_id)
        add_path(new_route, self._current_path)
        self.total_cost = 0
        for i, j in new_route.edges():
            edge_cost = self.sub_G.edges[i, j]['cost'][self.vehicle_type]
            self.total_cost += edge_cost
            new_route.edges[i, j]['cost'] = edge_cost
            if i != 'Source':
                self.routes_with_node[i].append(new_route)
        new_route.graph['cost'] = self.total_cost
        new_route.graph['vehicle_type'] = self.vehicle_type
        self.routes.append(new_route)

    def _check_source_sink(self, v):  #@ C07
        return self._last_node == 'Source' and v == 'Sink'

    def _check_capacity(self, v):  #@ C01
        return self._load + self.sub_G.nodes[v]['demand'] <= self.load_capacity[self.vehicle_type]

    def _check_duration(self, v, forward):  #@ C03
        return self._time + self._get_added_time(v, forward) <= self.duration

    def _get_added_time(self, v, forward):  #@ C03
        edge = (self._last_node, v) if forward else (v, self._last_node)
        return self.sub_G.edges[edge]['time'] + self.sub_G.nodes[v].get('service_time', 0)
