import logging
logger = logging.getLogger(__name__)

class _Greedy:

    def __init__(self, G, load_capacity=None, num_stops=None, duration=None):  #@ C31 C22 C21 C07 C08 C01 C02 C03
        self.G = G.copy()
        self._format_cost()
        self._best_routes = []
        self._unprocessed_nodes = [v for v in self.G.nodes() if v not in ['Source', 'Sink']]
        if isinstance(load_capacity, list):
            self.load_capacity = load_capacity[0]
        else:
            self.load_capacity = load_capacity
        self.num_stops = num_stops
        self.duration = duration
        self._best_value = 0

    @property
    def best_value(self):  #@ C31 C14
        return self._best_value

    @property
    def best_routes(self):  #@ C31 C07 C08
        return self._best_routes

    def run(self):  #@ C31 C01 C02 C03 C07 C08
        while self._unprocessed_nodes != []:
            self._load = 0
            self._stops = 0
            self._time = 0
            self._run_forward()
            self._update_routes()
            if self._current_path == ['Source', 'Sink']:
                break

    def _run_forward(self):  #@ C31 C01 C02 C03 C07 C08
        self._current_path = ['Source']
        while True:
            self._get_next_node()
            self._update()
            if self._new_node == 'Sink':
                break

    def _get_next_node(self):  #@ C31 C07 C08 C01 C03
        self._last_node = self._current_path[-1]
        out_going_costs = {}
        for v in self.G.successors(self._last_node):
            if self._constraints_met(v) and v in self._unprocessed_nodes:
                out_going_costs[v] = self.G.edges[self._last_node, v]['cost']
        if out_going_costs == {}:
            self._new_node = 'Sink'
        else:
            self._new_node = sorted(out_going_costs, key=out_going_costs.get)[0]

    def _constraints_met(self, v):  #@ C31 C07 C08 C01 C03
        if v in self._current_path or self._check_source_sink(v):
            return False
        elif self.load_capacity and (not self._check_capacity(v)):
            return False
        elif self.duration and (not self._check_duration(v)):
            return False
        else:
            return True

    def _update(self):  #@ C31 C07 C08 C01 C02 C03
        self._load += self.G.nodes[self._new_node]['demand']
        last_node = self._current_path[-1]
        self._current_path.append(self._new_node)
        if self._new_node not in ['Source', 'Sink']:
            self._unprocessed_nodes.remove(self._new_node)
        self._stops += 1
        self._best_value += self.G.edges[last_node, self._new_node]['cost']
        self._time += self.G.edges[last_node, self._new_node]['time'] + self.G.nodes[self._new_node]['service_time']
        if self._stops == self.num_stops and self._new_node != 'Sink':
            self._current_path.append('Sink')
            if self._new_node in self.G.predecessors('Sink'):
                self._best_value += self.G.edges[self._new_node, 'Sink']['cost']
                self._new_node = 'Sink'
            else:
                self._best_value += 10000000000.0
                self._current_path = None

    def _update_routes(self):  #@ C31 C07 C08
        if self._current_path:
            self._best_routes.append(self._current_path)

    def _check_source_sink(self, v):  #@ C31 C07
        return self._last_node == 'Source' and v == 'Sink'

    def _check_capacity(self, v):  #@ C01 C31
        return self._load + self.G.nodes[v]['demand'] <= self.load_capacity

    def _check_duration(self, v):  #@ C03 C31 C21
        u = self._current_path[-1]
        return_time = self.G.edges[v, 'Sink']['time'] if v != 'Sink' else 0
        return self._time + self.G.nodes[v]['service_time'] + self.G.edges[u, v]['time'] + return_time <= self.duration

    def _format_cost(self):  #@ C31 C21 C26
        for i, j in self.G.edges():
            if isinstance(self.G.edges[i, j]['cost'], list):
                self.G.edges[i, j]['cost'] = self.G.edges[i, j]['cost'][0]
