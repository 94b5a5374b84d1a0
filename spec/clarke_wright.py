from networkx import DiGraph, add_path, shortest_path

class _ClarkeWright:

    def __init__(self, G, load_capacity=None, duration=None, num_stops=None, alpha=1, beta=0, gamma=0):  #@ C31 C22 C21 C07 C08 C01 C02 C03
        self.G = G.copy()
        self._format_cost()
        self._savings = {}
        self._ordered_edges = []
        self._route = {}
        self._best_routes = []
        self._processed_nodes = []
        self.alpha = alpha
        if isinstance(load_capacity, list):
            self.load_capacity = load_capacity[0]
        else:
            self.load_capacity = load_capacity
        self.duration = duration
        self.num_stops = num_stops

    def run(self):  #@ C31 C07 C08 C01 C02 C03
        self._initialize_routes()
        self._get_savings()
        for i, j in self._ordered_edges:
            self._process_edge(i, j)
        self._update_routes()

    def _initialize_routes(self):  #@ C31 C07 C08 C14
        for v in self.G.nodes():
            if v not in ['Source', 'Sink']:
                round_trip_cost = self.G.edges['Source', v]['cost'] + self.G.edges[v, 'Sink']['cost']
                route = DiGraph(cost=round_trip_cost)
                add_path(route, ['Source', v, 'Sink'])
                self._route[v] = route
                if self.load_capacity:  #@ C01
                    route.graph['load'] = self.G.nodes[v]['demand']  #@ C01
                if self.duration:  #@ C03
                    route.graph['time'] = self.G.nodes[v]['service_time'] + self.G.edges['Source', v]['time'] + self.G.edges[v, 'Sink']['time']  #@ C03

    def _update_routes(self):  #@ C31 C07 C08 C14
        self._best_value = 0
        for route in list(set(self._route.values())):
            self._best_value += route.graph['cost']
            self._best_routes.append(shortest_path(route, 'Source', 'Sink'))

    def _get_savings(self):  #@ C31 C07
        for i, j in self.G.edges():
            if i != 'Source' and j != 'Sink':
                self._savings[i, j] = self.G.edges[i, 'Sink']['cost'] + self.G.edges['Source', j]['cost'] - self.alpha * self.G.edges[i, j]['cost']
        self._ordered_edges = sorted(self._savings, key=self._savings.get, reverse=True)

    def _merge_route(self, existing_node, new_node, depot):  #@ C31 C07 C08
        route = self._route[existing_node]
        if depot == 'Sink':
            add_path(route, [existing_node, new_node, 'Sink'])
            route.remove_edge(existing_node, 'Sink')
            self._route[existing_node].graph['cost'] += self.G.edges[existing_node, new_node]['cost'] + self.G.edges[new_node, 'Sink']['cost'] - self.G.edges[existing_node, 'Sink']['cost']
        if depot == 'Source':
            add_path(route, ['Source', new_node, existing_node])
            route.remove_edge('Source', existing_node)
            self._route[existing_node].graph['cost'] += self.G.edges[new_node, existing_node]['cost'] + self.G.edges['Source', new_node]['cost'] - self.G.edges['Source', existing_node]['cost']
        if self.load_capacity:  #@ C01
            self._route[existing_node].graph['load'] += self.G.nodes[new_node]['demand']  #@ C01
        if self.duration:  #@ C03
            self._route[existing_node].graph['time'] += self._added_time(existing_node, new_node, depot)  #@ C03
        self._processed_nodes.append(new_node)
        if existing_node not in self._processed_nodes:
            self._processed_nodes.append(existing_node)
        self._route[new_node] = route
        return route

    def _added_time(self, existing_node, new_node, depot):  #@ C03 C31
        service_time = self.G.nodes[new_node]['service_time']
        if depot == 'Sink':
            return self.G.edges[existing_node, new_node]['time'] + self.G.edges[new_node, 'Sink']['time'] + service_time - self.G.edges[existing_node, 'Sink']['time']
        return self.G.edges['Source', new_node]['time'] + self.G.edges[new_node, existing_node]['time'] + service_time - self.G.edges['Source', existing_node]['time']

    def _constraints_met(self, existing_node, new_node, depot):  #@ C31 C07 C08
        route = self._route[existing_node]
        if new_node in route.nodes():
            return False
        if self.load_capacity:  #@ C01
            if route.graph['load'] + self.G.nodes[new_node]['demand'] > self.load_capacity:  #@ C01
                return False
        if self.duration:  #@ C03
            if route.graph['time'] + self._added_time(existing_node, new_node, depot) > self.duration:  #@ C03
                return False
        if self.num_stops:  #@ C02
            if len(route.nodes()) - 2 + 1 > self.num_stops:  #@ C02
                return False
        return True  #@ C01 C02 C03

    def _process_edge(self, i, j):  #@ C31 C07 C08 C01 C02 C03
        merged = False
        if j not in self._processed_nodes and self._constraints_met(i, j, 'Sink') and (i in self._route[i].predecessors('Sink')):
            self._merge_route(i, j, 'Sink')
            merged = True
        if not merged and j in self.G.predecessors(i) and (i not in self._processed_nodes) and self._constraints_met(j, i, 'Source') and (j in self._route[j].successors('Source')):
            self._merge_route(j, i, 'Source')

    def _format_cost(self):  #@ C31 C21 C26
        for i, j in self.G.edges():
            if isinstance(self.G.edges[i, j]['cost'], list):
                self.G.edges[i, j]['cost'] = self.G.edges[i, j]['cost'][0]

    @property
    def best_value(self):  #@ C31 C14
        return self._best_value

    @property
    def best_routes(self):  #@ C31 C08 C07
        return self._best_routes

class _RoundTrip:

    def __init__(self, G):  #@ C31 C08 C22 C07
        self.G = G
        self.round_trips = []

    def run(self):  #@ C31 C08 C07 C14
        for v in self.G.nodes():
            if v not in ['Source', 'Sink']:
                self.round_trips.append(['Source', v, 'Sink'])
