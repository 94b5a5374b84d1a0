import logging
from itertools import islice
from networkx import compose_all, DiGraph, NetworkXException, add_path, has_path, shortest_simple_paths
logger = logging.getLogger(__name__)

class _SubProblemBase:

    def __init__(self, G, duals, routes_with_node, routes, vehicle_type, route=None, num_stops=None, load_capacity=None, duration=None, time_windows=False, pickup_delivery=False, distribution_collection=False, pricing_strategy='Exact', pricing_parameter=None):  #@ C12 C13 C22 C01 C02 C03 C04 C05 C06 C07 C21
        self.G = G
        self.duals = duals
        self.routes_with_node = routes_with_node
        self.routes = routes
        self.vehicle_type = vehicle_type
        self.route = route
        self.num_stops = num_stops
        self.load_capacity = load_capacity
        self.duration = duration
        self.time_windows = time_windows
        self.pickup_delivery = pickup_delivery
        self.distribution_collection = distribution_collection
        self.run_subsolve = True
        self.add_reduced_cost_attribute()
        if pricing_strategy == 'BestEdges1':
            self.remove_edges_1(pricing_parameter)
        elif pricing_strategy == 'BestEdges2':
            self.remove_edges_2(pricing_parameter)
        elif pricing_strategy == 'BestPaths':
            self.remove_edges_3(pricing_parameter)
        elif pricing_strategy == 'Exact':
            self.sub_G = self.G

    def add_reduced_cost_attribute(self):  #@ C30 C09 C12 C13 C21
        for edge in self.G.edges(data=True):
            edge[2]['weight'] = edge[2]['cost'][self.vehicle_type]
            if self.route:
                edge[2]['weight'] *= -self.duals['makespan_%s' % self.route.graph['name']]
            for v in self.duals:
                if edge[0] == v:
                    edge[2]['weight'] -= self.duals[v]
        if 'upper_bound_vehicles' in self.duals:
            for v in self.G.successors('Source'):
                self.G.edges['Source', v]['weight'] -= self.duals['upper_bound_vehicles'][self.vehicle_type]

    def discard_nodes(self):
        for v in self.duals:
            if v != 'upper_bound_vehicles' and self.duals[v] == 0:
                self.sub_G.remove_node(v)
                print('removed node', v)

    def remove_edges_1(self, alpha):  #@ C13 C21 C12
        self.sub_G = self.G.copy()
        largest_dual = max((self.duals[v] for v in self.duals if v != 'upper_bound_vehicles'))
        for u, v in self.G.edges():
            if self.G.edges[u, v]['cost'][self.vehicle_type] > alpha * largest_dual:
                self.sub_G.remove_edge(u, v)
        try:
            if not has_path(self.sub_G, 'Source', 'Sink'):
                self.run_subsolve = False
        except NetworkXException:
            self.run_subsolve = False

    def remove_edges_2(self, ratio):  #@ C13 C21 C12
        self.sub_G = self.G.copy()
        reduced_cost = {}
        for u, v in self.G.edges():
            if u != 'Source' and v != 'Sink':
                reduced_cost[u, v] = self.G.edges[u, v]['weight']
        sorted_edges = sorted(reduced_cost, key=reduced_cost.get)
        limit = int(ratio * len(sorted_edges))
        self.sub_G.remove_edges_from(sorted_edges[limit:])
        try:
            if not has_path(self.sub_G, 'Source', 'Sink'):
                self.run_subsolve = False
        except NetworkXException:
            self.run_subsolve = False

    def remove_edges_3(self, beta):  #@ C13 C21 C12
        max_weight = max((self.G.edges[i, j]['weight'] for i, j in self.G.edges()))
        min_weight = min((self.G.edges[i, j]['weight'] for i, j in self.G.edges()))
        for edge in self.G.edges(data=True):
            edge[2]['pos_weight'] = (-max_weight - min_weight + 2 * edge[2]['weight']) / (max_weight - min_weight)
            edge[2]['pos_weight'] = max(0, edge[2]['pos_weight'])
        best_paths = list(islice(shortest_simple_paths(self.G, 'Source', 'Sink', weight='pos_weight'), beta))
        best_paths_list = []
        for path in best_paths:
            H = DiGraph()
            add_path(H, path)
            best_paths_list.append(H)
        induced_graph = compose_all(best_paths_list)
        self.sub_G = self.G.edge_subgraph(induced_graph.edges()).copy()
