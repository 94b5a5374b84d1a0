import logging
from numpy import zeros
from networkx import DiGraph, add_path
from cspy import BiDirectional, REFCallback
from vrpy.subproblem import _SubProblemBase
logger = logging.getLogger(__name__)

class _MyREFCallback(REFCallback):

    def __init__(self, max_res, time_windows, distribution_collection, T, resources):  #@ C04 C06 C13 C01 C02 C22
        REFCallback.__init__(self)
        self._max_res = max_res
        self._time_windows = time_windows
        self._distribution_collection = distribution_collection
        self._T = T
        self._resources = resources
        self._sub_G = None
        self._source_id = None
        self._sink_id = None

    def REF_fwd(self, cumul_res, tail, head, edge_res, partial_path, cumul_cost):  #@ C01 C02 C03 C04 C06 C13 C07
        new_res = list(cumul_res)
        i, j = (tail, head)
        new_res[0] += 1
        new_res[1] += self._sub_G.nodes[j]['demand']
        theta_i = self._sub_G.nodes[i]['service_time']
        travel_time_ij = self._sub_G.edges[i, j]['time']
        a_j = self._sub_G.nodes[j]['lower']
        b_j = self._sub_G.nodes[j]['upper']
        new_res[2] = max(new_res[2] + theta_i + travel_time_ij, a_j)
        if not self._time_windows or new_res[2] <= b_j:
            new_res[3] = 0
        else:
            new_res[3] = 1
        if self._distribution_collection:
            new_res[4] += self._sub_G.nodes[j]['collect']
            new_res[5] = max(new_res[5] + self._sub_G.nodes[j]['demand'], new_res[4])
        return new_res

    def REF_bwd(self, cumul_res, tail, head, edge_res, partial_path, cumul_cost):
        new_res = list(cumul_res)
        i, j = (tail, head)
        new_res[0] -= 1
        new_res[1] += self._sub_G.nodes[i]['demand']
        theta_i = self._sub_G.nodes[i]['service_time']
        theta_j = self._sub_G.nodes[j]['service_time']
        travel_time_ij = self._sub_G.edges[i, j]['time']
        a_j = self._sub_G.nodes[j]['lower']
        b_i = self._sub_G.nodes[i]['upper']
        b_j = self._sub_G.nodes[j]['upper']
        new_res[2] = max(new_res[2] + theta_j + travel_time_ij, self._T - b_i - theta_i)
        if not self._time_windows or new_res[2] <= self._T - a_j - theta_j:
            new_res[3] = 0
        else:
            new_res[3] = 1
        if self._distribution_collection:
            new_res[5] += new_res[5] + self._sub_G.nodes[i]['demand']
            new_res[4] = max(new_res[5], new_res[4] + self._sub_G.nodes[i]['collect'])
        return new_res

    def REF_join(self, fwd_resources, bwd_resources, tail, head, edge_res):
        fwd_res = list(fwd_resources)
        bwd_res = list(bwd_resources)
        final_res = [0] * len(self._resources)
        i, j = (tail, head)
        theta_i = self._sub_G.nodes[i]['service_time']
        theta_j = self._sub_G.nodes[j]['service_time']
        travel_time = self._sub_G.edges[i, j]['time']
        bwd_res[0] = self._max_res[0] - bwd_res[0]
        final_res[0] = fwd_res[0] + bwd_res[0] + 1
        final_res[1] = fwd_res[1] + bwd_res[1]
        final_res[2] = fwd_res[2] + theta_i + travel_time + theta_j + bwd_res[2]
        if not self._time_windows or final_res[2] <= self._T:
            final_res[3] = fwd_res[3] + bwd_res[3]
        else:
            final_res[3] = 1.0
        if self._distribution_collection:
            final_res[4] = fwd_res[4] + bwd_res[4]
            final_res[5] = fwd_res[5] + bwd_res[5]
        return final_res

class _SubProblemCSPY(_SubProblemBase):

    def __init__(self, *args, elementary):  #@ C13 C22 C01 C02 C03 C06
        super(_SubProblemCSPY, self).__init__(*args)
        self.elementary = elementary
        self.resources = ['stops/mono', 'load', 'time', 'time windows', 'collect', 'deliver']
        self.sub_G.graph['n_res'] = len(self.resources)
        self.min_res = [0] * len(self.resources)
        total_demand = sum([self.sub_G.nodes[v]['demand'] for v in self.sub_G.nodes()])
        self.max_res = [len(self.sub_G.nodes()) - 1, total_demand, sum([self.sub_G.edges[u, v]['time'] for u, v in self.sub_G.edges()]) + sum([self.sub_G.nodes[v]['service_time'] for v in self.sub_G.nodes()]), 1, total_demand, total_demand]
        for edge in self.sub_G.edges(data=True):
            edge[2]['res_cost'] = zeros(len(self.resources))
        self.T = 0
        self.total_cost = None
        self._avg_path_len = 1
        self._iters = 1

    def solve(self, time_limit):  #@ C12 C13 C07 C11 C20 C23 C01 C02 C03 C04 C06
        if not self.run_subsolve:
            return (self.routes, False)
        if time_limit is not None and time_limit <= 0:
            return (self.routes, False)
        self.formulate()
        more_routes = False
        my_callback = self.get_REF()
        direction = 'forward' if self.time_windows or self.pickup_delivery or self.distribution_collection else 'both'
        s = [False, True] if not self.distribution_collection and (not self.elementary) else [True]
        for elementary in s:
            if elementary:
                thr = self._avg_path_len * min((self.G.edges[i, j]['weight'] for i, j in self.G.edges()))
            else:
                thr = None
            alg = BiDirectional(self.sub_G, self.max_res, self.min_res, threshold=thr, direction=direction, time_limit=time_limit - 0.5 if time_limit is not None else None, elementary=elementary, REF_callback=my_callback)
            if my_callback is not None:
                my_callback._sub_G = alg.G
                my_callback._source_id = alg._source_id
                my_callback._sink_id = alg._sink_id
            alg.run()
            if alg.total_cost is not None and alg.total_cost < -0.001:
                new_route = self.create_new_route(alg.path)
                path_len = len(alg.path)
                if not any((list(new_route.edges()) == list(r.edges()) and new_route.graph['vehicle_type'] == r.graph['vehicle_type'] for r in self.routes)):
                    more_routes = True
                    self.routes.append(new_route)
                    self.total_cost = new_route.graph['cost']
                    if path_len > 2:
                        self._avg_path_len += (path_len - self._avg_path_len) / self._iters
                        self._iters += 1
                    break
                else:
                    pass
            else:
                break
        return (self.routes, more_routes)

    def formulate(self):  #@ C13 C01 C02 C03 C04 C06 C07
        if self.num_stops:
            self.add_max_stops()
        else:
            self.add_monotone()
        if self.load_capacity:
            self.add_max_load()
        if self.duration:
            self.add_max_duration()
        if self.time_windows:
            if not self.duration:
                self.max_res[2] = 1 + self.sub_G.nodes['Sink']['upper']
            self.max_res[3] = 0
            self.T = max((self.sub_G.nodes[v]['upper'] + self.sub_G.nodes[v]['service_time'] + self.sub_G.edges[v, 'Sink']['time'] for v in self.sub_G.predecessors('Sink')))
        if self.load_capacity and self.distribution_collection:
            self.max_res[4] = self.load_capacity[self.vehicle_type]
            self.max_res[5] = self.load_capacity[self.vehicle_type]
        if self.pickup_delivery:
            self.max_res[6] = 0

    def create_new_route(self, path):  #@ C11 C07 C08 C12 C13 C14 C26
        e = 'elem' if len(set(path)) == len(path) else 'non-elem'
        route_id = '{}_{}'.format(len(self.routes) + 1, e)
        new_route = DiGraph(name=route_id, path=path)
        add_path(new_route, path)
        total_cost = 0
        for i, j in new_route.edges():
            edge_cost = self.sub_G.edges[i, j]['cost'][self.vehicle_type]
            total_cost += edge_cost
            new_route.edges[i, j]['cost'] = edge_cost
            if i != 'Source':
                self.routes_with_node[i].append(new_route)
        new_route.graph['cost'] = total_cost
        new_route.graph['vehicle_type'] = self.vehicle_type
        return new_route

    def add_max_stops(self):  #@ C02 C13
        self.resources[0] = 'stops'
        self.max_res[0] = self.num_stops + 1
        for i, j in self.sub_G.edges():
            self.sub_G.edges[i, j]['res_cost'][0] = 1

    def add_monotone(self):  #@ C07 C13 C02 C03 C04
        self.resources[0] = 'mono'
        for i, j in self.sub_G.edges():
            self.sub_G.edges[i, j]['res_cost'][0] = 1

    def add_max_load(self):  #@ C01 C13
        self.max_res[1] = self.load_capacity[self.vehicle_type]
        for i, j in self.sub_G.edges():
            demand_head_node = self.sub_G.nodes[j]['demand']
            self.sub_G.edges[i, j]['res_cost'][1] = demand_head_node

    def add_max_duration(self):  #@ C03 C13
        self.max_res[2] = self.duration - self.sub_G.nodes['Sink'].get('service_time', 0)
        for i, j in self.sub_G.edges():
            travel_time = self.sub_G.edges[i, j]['time']
            service_time = self.sub_G.nodes[i]['service_time']
            self.sub_G.edges[i, j]['res_cost'][2] = travel_time + service_time

    def get_REF(self):  #@ C04 C06 C13 C01 C02 C03
        if self.time_windows or self.distribution_collection or self.pickup_delivery:
            return _MyREFCallback(self.max_res, self.time_windows, self.distribution_collection, self.T, self.resources)
        else:
            return None
