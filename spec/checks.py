import logging
from numpy.random import RandomState
from networkx import DiGraph, NetworkXError, has_path, shortest_path_length
logger = logging.getLogger(__name__)

def check_arguments(num_stops=None, load_capacity=None, duration=None, pricing_strategy=None, mixed_fleet=None, fixed_cost=None, G=None, vehicle_types=None, num_vehicles=None, use_all_vehicles=None):  #@ C19 C09 C13 C23
    if num_stops and (not isinstance(num_stops, int) or num_stops <= 0):
        raise TypeError('Maximum number of stops must be positive integer.')
    if load_capacity:
        for value in load_capacity:
            if not isinstance(value, int) or value <= 0:
                raise TypeError('Load capacity must be positive integer.')
    if duration and (not isinstance(duration, int) or duration < 0):
        raise TypeError('Maximum duration must be positive integer.')
    strategies = ['Exact', 'BestEdges1', 'BestEdges2', 'BestPaths', 'Hyper']
    if pricing_strategy not in strategies:
        raise ValueError('Pricing strategy %s is not valid. Pick one among %s' % (pricing_strategy, strategies))
    if mixed_fleet:
        if not vehicle_types:
            raise ValueError('mixed_fleet option requires load_capacity, num_vehicles or fixed_cost.')
        if load_capacity and num_vehicles and (len(load_capacity) != len(num_vehicles)):
            raise ValueError('Input arguments load_capacity and num_vehicles must have same dimension.')
        if load_capacity and fixed_cost and (len(load_capacity) != len(fixed_cost)):
            raise ValueError('Input arguments load_capacity and fixed_cost must have same dimension.')
        if num_vehicles and fixed_cost and (len(num_vehicles) != len(fixed_cost)):
            raise ValueError('Input arguments num_vehicles and fixed_cost must have same dimension.')
        for i, j in G.edges():
            if not isinstance(G.edges[i, j]['cost'], list):
                raise TypeError('Cost attribute for edge (%s,%s) should be of type list')
            if len(G.edges[i, j]['cost']) != vehicle_types:
                raise ValueError('Cost attribute for edge (%s,%s) has dimension %s, should have dimension %s.' % (i, j, len(G.edges[i, j]['cost']), vehicle_types))
    if use_all_vehicles:
        if not num_vehicles:
            pass

def check_clarke_wright_compatibility(time_windows, pickup_delivery, distribution_collection, mixed_fleet, periodic):  #@ C25 C19 C31
    if time_windows or pickup_delivery or distribution_collection or mixed_fleet or periodic:
        raise ValueError('Clarke & Wright heuristic not compatible with time windows, pickup and delivery, simultaneous distribution and collection, mixed fleet, frequencies.')

def check_vrp(G=None):  #@ C18 C07 C08 C21
    if not isinstance(G, DiGraph):
        raise TypeError('Input graph must be of type networkx.classes.digraph.DiGraph.')
    for v in ['Source', 'Sink']:
        if v not in G.nodes():
            raise KeyError('Input graph requires Source and Sink nodes.')
        if len(list(G.predecessors('Source'))) > 0:
            raise NetworkXError('Source must have no incoming edges.')
        if len(list(G.successors('Sink'))) > 0:
            raise NetworkXError('Sink must have no outgoing edges.')
    for v in G.nodes():
        if v not in ['Source', 'Sink']:
            if v not in G.successors('Source'):
                G.add_edge('Source', v, cost=10000000000.0)
            if v not in G.predecessors('Sink'):
                G.add_edge(v, 'Sink', cost=10000000000.0)
    if not has_path(G, 'Source', 'Sink'):
        raise NetworkXError('Source and Sink are not connected.')
    for i, j in G.edges():
        if 'cost' not in G.edges[i, j]:
            raise KeyError('Edge (%s,%s) requires cost attribute' % (i, j))

def check_initial_routes(initial_routes=None, G=None):  #@ C19 C31 C08 C07 C11
    for route in initial_routes:
        if route[0] != 'Source' or route[-1] != 'Sink':
            raise ValueError('Route %s must start at Source and end at Sink' % route)
    for v in G.nodes():
        if v not in ['Source', 'Sink']:
            node_found = 0
            for route in initial_routes:
                if v in route:
                    node_found += 1
            if node_found == 0:
                raise KeyError('Node %s missing from initial solution.' % v)
    for route in initial_routes:
        edges = list(zip(route[:-1], route[1:]))
        for i, j in edges:
            if (i, j) not in G.edges():
                raise KeyError('Edge (%s,%s) in route %s missing in graph.' % (i, j, route))
            if 'cost' not in G.edges[i, j]:
                raise KeyError('Edge (%s,%s) has no cost attribute.' % (i, j))

def check_preassignments(routes=None, G=None):  #@ C17 C19 C08
    for route in routes:
        edges = [(route[k], route[k + 1]) for k in range(len(route) - 1)]
        for i, j in edges:
            if (i, j) not in G.edges():
                raise ValueError('Edge (%s,%s) in locked route %s is not in graph G.' % (i, j, route))

def check_consistency(cspy=None, pickup_delivery=None, pricing_strategy=None, G=None):  #@ C05 C19 C25 C13
    if cspy and pickup_delivery:
        raise NotImplementedError('pickup_delivery option requires cspy=False.')
    if pickup_delivery and pricing_strategy != 'Exact':
        pricing_strategy = 'Exact'
    if pickup_delivery:
        request = any(('request' in G.nodes[v] for v in G.nodes()))
        if not request:
            raise KeyError('pickup_delivery option expects at least one request.')
    return pricing_strategy

def check_feasibility(load_capacity=None, G=None, duration=None, distribution_collection=False):  #@ C19 C01 C03 C06 C20
    if load_capacity:
        for v in G.nodes():
            if G.nodes[v]['demand'] > max(load_capacity):
                raise ValueError('Demand %s at node %s larger than max capacity %s.' % (G.nodes[v]['demand'], v, max(load_capacity)))
            if distribution_collection and G.nodes[v]['collect'] > max(load_capacity):
                raise ValueError('Collect %s at node %s larger than max capacity %s.' % (G.nodes[v]['collect'], v, max(load_capacity)))
    if duration:
        for v in G.nodes():
            if v not in ['Source', 'Sink']:
                shortest_path_to = shortest_path_length(G, source='Source', target=v, weight='time')
                shortest_path_from = shortest_path_length(G, source=v, target='Sink', weight='time')
                shortest_trip = shortest_path_from + G.nodes[v]['service_time'] + shortest_path_to
                if shortest_trip > duration:
                    raise ValueError('Node %s not reachable with duration constraints' % v)

def check_seed(seed):  #@ C29 C19
    if seed is None:
        return RandomState()
    elif isinstance(seed, int):
        return RandomState(seed)
    elif isinstance(seed, RandomState):
        return seed
    else:
        raise TypeError('{} cannot be used to seed'.format(seed))

def check_pickup_delivery_time_windows(G, edges):  #@ C05 C19 C04
    for i, j in edges:
        if (i, j) not in G.edges():
            raise ValueError('Problem Infeasible, request (%s,%s) cannot be done with given time windows.' % (i, j))

def check_periodic_num_vehicles(periodic=None, num_vehicles=[]):  #@ C16 C09 C22
    _num_vehicles = []
    _num_vehicles_schedule = []
    if periodic and num_vehicles:
        _num_vehicles_schedule = num_vehicles
    else:
        _num_vehicles = num_vehicles
    return (_num_vehicles, _num_vehicles_schedule)
