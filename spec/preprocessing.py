def get_num_stops_upper_bound(G, max_capacity, num_stops=None, distribution_collection=False):  #@ C27 C02 C13 C01 C06
    demands = [int(G.nodes[v]['demand']) for v in G.nodes()]
    max_num_stops = _knapsack(demands, max_capacity)
    if distribution_collection:
        collect = [int(G.nodes[v]['collect']) for v in G.nodes()]
        max_num_stops = min(max_num_stops, _knapsack(collect, max_capacity))
    if num_stops:
        num_stops = min(max_num_stops, num_stops)
    else:
        num_stops = max_num_stops
    return num_stops

def _knapsack(weights, capacity):  #@ C27 C02 C13 C06 C01
    n = len(weights)
    sol = [[0] * (capacity + 1) for i in range(n)]
    added = [[False] * (capacity + 1) for i in range(n)]
    for i in range(n):
        for j in range(capacity + 1):
            if weights[i] > j:
                sol[i][j] = sol[i - 1][j]
            else:
                sol_add = 1 + sol[i - 1][j - weights[i]]
                if sol_add > sol[i - 1][j]:
                    sol[i][j] = sol_add
                    added[i][j] = True
                else:
                    sol[i][j] = sol[i - 1][j]
    return sol[n - 1][capacity]
