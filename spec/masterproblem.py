class _MasterProblemBase:

    def __init__(self, G, routes_with_node, routes, drop_penalty, num_vehicles, use_all_vehicles, periodic, minimize_global_span, solver):  #@ C11 C22 C08 C09 C10 C16 C24 C30 C21
        self.G = G
        self.routes_with_node = routes_with_node
        self.routes = routes
        self.drop_penalty = drop_penalty
        self.num_vehicles = num_vehicles
        self.use_all_vehicles = use_all_vehicles
        self.periodic = periodic
        self.minimize_global_span = minimize_global_span
        self.solver = solver
