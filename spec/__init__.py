from vrpy.vrp import VehicleRoutingProblem
