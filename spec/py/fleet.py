"""C30: fleet minimisation, whatever the solver finds."""
import math

from pyvrp import minimise_fleet, solve
from pyvrp._pyvrp import CostEvaluator, ProblemData, Solution, VehicleType
from pyvrp.minimise_fleet import _lower_bound
from pyvrp.solve import SolveParams
from pyvrp.stop import FirstFeasible, MultipleCriteria, StoppingCriterion


def got_fleet(data: ProblemData, stop: StoppingCriterion, seed,
              params: SolveParams):
    return minimise_fleet(data, stop, seed, params)


def want_fleet(data: ProblemData, stop: StoppingCriterion, seed,
               params: SolveParams):
    if data.num_vehicle_types != 1:
        raise ValueError
    for client in data.clients():
        if not client.required:
            raise ValueError

    known = data.vehicle_type(0)  # works, or was given
    least = max(needed(data), 1)
    while known.num_available > least:
        tried = known.replace(num_available=known.num_available - 1)
        data = data.replace(vehicle_types=[tried])
        best = solve(data, MultipleCriteria([FirstFeasible(), stop]), seed,
                     False, False, params, None).best
        free = CostEvaluator([0 for _ in range(data.num_load_dimensions)], 0,
                             0)
        if stop(free.cost(best)) or not best.is_feasible():
            break
        known = tried
        if best.num_routes() < data.num_vehicles:
            used = best.num_routes()
            known = tried.replace(num_available=used if used > 1 else 1)
    return known


def got_bound(data: ProblemData):
    return _lower_bound(data)


def want_bound(data: ProblemData):
    return needed(data)


def needed(data: ProblemData):
    """Vehicles needed to carry all deliveries, or all pickups."""
    most = 0
    vt = data.vehicle_type(0)
    for dim in range(data.num_load_dimensions):
        down = sum(c.delivery[dim] for c in data.clients())
        up = sum(c.pickup[dim] for c in data.clients())
        carried = vt.capacity[dim] * vt.max_trips
        if carried < 1:
            carried = 1
        most = max(most, math.ceil(max(down, up) / carried))
    return most
