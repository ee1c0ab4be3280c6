"""C29: files are read as they say."""
from collections import defaultdict
from numbers import Number

import numpy as np
import vrplib

from pyvrp import read, read_solution
from pyvrp._pyvrp import (Activity, ActivityType, Client, ClientGroup, Depot,
                          Location, ProblemData, Route, Shipment, Solution,
                          VehicleType)
from pyvrp.constants import MAX_SIZE, MAX_VALUE
from pyvrp.Result import Result
from pyvrp.cli import write_solution
from pyvrp.read import ROUND_FUNCS, _InstanceParser, _ProblemDataBuilder

MOST = np.iinfo(np.int64).max


# ------------------------------------------------ what the sections say
def got_counts(instance: dict, fn):
    p = _InstanceParser(instance, fn)
    return (p.num_locations, p.num_depots, p.num_shipments, p.num_clients,
            p.num_vehicles)


def want_counts(instance: dict, fn):
    depots = instance.get("depot", np.array([0])).size
    shipments = 0
    if "pickup_and_delivery" in instance:
        shipments = len(instance["pickup_and_delivery"]) - depots
    clients = instance["dimension"] - depots - shipments
    return (instance["dimension"], depots, shipments, clients,
            instance.get("vehicles", clients))


def got_type(instance: dict, fn):
    return _InstanceParser(instance, fn).type()


def want_type(instance: dict, fn):
    return instance.get("type", "")


def got_edge_weight(instance: dict, fn):
    return _InstanceParser(instance, fn).edge_weight()


def want_edge_weight(instance: dict, fn):
    return fn(instance["edge_weight"])


def got_depot_idcs(instance: dict, fn):
    return _InstanceParser(instance, fn).depot_idcs()


def want_depot_idcs(instance: dict, fn):
    return instance.get("depot", np.array([0]))


def got_backhauls(instance: dict, fn):
    return _InstanceParser(instance, fn).backhauls()


def want_backhauls(instance: dict, fn):
    if "backhaul" in instance:
        return fn(instance["backhaul"])
    return np.zeros((instance["dimension"], 1), dtype=np.int64)


def got_demands(instance: dict, fn):
    return _InstanceParser(instance, fn).demands()


def want_demands(instance: dict, fn):
    if "demand" in instance:
        return fn(instance["demand"])
    if "linehaul" in instance:
        return fn(instance["linehaul"])
    return np.zeros((instance["dimension"], 1), dtype=np.int64)


def got_coords(instance: dict, fn):
    return _InstanceParser(instance, fn).coords()


def want_coords(instance: dict, fn):
    if "node_coord" in instance:
        return fn(instance["node_coord"])
    return np.zeros((instance["dimension"], 2), dtype=np.int64)


def got_service(instance: dict, fn):
    return _InstanceParser(instance, fn).service_times()


def want_service(instance: dict, fn):
    """A single number is for every location but the depots."""
    given = instance.get("service_time", 0)
    if isinstance(given, Number):
        each = np.full(instance["dimension"], given)
        each[: instance.get("depot", np.array([0])).size] = 0
        return fn(each)
    return fn(given)


def got_windows(instance: dict, fn):
    return _InstanceParser(instance, fn).time_windows()


def want_windows(instance: dict, fn):
    if "pickup_and_delivery" in instance:
        return fn(instance["pickup_and_delivery"][:, 1:3])
    if "time_window" in instance:
        return fn(instance["time_window"])
    tws = np.empty((instance["dimension"], 2), dtype=np.int64)
    tws[:, 0] = 0
    tws[:, 1] = MOST
    return tws


def got_release(instance: dict, fn):
    return _InstanceParser(instance, fn).release_times()


def want_release(instance: dict, fn):
    return fn(np.broadcast_to(instance.get("release_time", 0),
                              instance["dimension"]))


def got_prizes(instance: dict, fn):
    return _InstanceParser(instance, fn).prizes()


def want_prizes(instance: dict, fn):
    if "prize" in instance:
        return fn(instance["prize"])
    return np.zeros(instance["dimension"], dtype=np.int64)


def vehicles_in(instance: dict):
    depots = instance.get("depot", np.array([0])).size
    n = instance["dimension"] - depots
    if "pickup_and_delivery" in instance:
        n = n - (len(instance["pickup_and_delivery"]) - depots)
    return instance.get("vehicles", n)


def got_capacities(instance: dict, fn):
    return _InstanceParser(instance, fn).capacities()


def want_capacities(instance: dict, fn):
    if "capacity" not in instance:
        return np.full(vehicles_in(instance), MOST)
    given = instance["capacity"]
    if isinstance(given, Number):
        return fn(np.full(vehicles_in(instance), given))
    return fn(given)


def got_reloads(instance: dict, fn):
    return _InstanceParser(instance, fn).reload_depots()


def want_reloads(instance: dict, fn):
    if "vehicles_reload_depot" not in instance:
        return [tuple() for _ in range(vehicles_in(instance))]
    given = instance["vehicles_reload_depot"]
    if isinstance(given[0], Number):
        given = np.atleast_2d(given).T
    return [tuple(idx - 1 for idx in depots) for depots in given]


def got_allowed(instance: dict, fn):
    return _InstanceParser(instance, fn).allowed_clients()


def want_allowed(instance: dict, fn):
    if "vehicles_allowed_clients" not in instance:
        first = instance.get("depot", np.array([0])).size
        return [tuple(range(first, instance["dimension"]))
                for _ in range(vehicles_in(instance))]
    given = instance["vehicles_allowed_clients"]
    if isinstance(given[0], Number):
        given = np.atleast_2d(given).T
    return [tuple(idx - 1 for idx in clients) for clients in given]


def got_vehicle_depots(instance: dict, fn):
    return _InstanceParser(instance, fn).vehicles_depots()


def want_vehicle_depots(instance: dict, fn):
    if "vehicles_depot" in instance:
        return instance["vehicles_depot"] - 1
    return np.full(vehicles_in(instance),
                   instance.get("depot", np.array([0]))[0])


def got_max_distances(instance: dict, fn):
    return _InstanceParser(instance, fn).max_distances()


def want_max_distances(instance: dict, fn):
    if "vehicles_max_distance" not in instance:
        return np.full(vehicles_in(instance), MOST)
    return fn(np.broadcast_to(instance["vehicles_max_distance"],
                              vehicles_in(instance)))


def got_shifts(instance: dict, fn):
    return _InstanceParser(instance, fn).shift_durations()


def want_shifts(instance: dict, fn):
    if "vehicles_max_duration" not in instance:
        return np.full(vehicles_in(instance), MOST)
    return fn(np.broadcast_to(instance["vehicles_max_duration"],
                              vehicles_in(instance)))


def got_max_reloads(instance: dict, fn):
    return _InstanceParser(instance, fn).max_reloads()


def want_max_reloads(instance: dict, fn):
    return np.broadcast_to(instance.get("vehicles_max_reloads", MAX_SIZE),
                           vehicles_in(instance))


def got_fixed(instance: dict, fn):
    return _InstanceParser(instance, fn).fixed_costs()


def want_fixed(instance: dict, fn):
    return fn(np.broadcast_to(instance.get("vehicles_fixed_cost", 0),
                              vehicles_in(instance)))


def got_unit(instance: dict, fn):
    return _InstanceParser(instance, fn).unit_distance_costs()


def want_unit(instance: dict, fn):
    """(not rounded: it multiplies a distance that already is)"""
    return np.broadcast_to(instance.get("vehicles_unit_distance_cost", 1),
                           vehicles_in(instance))


def got_exclusive(instance: dict, fn):
    return _InstanceParser(instance, fn).mutually_exclusive_groups()


def want_exclusive(instance: dict, fn):
    if "mutually_exclusive_group" not in instance:
        return []
    first = instance.get("depot", np.array([0])).size
    given = instance["mutually_exclusive_group"]
    if isinstance(given[0], Number):
        given = np.atleast_2d(given).T
    out = []
    for group in given:
        members = [idx - first - 1 for idx in group]
        if len(members) > 1:
            out.append(members)
    return out


def got_pairs(instance: dict, fn):
    return _InstanceParser(instance, fn).shipments()


def want_pairs(instance: dict, fn):
    """Everything but the two indices is rounded."""
    if "pickup_and_delivery" not in instance:
        return np.array([])
    rows = instance["pickup_and_delivery"]
    rows[:, :4] = fn(rows[:, :4])
    return rows


# ------------------------------------------------- what is made of them
def got_locations(parser: _InstanceParser):
    return _ProblemDataBuilder(parser)._locations()


def want_locations(parser: _InstanceParser):
    return [Location(x=xy[0], y=xy[1]) for xy in parser.coords()]


def got_depots(parser: _InstanceParser):
    return _ProblemDataBuilder(parser)._depots()


def want_depots(parser: _InstanceParser):
    n = parser.num_depots
    if n == 0:
        raise ValueError
    if (parser.depot_idcs() != np.arange(n)).any():
        raise ValueError
    return [Depot(location=i) for i in range(n)]


def got_clients(parser: _InstanceParser):
    return _ProblemDataBuilder(parser)._clients()


def want_clients(parser: _InstanceParser):
    first = parser.num_depots
    within = [None for _ in range(parser.num_clients)]
    for which, members in enumerate(parser.mutually_exclusive_groups()):
        for client in members:
            within[client] = which
    prizes = parser.prizes()
    tws = parser.time_windows()
    return [
        Client(location=first + i,
               delivery=np.atleast_1d(parser.demands()[first + i]),
               pickup=np.atleast_1d(parser.backhauls()[first + i]),
               service_duration=parser.service_times()[first + i],
               tw_early=tws[first + i][0], tw_late=tws[first + i][1],
               release_time=parser.release_times()[first + i],
               prize=prizes[first + i],
               required=np.isclose(prizes, 0)[first + i] and
               within[i] is None,
               group=within[i])
        for i in range(parser.num_clients)]


def got_groups(parser: _InstanceParser):
    return _ProblemDataBuilder(parser)._groups()


def want_groups(parser: _InstanceParser):
    return [ClientGroup(g) for g in parser.mutually_exclusive_groups()]


def got_shipments(parser: _InstanceParser):
    return _ProblemDataBuilder(parser)._shipments()


def want_shipments(parser: _InstanceParser):
    out = []
    rows = parser.shipments()
    for i in range(len(rows)):
        frm, to = rows[i][-2], rows[i][-1]
        if frm == 0 and to > 0:
            other = rows[to - parser.num_depots]
            out.append(Shipment(
                pickup_location=i,
                delivery_location=to - parser.num_depots,
                pickup_tw_early=rows[i][1], pickup_tw_late=rows[i][2],
                pickup_service_duration=rows[i][3],
                delivery_tw_early=other[1], delivery_tw_late=other[2],
                delivery_service_duration=other[3], amount=[rows[i][0]],
                name=f"{other[-2]} -> {to}"))
    return out


def got_profiles(parser: _InstanceParser):
    return _ProblemDataBuilder(parser)._allowed2profile()


def profiles_of(parser: _InstanceParser):
    """Vehicles with the same clients have the same profile."""
    out = {}
    made = 0
    for clients in parser.allowed_clients():
        if clients not in out:
            out[clients] = made
            made += 1
    return out


def want_profiles(parser: _InstanceParser):
    return profiles_of(parser)


def got_vehicles(parser: _InstanceParser):
    return _ProblemDataBuilder(parser)._vehicle_types()


def want_vehicles(parser: _InstanceParser):
    """Vehicles that are the same in everything are one type."""
    given = (parser.capacities(), parser.allowed_clients(),
             parser.reload_depots(), parser.vehicles_depots(),
             parser.max_distances(), parser.shift_durations(),
             parser.max_reloads(), parser.fixed_costs(),
             parser.unit_distance_costs())
    for attr in given:
        if len(attr) != parser.num_vehicles:
            raise ValueError
    alike = defaultdict(list)
    for vehicle, (capacity, *others) in enumerate(zip(*given)):
        alike[(tuple(np.atleast_1d(capacity)), *others)].append(vehicle)
    profile = profiles_of(parser)
    tws = parser.time_windows()
    return [VehicleType(num_available=len(vehicles), capacity=a[0],
                        start_depot=a[3], end_depot=a[3], fixed_cost=a[7],
                        tw_early=tws[a[3]][0], tw_late=tws[a[3]][1],
                        shift_duration=a[5], max_distance=a[4],
                        unit_distance_cost=a[8], profile=profile[a[1]],
                        reload_depots=a[2], max_reloads=a[6],
                        name=",".join(map(str, vehicles)))
            for a, vehicles in alike.items()]


def got_matrices(parser: _InstanceParser):
    return _ProblemDataBuilder(parser)._distance_matrices()


def want_matrices(parser: _InstanceParser):
    base = parser.edge_weight()
    if parser.type() == "VRPB":
        # no linehaul after backhaul, and no backhaul first
        line = parser.demands() > 0
        back = parser.backhauls() > 0
        base[0, back] = MAX_VALUE
        base[np.ix_(back, line)] = MAX_VALUE
    profiles = profiles_of(parser)
    mats = [base.copy() for _ in range(len(profiles))]
    for clients, idx in profiles.items():
        if len(clients) != parser.num_clients:
            allowed = np.zeros((parser.num_locations,), dtype=bool)
            allowed[:parser.num_depots] = True
            allowed[list(clients)] = True
            mats[idx] = mats[idx].astype(np.promote_types(mats[idx].dtype,
                                                          np.int64))
            mat = mats[idx]
            mat[:, ~allowed] = mat[~allowed, :] = MAX_VALUE
            np.fill_diagonal(mat, 0)
    return mats


def got_data(parser: _InstanceParser):
    return _ProblemDataBuilder(parser).data()


def want_data(parser: _InstanceParser):
    b = _ProblemDataBuilder(parser)
    mats = b._distance_matrices()
    return ProblemData(locations=b._locations(), clients=b._clients(),
                       depots=b._depots(), vehicle_types=b._vehicle_types(),
                       distance_matrices=mats, duration_matrices=mats,
                       groups=b._groups(), shipments=b._shipments())


def got_read(where):
    return read(where, "exact")


def want_read(where):
    return _ProblemDataBuilder(_InstanceParser(
        vrplib.read_instance(where), ROUND_FUNCS["exact"])).data()


def got_rounding(x):
    return (ROUND_FUNCS["round"](x), ROUND_FUNCS["trunc"](x),
            ROUND_FUNCS["dimacs"](x), ROUND_FUNCS["exact"](x),
            ROUND_FUNCS["none"](x))


def want_rounding(x):
    return (np.round(x).astype(np.int64), x.astype(np.int64),
            (10 * x).astype(np.int64), np.round(1000 * x).astype(np.int64), x)


def got_solution(where, data: ProblemData):
    return read_solution(where, data)


def want_solution(where, data: ProblemData):
    """Routes are listed by vehicle, visits by location."""
    given = vrplib.read_solution(str(where))["routes"]
    kind = np.zeros((data.num_vehicles,), dtype=int)
    for idx, vt in enumerate(data.vehicle_types()):
        kind[list(map(int, vt.name.split(",")))] = idx
    at = [None] * data.num_locations
    for idx, depot in enumerate(data.depots()):
        at[depot.location] = Activity(ActivityType.DEPOT, idx)
    for idx, client in enumerate(data.clients()):
        at[client.location] = Activity(ActivityType.CLIENT, idx)
    for idx, shipment in enumerate(data.shipments()):
        at[shipment.pickup.location] = Activity(ActivityType.PICKUP, idx)
        at[shipment.delivery.location] = Activity(ActivityType.DELIVERY, idx)
    routes = []
    for vehicle in range(len(given)):
        if len(given[vehicle]) > 0:
            routes.append(Route(data, [at[v] for v in given[vehicle]],
                                kind[vehicle]))
    return Solution(data, routes)


def opened(where, mode):
    return None


def got_written(where, data: ProblemData, result: Result):
    if data.num_vehicle_types != 1:
        return None
    return write_solution(where, data, result)


def visits_of(data: ProblemData, route: Route):
    visits = []
    for act in route:
        if act.type == ActivityType.DEPOT:
            visits.append(data.depot(act.idx).location)
        elif act.type == ActivityType.CLIENT:
            visits.append(data.client(act.idx).location)
        elif act.type == ActivityType.PICKUP:
            visits.append(data.shipment(act.idx).pickup.location)
        elif act.type == ActivityType.DELIVERY:
            visits.append(data.shipment(act.idx).delivery.location)
    return " ".join(map(str, visits[1:-1]))


def want_written(where, data: ProblemData, result: Result):
    if data.num_vehicle_types != 1:
        return None
    fh = opened(where, "w")
    n = 0
    for route in result.best.routes():
        n += 1
        fh.write(f"Route #{n}: {visits_of(data, route)}\n")
    fh.write(f"Cost: {round(result.cost(), 2)}\n")
    return None


def got_written_types(where, data: ProblemData, result: Result):
    if data.num_vehicle_types == 1:
        return None
    return write_solution(where, data, result)


def want_written_types(where, data: ProblemData, result: Result):
    """Every vehicle has a line, and each type's routes its vehicles."""
    if data.num_vehicle_types == 1:
        return None
    fh = opened(where, "w")
    vehicles = [(int(v) for v in vt.name.split(","))
                for vt in data.vehicle_types()]
    lines = [f"Route #{v + 1}:" for v in range(data.num_vehicles)]
    for route in result.best.routes():
        v = next(vehicles[route.vehicle_type()])
        lines[v] = lines[v] + " " + visits_of(data, route)
    fh.writelines(line + "\n" for line in lines)
    fh.write(f"Cost: {round(result.cost(), 2)}\n")
    return None
