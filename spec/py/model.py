"""C27: the model interface builds the problem it was told."""
import numpy as np

from pyvrp._pyvrp import (Client, ClientGroup, Depot, Location, ProblemData,
                          Shipment, VehicleType)
from pyvrp.constants import MAX_SIZE, MAX_VALUE
from pyvrp.Model import Edge, Model, Profile


MOST = np.iinfo(np.int64).max


def place(things, thing):
    """Where this very thing is (not one that looks the same)."""
    for idx, other in enumerate(things):
        if thing is other:
            return idx
    raise ValueError


def got_depot(data: ProblemData, location, tw_early, tw_late,
              service_duration, name):
    m = Model.from_data(data)
    r = m.add_depot(location, tw_early, tw_late, service_duration, name=name)
    return r, m.depots


def want_depot(data: ProblemData, location, tw_early, tw_late,
               service_duration, name):
    d = Depot(location=place(data.locations(), location), tw_early=tw_early,
              tw_late=tw_late, service_duration=service_duration, name=name)
    return d, data.depots() + [d]


def got_client(data: ProblemData, location, delivery, pickup,
               service_duration, tw_early, tw_late, release_time, prize,
               required, group, name):
    m = Model.from_data(data)
    r = m.add_client(location, delivery, pickup, service_duration, tw_early,
                     tw_late, release_time, prize, required, group, name=name)
    return r, m.clients


def listed(x):
    return [x] if isinstance(x, int) else x


def want_client(data: ProblemData, location, delivery, pickup,
                service_duration, tw_early, tw_late, release_time, prize,
                required, group, name):
    within = None
    if group is not None:
        within = place(data.groups(), group)
        if required and group.mutually_exclusive:
            raise ValueError
    c = Client(location=place(data.locations(), location),
               delivery=listed(delivery), pickup=listed(pickup),
               service_duration=service_duration, tw_early=tw_early,
               tw_late=tw_late, release_time=release_time, prize=prize,
               required=required, group=within, name=name)
    if group is not None:
        data.groups()[within].add_client(len(data.clients()))
    return c, data.clients() + [c]


def modelled(locs: list[Location], profiles: list[Profile],
             edges: list[Edge]):
    m = Model()
    m.locations.extend(locs)
    m.profiles.extend(profiles)
    for e in edges:
        m.add_edge(e.frm, e.to, e.distance, e.duration)
    return m


def got_distances(locs: list[Location], profiles: list[Profile],
                  edges: list[Edge], missing):
    return modelled(locs, profiles, edges).data(missing).distance_matrices


def got_durations(locs: list[Location], profiles: list[Profile],
                  edges: list[Edge], missing):
    return modelled(locs, profiles, edges).data(missing).duration_matrices


def filled(edges: list[Edge], where, mat, what):
    """The matrix with these edges in it; the last one of a pair counts."""
    for edge in edges:
        mat[where[id(edge.frm)], where[id(edge.to)]] = getattr(edge, what)
    return mat


def blank(n, value):
    mat = np.full((n, n), value, np.int64)
    np.fill_diagonal(mat, 0)
    return mat


def matrices(locs: list[Location], profiles: list[Profile],
             edges: list[Edge], missing, what):
    where = {id(loc): idx for idx, loc in enumerate(locs)}
    value = missing if missing < MAX_VALUE else MAX_VALUE
    base = [Edge(e.frm, e.to, e.distance, e.duration) for e in edges]
    if len(profiles) < 1:
        return [filled(base, where, blank(len(locs), value), what)]
    return [filled(profile.edges, where,
                   filled(base, where, blank(len(locs), value), what), what)
            for profile in profiles]


def want_distances(locs: list[Location], profiles: list[Profile],
                   edges: list[Edge], missing):
    return matrices(locs, profiles, edges, missing, "distance")


def want_durations(locs: list[Location], profiles: list[Profile],
                   edges: list[Edge], missing):
    return matrices(locs, profiles, edges, missing, "duration")


def got_instance(data: ProblemData):
    r = Model.from_data(data).data()
    return (r.locations, r.clients, r.depots, r.vehicle_types, r.groups,
            r.shipments)


def want_instance(data: ProblemData):
    return (data.locations(), data.clients(), data.depots(),
            data.vehicle_types(), data.groups(), data.shipments())


def got_edges(data: ProblemData):
    return [p.edges for p in Model.from_data(data).profiles]


def want_edges(data: ProblemData):
    locs = data.locations()
    out = []
    for profile in range(data.num_profiles):
        dist = data.distance_matrix(profile=profile)
        dur = data.duration_matrix(profile=profile)
        out.append([Edge(locs[i], locs[j], dist[i, j], dur[i, j])
                    for i in range(data.num_locations)
                    for j in range(data.num_locations)])
    return out


def got_client_defaults(data: ProblemData, location):
    m = Model.from_data(data)
    return m.add_client(location)


def want_client_defaults(data: ProblemData, location):
    return Client(location=place(data.locations(), location), delivery=[],
                  pickup=[], service_duration=0, tw_early=0, tw_late=MOST,
                  release_time=0, prize=0, required=True, group=None, name="")


def got_shipment(data: ProblemData, pickup_location, delivery_location,
                 pickup_tw_early, pickup_tw_late, pickup_service_duration,
                 delivery_tw_early, delivery_tw_late,
                 delivery_service_duration, amount, prize, required, name):
    m = Model.from_data(data)
    r = m.add_shipment(pickup_location, delivery_location, pickup_tw_early,
                       pickup_tw_late, pickup_service_duration,
                       delivery_tw_early, delivery_tw_late,
                       delivery_service_duration, amount, prize, required,
                       name=name)
    return r, m.shipments


def want_shipment(data: ProblemData, pickup_location, delivery_location,
                  pickup_tw_early, pickup_tw_late, pickup_service_duration,
                  delivery_tw_early, delivery_tw_late,
                  delivery_service_duration, amount, prize, required, name):
    s = Shipment(
        pickup_location=place(data.locations(), pickup_location),
        delivery_location=place(data.locations(), delivery_location),
        pickup_tw_early=pickup_tw_early, pickup_tw_late=pickup_tw_late,
        pickup_service_duration=pickup_service_duration,
        delivery_tw_early=delivery_tw_early,
        delivery_tw_late=delivery_tw_late,
        delivery_service_duration=delivery_service_duration,
        amount=listed(amount), prize=prize, required=required, name=name)
    return s, data.shipments() + [s]


def got_shipment_defaults(data: ProblemData, frm, to):
    m = Model.from_data(data)
    return m.add_shipment(frm, to)


def want_shipment_defaults(data: ProblemData, frm, to):
    locs = data.locations()
    return Shipment(
        pickup_location=place(locs, frm), delivery_location=place(locs, to),
        pickup_tw_early=0, pickup_tw_late=MOST, pickup_service_duration=0,
        delivery_tw_early=0, delivery_tw_late=MOST,
        delivery_service_duration=0, amount=[], prize=0, required=True,
        name="")


def got_group(data: ProblemData, required, name):
    m = Model.from_data(data)
    r = m.add_client_group(required, name=name)
    return r, m.groups


def want_group(data: ProblemData, required, name):
    g = ClientGroup(required=required, name=name)
    return g, data.groups() + [g]


def got_location(data: ProblemData, x, y, name):
    m = Model.from_data(data)
    r = m.add_location(x, y, name=name)
    return r, m.locations


def want_location(data: ProblemData, x, y, name):
    loc = Location(x=x, y=y, name=name)
    return loc, data.locations() + [loc]


def got_depot_defaults(data: ProblemData, location):
    m = Model.from_data(data)
    return m.add_depot(location)


def want_depot_defaults(data: ProblemData, location):
    return Depot(location=place(data.locations(), location), tw_early=0,
                 tw_late=MOST, service_duration=0, name="")


def got_vehicle(data: ProblemData, num_available, capacity, start_depot,
                end_depot, fixed_cost, tw_early, tw_late, shift_duration,
                max_distance, unit_distance_cost, unit_duration_cost, profile,
                start_late, initial_load, reload_depots: list[Depot],
                max_reloads, max_overtime, unit_overtime_cost, name):
    m = Model.from_data(data)
    r = m.add_vehicle_type(
        num_available, capacity, start_depot, end_depot, fixed_cost, tw_early,
        tw_late, shift_duration, max_distance, unit_distance_cost,
        unit_duration_cost, profile, start_late, initial_load, reload_depots,
        max_reloads, max_overtime, unit_overtime_cost, name=name)
    return r, m.vehicle_types


def want_vehicle(data: ProblemData, num_available, capacity, start_depot,
                 end_depot, fixed_cost, tw_early, tw_late, shift_duration,
                 max_distance, unit_distance_cost, unit_duration_cost,
                 profile, start_late, initial_load,
                 reload_depots: list[Depot], max_reloads, max_overtime,
                 unit_overtime_cost, name):
    depots = data.depots()
    start = end = of = 0
    if start_depot is not None:
        start = place(depots, start_depot)
    if end_depot is not None:
        end = place(depots, end_depot)
    if profile is not None:
        of = place(Model.from_data(data).profiles, profile)
    reloads = []
    for depot in reload_depots:
        reloads.append(place(depots, depot))
    vt = VehicleType(
        num_available=num_available, capacity=listed(capacity),
        start_depot=start, end_depot=end, fixed_cost=fixed_cost,
        tw_early=tw_early, tw_late=tw_late, shift_duration=shift_duration,
        max_distance=max_distance, unit_distance_cost=unit_distance_cost,
        unit_duration_cost=unit_duration_cost, profile=of,
        start_late=start_late, initial_load=listed(initial_load),
        reload_depots=reloads, max_reloads=max_reloads,
        max_overtime=max_overtime, unit_overtime_cost=unit_overtime_cost,
        name=name)
    return vt, data.vehicle_types() + [vt]


def got_vehicle_defaults(data: ProblemData):
    m = Model.from_data(data)
    return m.add_vehicle_type()


def want_vehicle_defaults(data: ProblemData):
    return VehicleType(
        num_available=1, capacity=[], start_depot=0, end_depot=0,
        fixed_cost=0, tw_early=0, tw_late=MOST, shift_duration=MOST,
        max_distance=MOST, unit_distance_cost=1, unit_duration_cost=0,
        profile=0, start_late=None, initial_load=[], reload_depots=[],
        max_reloads=MAX_SIZE, max_overtime=0, unit_overtime_cost=0, name="")


def got_whole(data: ProblemData):
    m = Model.from_data(data)
    return (m.locations, m.clients, m.depots, m.groups, m.shipments,
            m.vehicle_types, len(m.profiles))


def want_whole(data: ProblemData):
    return (data.locations(), data.clients(), data.depots(), data.groups(),
            data.shipments(), data.vehicle_types(), data.num_profiles)


def got_edge(frm, to, distance, duration):
    m = Model()
    e = m.add_edge(frm, to, distance, duration)
    return e.frm, e.to, e.distance, e.duration


def want_edge(frm, to, distance, duration):
    if distance < 0 or duration < 0:
        raise ValueError
    if frm is to and (distance != 0 or duration != 0):
        raise ValueError
    return frm, to, distance, duration


def got_edge_default(frm, to, distance):
    m = Model()
    e = m.add_edge(frm, to, distance)
    return e.frm, e.to, e.distance, e.duration


def want_edge_default(frm, to, distance):
    return want_edge(frm, to, distance, 0)


def got_profile(frm, to, name):
    """Edges given with a profile are that profile's own."""
    m = Model()
    one = Profile(name=name)
    e = m.add_edge(frm, to, 1, 2, one)
    return (one.name, len(one.edges), e.frm, e.to, e.distance, e.duration,
            one.edges[0].frm, one.edges[0].to, one.edges[0].distance,
            one.edges[0].duration)


def want_profile(frm, to, name):
    if frm is to:
        raise ValueError
    return name, 1, frm, to, 1, 2, frm, to, 1, 2


def got_profiles(data: ProblemData, name):
    m = Model.from_data(data)
    return m.add_profile(name=name).name, len(m.profiles)


def want_profiles(data: ProblemData, name):
    return name, data.num_profiles + 1
