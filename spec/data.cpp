// Instance objects: what they accept and store (C03, C04), equality (C02) and
// replace() (C05).
#include "CostEvaluator.h"
#include "Activity.h"
#include "ProblemData.h"

#include <limits>
#include <optional>
#include <stdexcept>
#include <string>
#include <vector>

namespace pyvrp::spec
{
using Loads = std::vector<Load>;

static void reject() { throw std::invalid_argument(""); }

// C03: locations.

struct LocationF
{
    Coordinate x;
    Coordinate y;
    std::string name;
};

LocationF fields(Location const &v) { return {v.x, v.y, std::string(v.name)}; }

LocationF got_location(Coordinate x, Coordinate y, std::string name)
{
    return fields(Location(x, y, name));
}

LocationF want_location(Coordinate x, Coordinate y, std::string name)
{
    return {x, y, name};
}

LocationF got_locationCopy(Location const &v)
{
    Location const copy(v);
    return fields(copy);
}

LocationF want_locationCopy(Location const &v) { return fields(v); }

LocationF got_locationMove(Location v)
{
    Location const moved(std::move(v));
    return fields(moved);
}

LocationF want_locationMove(Location v) { return fields(v); }

bool got_locationEqual(Location const &a, Location const &b) { return a == b; }

bool want_locationEqual(Location const &a, Location const &b)
{
    return a.x == b.x && a.y == b.y
           && std::string(a.name) == std::string(b.name);
}

// C03: clients.

struct ClientF
{
    size_t location;
    Loads delivery;
    Loads pickup;
    Duration serviceDuration;
    Duration twEarly;
    Duration twLate;
    Duration releaseTime;
    Cost prize;
    bool required;
    std::optional<size_t> group;
    std::string name;
};

ClientF fields(Client const &v)
{
    return {v.location,
            v.delivery,
            v.pickup,
            v.serviceDuration,
            v.twEarly,
            v.twLate,
            v.releaseTime,
            v.prize,
            v.required,
            v.group,
            std::string(v.name)};
}

ClientF got_client(size_t location,
                   Loads delivery,
                   Loads pickup,
                   Duration serviceDuration,
                   Duration twEarly,
                   Duration twLate,
                   Duration releaseTime,
                   Cost prize,
                   bool required,
                   std::optional<size_t> group,
                   std::string name)
{
    Client const v(location,
                   delivery,
                   pickup,
                   serviceDuration,
                   twEarly,
                   twLate,
                   releaseTime,
                   prize,
                   required,
                   group,
                   name);
    return fields(v);
}

ClientF want_client(size_t location,
                    Loads delivery,
                    Loads pickup,
                    Duration serviceDuration,
                    Duration twEarly,
                    Duration twLate,
                    Duration releaseTime,
                    Cost prize,
                    bool required,
                    std::optional<size_t> group,
                    std::string name)
{
    size_t const dims = std::max(delivery.size(), pickup.size());
    delivery.resize(dims);
    pickup.resize(dims);

    for (auto const load : delivery)
        if (load < 0)
            reject();
    for (auto const load : pickup)
        if (load < 0)
            reject();
    if (serviceDuration < 0 || twEarly > twLate || twEarly < 0
        || releaseTime > twLate || releaseTime < 0 || prize < 0)
        reject();

    return {location,
            delivery,
            pickup,
            serviceDuration,
            twEarly,
            twLate,
            releaseTime,
            prize,
            required,
            group,
            name};
}

ClientF got_clientCopy(Client const &v)
{
    Client const copy(v);
    return fields(copy);
}

ClientF want_clientCopy(Client const &v) { return fields(v); }

ClientF got_clientMove(Client v)
{
    Client const moved(std::move(v));
    return fields(moved);
}

ClientF want_clientMove(Client v) { return fields(v); }

bool got_clientEqual(Client const &a, Client const &b) { return a == b; }

bool want_clientEqual(Client const &a, Client const &b)
{
    return a.location == b.location && a.delivery == b.delivery
           && a.pickup == b.pickup && a.serviceDuration == b.serviceDuration
           && a.twEarly == b.twEarly && a.twLate == b.twLate
           && a.releaseTime == b.releaseTime && a.prize == b.prize
           && a.required == b.required && a.group == b.group
           && std::string(a.name) == std::string(b.name);
}

// Depots.

struct DepotF
{
    size_t location;
    Duration twEarly;
    Duration twLate;
    Duration serviceDuration;
    std::string name;
};

DepotF fields(Depot const &v)
{
    return {v.location,
            v.twEarly,
            v.twLate,
            v.serviceDuration,
            std::string(v.name)};
}

DepotF got_depot(size_t location,
                 Duration twEarly,
                 Duration twLate,
                 Duration serviceDuration,
                 std::string name)
{
    Depot const v(location, twEarly, twLate, serviceDuration, name);
    return fields(v);
}

DepotF want_depot(size_t location,
                  Duration twEarly,
                  Duration twLate,
                  Duration serviceDuration,
                  std::string name)
{
    if (serviceDuration < 0 || twEarly > twLate || twEarly < 0)
        reject();
    return {location, twEarly, twLate, serviceDuration, name};
}

DepotF got_depotCopy(Depot const &v)
{
    Depot const copy(v);
    return fields(copy);
}

DepotF want_depotCopy(Depot const &v) { return fields(v); }

DepotF got_depotMove(Depot v)
{
    Depot const moved(std::move(v));
    return fields(moved);
}

DepotF want_depotMove(Depot v) { return fields(v); }

bool got_depotEqual(Depot const &a, Depot const &b) { return a == b; }

bool want_depotEqual(Depot const &a, Depot const &b)
{
    return a.location == b.location && a.twEarly == b.twEarly
           && a.twLate == b.twLate && a.serviceDuration == b.serviceDuration
           && std::string(a.name) == std::string(b.name);
}

// Shipments.

struct StepF
{
    size_t location;
    Duration twEarly;
    Duration twLate;
    Duration serviceDuration;
};

struct ShipmentF
{
    size_t pickupLocation;
    Duration pickupTwEarly;
    Duration pickupTwLate;
    Duration pickupServiceDuration;
    size_t deliveryLocation;
    Duration deliveryTwEarly;
    Duration deliveryTwLate;
    Duration deliveryServiceDuration;
    Loads amount;
    Cost prize;
    bool required;
    std::string name;
};

ShipmentF fields(Shipment const &v)
{
    return {v.pickup.location,
            v.pickup.twEarly,
            v.pickup.twLate,
            v.pickup.serviceDuration,
            v.delivery.location,
            v.delivery.twEarly,
            v.delivery.twLate,
            v.delivery.serviceDuration,
            v.amount,
            v.prize,
            v.required,
            std::string(v.name)};
}

StepF got_step(size_t location,
               Duration twEarly,
               Duration twLate,
               Duration serviceDuration)
{
    Shipment::Step const v(location, twEarly, twLate, serviceDuration);
    return {v.location, v.twEarly, v.twLate, v.serviceDuration};
}

StepF want_step(size_t location,
                Duration twEarly,
                Duration twLate,
                Duration serviceDuration)
{
    if (serviceDuration < 0 || twEarly > twLate || twEarly < 0)
        reject();
    return {location, twEarly, twLate, serviceDuration};
}

ShipmentF got_shipment(size_t pLoc,
                       size_t dLoc,
                       Duration pEarly,
                       Duration pLate,
                       Duration pService,
                       Duration dEarly,
                       Duration dLate,
                       Duration dService,
                       Loads amount,
                       Cost prize,
                       bool required,
                       std::string name)
{
    Shipment const v(pLoc,
                     dLoc,
                     pEarly,
                     pLate,
                     pService,
                     dEarly,
                     dLate,
                     dService,
                     amount,
                     prize,
                     required,
                     name);
    return fields(v);
}

ShipmentF want_shipment(size_t pLoc,
                        size_t dLoc,
                        Duration pEarly,
                        Duration pLate,
                        Duration pService,
                        Duration dEarly,
                        Duration dLate,
                        Duration dService,
                        Loads amount,
                        Cost prize,
                        bool required,
                        std::string name)
{
    if (pService < 0 || pEarly > pLate || pEarly < 0)
        reject();
    if (dService < 0 || dEarly > dLate || dEarly < 0)
        reject();
    if (dLate < pEarly || prize < 0)
        reject();
    for (auto const load : amount)
        if (load < 0)
            reject();
    return {pLoc,
            pEarly,
            pLate,
            pService,
            dLoc,
            dEarly,
            dLate,
            dService,
            amount,
            prize,
            required,
            name};
}

ShipmentF got_shipmentCopy(Shipment const &v)
{
    Shipment const copy(v);
    return fields(copy);
}

ShipmentF want_shipmentCopy(Shipment const &v) { return fields(v); }

ShipmentF got_shipmentMove(Shipment v)
{
    Shipment const moved(std::move(v));
    return fields(moved);
}

ShipmentF want_shipmentMove(Shipment v) { return fields(v); }

bool got_shipmentEqual(Shipment const &a, Shipment const &b) { return a == b; }

bool want_shipmentEqual(Shipment const &a, Shipment const &b)
{
    return a.pickup.location == b.pickup.location
           && a.pickup.twEarly == b.pickup.twEarly
           && a.pickup.twLate == b.pickup.twLate
           && a.pickup.serviceDuration == b.pickup.serviceDuration
           && a.delivery.location == b.delivery.location
           && a.delivery.twEarly == b.delivery.twEarly
           && a.delivery.twLate == b.delivery.twLate
           && a.delivery.serviceDuration == b.delivery.serviceDuration
           && a.amount == b.amount && a.prize == b.prize
           && a.required == b.required
           && std::string(a.name) == std::string(b.name);
}

// Client groups.

struct GroupF
{
    std::vector<size_t> clients;
    bool required;
    bool mutuallyExclusive;
    std::string name;
};

GroupF fields(ClientGroup const &v)
{
    return {v.clients(),
            v.required,
            v.mutuallyExclusive,
            std::string(v.name)};
}

GroupF got_groupMembers(std::vector<size_t> clients, bool req, std::string name)
{
    return fields(ClientGroup(clients, req, name));
}

GroupF want_groupMembers(std::vector<size_t> clients,
                         bool req,
                         std::string name)
{
    std::vector<size_t> members;
    for (auto const client : clients)
    {
        if (std::find(members.begin(), members.end(), client) != members.end())
            reject();
        members.push_back(client);
    }
    return {members, req, true, name};
}

GroupF got_groupCopy(ClientGroup const &v)
{
    ClientGroup const copy(v);
    return fields(copy);
}

GroupF want_groupCopy(ClientGroup const &v)
{
    return {v.clients_, v.required, true, std::string(v.name)};
}

GroupF got_groupMove(ClientGroup v)
{
    ClientGroup const moved(std::move(v));
    return fields(moved);
}

GroupF want_groupMove(ClientGroup v)
{
    return {v.clients_, v.required, true, std::string(v.name)};
}

bool got_groupEqual(ClientGroup const &a, ClientGroup const &b)
{
    return a == b;
}

bool want_groupEqual(ClientGroup const &a, ClientGroup const &b)
{
    return a.clients_ == b.clients_ && a.required == b.required
           && a.mutuallyExclusive == b.mutuallyExclusive
           && std::string(a.name) == std::string(b.name);
}

struct GroupView
{
    bool empty;
    size_t size;
    std::vector<size_t>::const_iterator begin;
    std::vector<size_t>::const_iterator end;
};

GroupView got_groupView(ClientGroup const &v)
{
    return {v.empty(), v.size(), v.begin(), v.end()};
}

GroupView want_groupView(ClientGroup const &v)
{
    return {v.clients_.empty(),
            v.clients_.size(),
            v.clients_.begin(),
            v.clients_.end()};
}

std::vector<size_t> got_groupAdd(ClientGroup v, size_t client)
{
    v.addClient(client);
    return v.clients_;
}

std::vector<size_t> want_groupAdd(ClientGroup v, size_t client)
{
    for (auto const member : v.clients_)
        if (member == client)
            reject();
    v.clients_.push_back(client);
    return v.clients_;
}

// Vehicle types.

struct VehicleF
{
    size_t numAvailable;
    Loads capacity;
    size_t startDepot;
    size_t endDepot;
    Cost fixedCost;
    Duration twEarly;
    Duration twLate;
    Duration shiftDuration;
    Distance maxDistance;
    Cost unitDistanceCost;
    Cost unitDurationCost;
    size_t profile;
    Duration startLate;
    Loads initialLoad;
    std::vector<size_t> reloadDepots;
    size_t maxReloads;
    Duration maxOvertime;
    Cost unitOvertimeCost;
    Duration maxDuration;
    std::string name;
};

VehicleF fields(VehicleType const &v)
{
    return {v.numAvailable,
            v.capacity,
            v.startDepot,
            v.endDepot,
            v.fixedCost,
            v.twEarly,
            v.twLate,
            v.shiftDuration,
            v.maxDistance,
            v.unitDistanceCost,
            v.unitDurationCost,
            v.profile,
            v.startLate,
            v.initialLoad,
            v.reloadDepots,
            v.maxReloads,
            v.maxOvertime,
            v.unitOvertimeCost,
            v.maxDuration,
            std::string(v.name)};
}

VehicleF got_vehicle(size_t numAvailable,
                     Loads capacity,
                     size_t startDepot,
                     size_t endDepot,
                     Cost fixedCost,
                     Duration twEarly,
                     Duration twLate,
                     Duration shiftDuration,
                     Distance maxDistance,
                     Cost unitDistanceCost,
                     Cost unitDurationCost,
                     size_t profile,
                     std::optional<Duration> startLate,
                     Loads initialLoad,
                     std::vector<size_t> reloadDepots,
                     size_t maxReloads,
                     Duration maxOvertime,
                     Cost unitOvertimeCost,
                     std::string name)
{
    VehicleType const v(numAvailable,
                        capacity,
                        startDepot,
                        endDepot,
                        fixedCost,
                        twEarly,
                        twLate,
                        shiftDuration,
                        maxDistance,
                        unitDistanceCost,
                        unitDurationCost,
                        profile,
                        startLate,
                        initialLoad,
                        reloadDepots,
                        maxReloads,
                        maxOvertime,
                        unitOvertimeCost,
                        name);
    return fields(v);
}

VehicleF want_vehicle(size_t numAvailable,
                      Loads capacity,
                      size_t startDepot,
                      size_t endDepot,
                      Cost fixedCost,
                      Duration twEarly,
                      Duration twLate,
                      Duration shiftDuration,
                      Distance maxDistance,
                      Cost unitDistanceCost,
                      Cost unitDurationCost,
                      size_t profile,
                      std::optional<Duration> startLate,
                      Loads initialLoad,
                      std::vector<size_t> reloadDepots,
                      size_t maxReloads,
                      Duration maxOvertime,
                      Cost unitOvertimeCost,
                      std::string name)
{
    size_t const dims = std::max(capacity.size(), initialLoad.size());
    capacity.resize(dims);
    initialLoad.resize(dims);
    Duration const late = startLate.has_value() ? *startLate : twLate;

    if (numAvailable == 0 || twEarly > late || late > twLate || twEarly < 0
        || shiftDuration < 0 || maxDistance < 0 || unitDistanceCost < 0
        || unitDurationCost < 0 || maxOvertime < 0 || unitOvertimeCost < 0)
        reject();
    for (size_t dim = 0; dim != dims; ++dim)
        if (capacity[dim] < 0 || initialLoad[dim] < 0
            || initialLoad[dim] > capacity[dim])
            reject();

    Duration const most = std::numeric_limits<Duration>::max();
    return {numAvailable,
            capacity,
            startDepot,
            endDepot,
            fixedCost,
            twEarly,
            twLate,
            shiftDuration,
            maxDistance,
            unitDistanceCost,
            unitDurationCost,
            profile,
            late,
            initialLoad,
            reloadDepots,
            maxReloads,
            maxOvertime,
            unitOvertimeCost,
            maxOvertime < most - shiftDuration ? shiftDuration + maxOvertime
                                               : most,
            name};
}

VehicleF got_vehicleCopy(VehicleType const &v)
{
    VehicleType const copy(v);
    return fields(copy);
}

VehicleF want_vehicleCopy(VehicleType const &v) { return fields(v); }

VehicleF got_vehicleMove(VehicleType v)
{
    VehicleType const moved(std::move(v));
    return fields(moved);
}

VehicleF want_vehicleMove(VehicleType v) { return fields(v); }

size_t got_vehicleTrips(VehicleType const &v) { return v.maxTrips(); }

size_t want_vehicleTrips(VehicleType const &v)
{
    if (v.reloadDepots.size() == 0)
        return 1;
    return std::max(v.maxReloads, v.maxReloads + 1);
}

bool got_vehicleEqual(VehicleType const &a, VehicleType const &b)
{
    return a == b;
}

bool want_vehicleEqual(VehicleType const &a, VehicleType const &b)
{
    return a.numAvailable == b.numAvailable && a.capacity == b.capacity
           && a.startDepot == b.startDepot && a.endDepot == b.endDepot
           && a.fixedCost == b.fixedCost && a.twEarly == b.twEarly
           && a.twLate == b.twLate && a.shiftDuration == b.shiftDuration
           && a.maxDistance == b.maxDistance
           && a.unitDistanceCost == b.unitDistanceCost
           && a.unitDurationCost == b.unitDurationCost
           && a.profile == b.profile && a.startLate == b.startLate
           && a.initialLoad == b.initialLoad
           && a.reloadDepots == b.reloadDepots && a.maxReloads == b.maxReloads
           && a.maxOvertime == b.maxOvertime
           && a.unitOvertimeCost == b.unitOvertimeCost
           && std::string(a.name) == std::string(b.name);
}

// C05: replace() of a vehicle type. Evaluated field by field on the object it
// constructs; what the constructor accepts is C03.
VehicleType got_vehicleReplace(VehicleType const &v,
                               std::optional<size_t> numAvailable,
                               std::optional<Loads> capacity,
                               std::optional<size_t> startDepot,
                               std::optional<size_t> endDepot,
                               std::optional<Cost> fixedCost,
                               std::optional<Duration> twEarly,
                               std::optional<Duration> twLate,
                               std::optional<Duration> shiftDuration,
                               std::optional<Distance> maxDistance,
                               std::optional<Cost> unitDistanceCost,
                               std::optional<Cost> unitDurationCost,
                               std::optional<size_t> profile,
                               std::optional<Duration> startLate,
                               std::optional<Loads> initialLoad,
                               std::optional<std::vector<size_t>> reloadDepots,
                               std::optional<size_t> maxReloads,
                               std::optional<Duration> maxOvertime,
                               std::optional<Cost> unitOvertimeCost,
                               std::optional<std::string> name)
{
    return v.replace(numAvailable,
                     capacity,
                     startDepot,
                     endDepot,
                     fixedCost,
                     twEarly,
                     twLate,
                     shiftDuration,
                     maxDistance,
                     unitDistanceCost,
                     unitDurationCost,
                     profile,
                     startLate,
                     initialLoad,
                     reloadDepots,
                     maxReloads,
                     maxOvertime,
                     unitOvertimeCost,
                     name);
}

VehicleType want_vehicleReplace(VehicleType const &v,
                                std::optional<size_t> numAvailable,
                                std::optional<Loads> capacity,
                                std::optional<size_t> startDepot,
                                std::optional<size_t> endDepot,
                                std::optional<Cost> fixedCost,
                                std::optional<Duration> twEarly,
                                std::optional<Duration> twLate,
                                std::optional<Duration> shiftDuration,
                                std::optional<Distance> maxDistance,
                                std::optional<Cost> unitDistanceCost,
                                std::optional<Cost> unitDurationCost,
                                std::optional<size_t> profile,
                                std::optional<Duration> startLate,
                                std::optional<Loads> initialLoad,
                                std::optional<std::vector<size_t>> reloadDepots,
                                std::optional<size_t> maxReloads,
                                std::optional<Duration> maxOvertime,
                                std::optional<Cost> unitOvertimeCost,
                                std::optional<std::string> name)
{
    return VehicleType(
        numAvailable ? *numAvailable : v.numAvailable,
        capacity ? *capacity : v.capacity,
        startDepot ? *startDepot : v.startDepot,
        endDepot ? *endDepot : v.endDepot,
        fixedCost ? *fixedCost : v.fixedCost,
        twEarly ? *twEarly : v.twEarly,
        twLate ? *twLate : v.twLate,
        shiftDuration ? *shiftDuration : v.shiftDuration,
        maxDistance ? *maxDistance : v.maxDistance,
        unitDistanceCost ? *unitDistanceCost : v.unitDistanceCost,
        unitDurationCost ? *unitDurationCost : v.unitDurationCost,
        profile ? *profile : v.profile,
        startLate ? *startLate : v.startLate,
        initialLoad ? *initialLoad : v.initialLoad,
        reloadDepots ? *reloadDepots : v.reloadDepots,
        maxReloads ? *maxReloads : v.maxReloads,
        maxOvertime ? *maxOvertime : v.maxOvertime,
        unitOvertimeCost ? *unitOvertimeCost : v.unitOvertimeCost,
        name ? *name : std::string(v.name));
}

// Activities.

struct ActivityF
{
    Activity::ActivityType type;
    size_t idx;
    bool isClient;
    bool isDepot;
    bool isShipment;
    bool isPickup;
    bool isDelivery;
};

ActivityF got_activity(Activity::ActivityType type, size_t idx)
{
    Activity const v(type, idx);
    return {v.type(),
            v.idx(),
            v.isClient(),
            v.isDepot(),
            v.isShipment(),
            v.isPickup(),
            v.isDelivery()};
}

ActivityF want_activity(Activity::ActivityType type, size_t idx)
{
    using T = Activity::ActivityType;
    return {type,
            idx,
            type == T::CLIENT,
            type == T::DEPOT,
            type == T::PICKUP || type == T::DELIVERY,
            type == T::PICKUP,
            type == T::DELIVERY};
}

bool got_activityEqual(Activity const &a, Activity const &b) { return a == b; }

bool want_activityEqual(Activity const &a, Activity const &b)
{
    return a.type_ == b.type_ && a.idx_ == b.idx_;
}

// Instances.

using Dists = std::vector<Matrix<Distance>>;
using Durs = std::vector<Matrix<Duration>>;

static size_t dimensions(std::vector<VehicleType> const &vehicleTypes,
                         std::vector<Client> const &clients,
                         std::vector<Shipment> const &shipments)
{
    if (!vehicleTypes.empty())
        return vehicleTypes[0].capacity.size();
    if (!clients.empty())
        return clients[0].delivery.size();
    if (!shipments.empty())
        return shipments[0].amount.size();
    return 0;
}

int got_dataAccepts(std::vector<Location> locations,
                    std::vector<Client> clients,
                    std::vector<Depot> depots,
                    std::vector<VehicleType> vehicleTypes,
                    Dists dists,
                    Durs durs,
                    std::vector<ClientGroup> groups,
                    std::vector<Shipment> shipments)
{
    ProblemData const data(locations,
                           clients,
                           depots,
                           vehicleTypes,
                           dists,
                           durs,
                           groups,
                           shipments);
    return 0;
}

int want_dataAccepts(std::vector<Location> locations,
                     std::vector<Client> clients,
                     std::vector<Depot> depots,
                     std::vector<VehicleType> vehicleTypes,
                     Dists dists,
                     Durs durs,
                     std::vector<ClientGroup> groups,
                     std::vector<Shipment> shipments)
{
    size_t const dims = dimensions(vehicleTypes, clients, shipments);

    for (size_t idx = 0; idx != clients.size(); ++idx)
    {
        auto const &client = clients[idx];
        if (client.location >= locations.size()
            || client.delivery.size() != dims || client.pickup.size() != dims)
            reject();
        if (client.group)
        {
            if (*client.group >= groups.size())
                reject();
            auto const &members = groups[*client.group].clients_;
            if (std::find(members.begin(), members.end(), idx)
                == members.end())
                reject();
            if (client.required && groups[*client.group].mutuallyExclusive)
                reject();
        }
    }

    if (depots.empty() || vehicleTypes.empty() || dists.empty() || durs.empty()
        || dists.size() != durs.size())
        reject();

    for (auto const &depot : depots)
        if (depot.location >= locations.size())
            reject();

    for (size_t idx = 0; idx != groups.size(); ++idx)
    {
        if (groups[idx].clients_.empty())
            reject();
        for (auto const client : groups[idx].clients_)
        {
            if (client >= clients.size())
                reject();
            if (!clients[client].group || *clients[client].group != idx)
                reject();
        }
    }

    for (auto const &shipment : shipments)
        if (shipment.pickup.location >= locations.size()
            || shipment.delivery.location >= locations.size()
            || shipment.amount.size() != dims)
            reject();

    for (auto const &type : vehicleTypes)
    {
        if (type.capacity.size() != dims || type.startDepot >= depots.size()
            || type.endDepot >= depots.size() || type.profile >= dists.size())
            reject();
        auto const &start = depots[type.startDepot];
        auto const &end = depots[type.endDepot];
        if (start.twEarly > type.twLate || type.twEarly > start.twLate)
            reject();
        if (end.twEarly > type.twLate || type.twEarly > end.twLate)
            reject();
        for (auto const depot : type.reloadDepots)
            if (depot >= depots.size())
                reject();
    }

    for (size_t idx = 0; idx != dists.size(); ++idx)
    {
        if (dists[idx].rows_ != locations.size()
            || dists[idx].cols_ != locations.size()
            || durs[idx].rows_ != locations.size()
            || durs[idx].cols_ != locations.size())
            reject();
        for (size_t loc = 0; loc != locations.size(); ++loc)
            if (dists[idx](loc, loc) != 0 || durs[idx](loc, loc) != 0)
                reject();
    }

    return 0;
}

struct DataF
{
    std::vector<Location> locations;
    std::vector<Client> clients;
    std::vector<Depot> depots;
    std::vector<VehicleType> vehicleTypes;
    Dists dists;
    Durs durs;
    std::vector<ClientGroup> groups;
    std::vector<Shipment> shipments;
    size_t numLocations;
    size_t numClients;
    size_t numDepots;
    size_t numVehicleTypes;
    size_t numProfiles;
    size_t numGroups;
    size_t numShipments;
    size_t numVehicles;
    size_t numLoadDimensions;
};

DataF got_data(std::vector<Location> locations,
               std::vector<Client> clients,
               std::vector<Depot> depots,
               std::vector<VehicleType> vehicleTypes,
               Dists dists,
               Durs durs,
               std::vector<ClientGroup> groups,
               std::vector<Shipment> shipments)
{
    ProblemData const data(locations,
                           clients,
                           depots,
                           vehicleTypes,
                           dists,
                           durs,
                           groups,
                           shipments);
    return {data.locations(),
            data.clients(),
            data.depots(),
            data.vehicleTypes(),
            data.distanceMatrices(),
            data.durationMatrices(),
            data.groups(),
            data.shipments(),
            data.numLocations(),
            data.numClients(),
            data.numDepots(),
            data.numVehicleTypes(),
            data.numProfiles(),
            data.numGroups(),
            data.numShipments(),
            data.numVehicles(),
            data.numLoadDimensions()};
}

DataF want_data(std::vector<Location> locations,
                std::vector<Client> clients,
                std::vector<Depot> depots,
                std::vector<VehicleType> vehicleTypes,
                Dists dists,
                Durs durs,
                std::vector<ClientGroup> groups,
                std::vector<Shipment> shipments)
{
    size_t vehicles = 0;
    for (auto const &type : vehicleTypes)
        vehicles += type.numAvailable;
    return {locations,
            clients,
            depots,
            vehicleTypes,
            dists,
            durs,
            groups,
            shipments,
            locations.size(),
            clients.size(),
            depots.size(),
            vehicleTypes.size(),
            dists.size(),
            groups.size(),
            shipments.size(),
            vehicles,
            dimensions(vehicleTypes, clients, shipments)};
}

static bool windowed(Duration early, Duration late)
{
    return early != 0 || late != std::numeric_limits<Duration>::max();
}

bool got_dataWindows(std::vector<Location> locations,
                     std::vector<Client> clients,
                     std::vector<Depot> depots,
                     std::vector<VehicleType> vehicleTypes,
                     Dists dists,
                     Durs durs,
                     std::vector<ClientGroup> groups,
                     std::vector<Shipment> shipments)
{
    ProblemData const data(locations,
                           clients,
                           depots,
                           vehicleTypes,
                           dists,
                           durs,
                           groups,
                           shipments);
    return data.hasTimeWindows();
}

bool want_dataWindows(std::vector<Location> locations,
                      std::vector<Client> clients,
                      std::vector<Depot> depots,
                      std::vector<VehicleType> vehicleTypes,
                      Dists dists,
                      Durs durs,
                      std::vector<ClientGroup> groups,
                      std::vector<Shipment> shipments)
{
    for (auto const &client : clients)
        if (windowed(client.twEarly, client.twLate))
            return true;
    for (auto const &depot : depots)
        if (windowed(depot.twEarly, depot.twLate))
            return true;
    for (auto const &type : vehicleTypes)
        if (windowed(type.twEarly, type.twLate)
            || type.startLate != std::numeric_limits<Duration>::max())
            return true;
    for (auto const &shipment : shipments)
        if (windowed(shipment.pickup.twEarly, shipment.pickup.twLate)
            || windowed(shipment.delivery.twEarly, shipment.delivery.twLate))
            return true;
    return false;
}

bool got_dataEqual(ProblemData const &a, ProblemData const &b)
{
    return a == b;
}

bool want_dataEqual(ProblemData const &a, ProblemData const &b)
{
    return a.locations_ == b.locations_ && a.clients_ == b.clients_
           && a.depots_ == b.depots_ && a.vehicleTypes_ == b.vehicleTypes_
           && a.groups_ == b.groups_ && a.shipments_ == b.shipments_
           && a.dists_ == b.dists_ && a.durs_ == b.durs_
           && a.numVehicles_ == b.numVehicles_
           && a.numLoadDimensions_ == b.numLoadDimensions_
           && a.hasTimeWindows_ == b.hasTimeWindows_;
}

// What the accessors with an index return.
Location got_dataLocation(ProblemData const &d, size_t i)
{
    return d.location(i);
}
Location want_dataLocation(ProblemData const &d, size_t i)
{
    return d.locations_[i];
}
Client got_dataClient(ProblemData const &d, size_t i) { return d.client(i); }
Client want_dataClient(ProblemData const &d, size_t i)
{
    return d.clients_[i];
}
Depot got_dataDepot(ProblemData const &d, size_t i) { return d.depot(i); }
Depot want_dataDepot(ProblemData const &d, size_t i) { return d.depots_[i]; }
ClientGroup got_dataGroup(ProblemData const &d, size_t i)
{
    return d.group(i);
}
ClientGroup want_dataGroup(ProblemData const &d, size_t i)
{
    return d.groups_[i];
}
Shipment got_dataShipment(ProblemData const &d, size_t i)
{
    return d.shipment(i);
}
Shipment want_dataShipment(ProblemData const &d, size_t i)
{
    return d.shipments_[i];
}
VehicleType got_dataVehicleType(ProblemData const &d, size_t i)
{
    return d.vehicleType(i);
}
VehicleType want_dataVehicleType(ProblemData const &d, size_t i)
{
    return d.vehicleTypes_[i];
}
Matrix<Distance> got_dataDistances(ProblemData const &d, size_t i)
{
    return d.distanceMatrix(i);
}
Matrix<Distance> want_dataDistances(ProblemData const &d, size_t i)
{
    return d.dists_[i];
}
Matrix<Duration> got_dataDurations(ProblemData const &d, size_t i)
{
    return d.durationMatrix(i);
}
Matrix<Duration> want_dataDurations(ProblemData const &d, size_t i)
{
    return d.durs_[i];
}

ProblemData
got_dataReplace(ProblemData const &d,
                std::optional<std::vector<Location>> &locations,
                std::optional<std::vector<Client>> &clients,
                std::optional<std::vector<Depot>> &depots,
                std::optional<std::vector<VehicleType>> &vehicleTypes,
                std::optional<Dists> &dists,
                std::optional<Durs> &durs,
                std::optional<std::vector<ClientGroup>> &groups,
                std::optional<std::vector<Shipment>> &shipments)
{
    return d.replace(locations,
                     clients,
                     depots,
                     vehicleTypes,
                     dists,
                     durs,
                     groups,
                     shipments);
}

ProblemData
want_dataReplace(ProblemData const &d,
                 std::optional<std::vector<Location>> &locations,
                 std::optional<std::vector<Client>> &clients,
                 std::optional<std::vector<Depot>> &depots,
                 std::optional<std::vector<VehicleType>> &vehicleTypes,
                 std::optional<Dists> &dists,
                 std::optional<Durs> &durs,
                 std::optional<std::vector<ClientGroup>> &groups,
                 std::optional<std::vector<Shipment>> &shipments)
{
    return ProblemData(locations ? *locations : d.locations_,
                       clients ? *clients : d.clients_,
                       depots ? *depots : d.depots_,
                       vehicleTypes ? *vehicleTypes : d.vehicleTypes_,
                       dists ? *dists : d.dists_,
                       durs ? *durs : d.durs_,
                       groups ? *groups : d.groups_,
                       shipments ? *shipments : d.shipments_);
}

// The cost evaluator.

struct Penalties
{
    std::vector<double> load;
    double tw;
    double dist;
};

Penalties got_evaluator(std::vector<double> load, double tw, double dist)
{
    CostEvaluator const v(load, tw, dist);
    return {v.loadPenalties_, v.twPenalty_, v.distPenalty_};
}

Penalties want_evaluator(std::vector<double> load, double tw, double dist)
{
    for (auto const penalty : load)
        if (penalty < 0)
            reject();
    if (tw < 0 || dist < 0)
        reject();
    return {load, tw, dist};
}
}  // namespace pyvrp::spec
