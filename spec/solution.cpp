// Solutions: construction, totals, feasibility (C11, C12, C13).
// got_* call the code under analysis through its public interface; want_* say
// what that must amount to.
#include "CostEvaluator.h"
#include "Solution.h"

#include <algorithm>
#include <numeric>
#include <stdexcept>
#include <vector>

namespace pyvrp::spec
{
struct Totals
{
    size_t numRoutes;
    size_t numTrips;
    size_t numClients;
    size_t numShipments;
    Distance distance;
    Cost distanceCost;
    Duration duration;
    Duration overtime;
    Cost durationCost;
    Duration timeWarp;
    Distance excessDistance;
    std::vector<Load> excessLoad;
    Cost fixedVehicleCost;
    Cost prizes;
    Cost uncollectedPrizes;
};

Totals got_totals(ProblemData const &data, std::vector<Route> const &routes)
{
    Solution const sol(data, routes);
    Totals res;
    res.numRoutes = sol.numRoutes();
    res.numTrips = sol.numTrips();
    res.numClients = sol.numClients();
    res.numShipments = sol.numShipments();
    res.distance = sol.distance();
    res.distanceCost = sol.distanceCost();
    res.duration = sol.duration();
    res.overtime = sol.overtime();
    res.durationCost = sol.durationCost();
    res.timeWarp = sol.timeWarp();
    res.excessDistance = sol.excessDistance();
    res.excessLoad = sol.excessLoad();
    res.fixedVehicleCost = sol.fixedVehicleCost();
    res.prizes = sol.prizes();
    res.uncollectedPrizes = sol.uncollectedPrizes();
    return res;
}

Totals want_totals(ProblemData const &data, std::vector<Route> const &routes)
{
    Totals res;
    res.numRoutes = routes.size();
    res.numTrips = 0;
    res.numClients = 0;
    res.numShipments = 0;
    res.distance = 0;
    res.distanceCost = 0;
    res.duration = 0;
    res.overtime = 0;
    res.durationCost = 0;
    res.timeWarp = 0;
    res.excessDistance = 0;
    res.excessLoad = std::vector<Load>(data.numLoadDimensions(), 0);
    res.fixedVehicleCost = 0;
    res.prizes = 0;

    for (auto const &route : routes)
    {
        res.numTrips += route.numTrips();
        res.numClients += route.numClients();
        res.numShipments += route.numShipments();
        res.distance += route.distance();
        res.distanceCost += route.distanceCost();
        res.duration += route.duration();
        res.overtime += route.overtime();
        res.durationCost += route.durationCost();
        res.timeWarp += route.timeWarp();
        res.excessDistance += route.excessDistance();
        res.fixedVehicleCost += route.fixedVehicleCost();
        res.prizes += route.prizes();

        for (size_t dim = 0; dim != data.numLoadDimensions(); ++dim)
            res.excessLoad[dim] += route.excessLoad()[dim];
    }

    Cost all = 0;
    for (auto const &client : data.clients())
        all += client.prize;
    for (auto const &shipment : data.shipments())
        all += shipment.prize;
    res.uncollectedPrizes = all - res.prizes;
    return res;
}

struct Parts
{
    std::vector<Activity> unplanned;
    size_t numMissingClients;
    size_t numMissingShipments;
    size_t numMissingGroups;
    std::vector<Route> routes;
};

Parts got_parts(ProblemData const &data, std::vector<Route> const &routes)
{
    Solution const sol(data, routes);
    Parts res;
    res.unplanned = sol.unplanned();
    res.numMissingClients = sol.numMissingClients();
    res.numMissingShipments = sol.numMissingShipments();
    res.numMissingGroups = sol.numMissingGroups();
    res.routes = sol.routes();
    return res;
}

Parts want_parts(ProblemData const &data, std::vector<Route> const &routes)
{
    if (data.numVehicles() < routes.size())
        throw std::runtime_error("too many vehicles");

    std::vector<bool> clients(data.numClients(), false);
    std::vector<bool> shipments(data.numShipments(), false);
    std::vector<size_t> used(data.numVehicleTypes(), 0);

    for (auto const &route : routes)
    {
        if (route.numClients() == 0 && route.numShipments() == 0)
            throw std::runtime_error("empty route");

        used[route.vehicleType()] += 1;

        for (auto const &activity : route.schedule())
        {
            if (activity.isClient())
            {
                if (clients[activity.idx()])
                    throw std::runtime_error("client planned twice");

                clients[activity.idx()] = true;
            }

            if (activity.isPickup())
            {
                if (shipments[activity.idx()])
                    throw std::runtime_error("shipment planned twice");

                shipments[activity.idx()] = true;
            }
        }
    }

    for (size_t type = 0; type != data.numVehicleTypes(); ++type)
        if (used[type] > data.vehicleType(type).numAvailable)
            throw std::runtime_error("too many vehicles of a type");

    Parts res;
    res.numMissingClients = 0;
    res.numMissingShipments = 0;
    res.numMissingGroups = 0;
    res.routes = routes;

    for (size_t idx = 0; idx != data.numClients(); ++idx)
        if (!clients[idx])
        {
            res.unplanned.emplace_back(Activity::ActivityType::CLIENT, idx);
            if (data.client(idx).required)
                res.numMissingClients += 1;
        }

    for (size_t idx = 0; idx != data.numShipments(); ++idx)
        if (!shipments[idx])
        {
            res.unplanned.emplace_back(Activity::ActivityType::PICKUP, idx);
            res.unplanned.emplace_back(Activity::ActivityType::DELIVERY, idx);
            if (data.shipment(idx).required)
                res.numMissingShipments += 1;
        }

    for (auto const &group : data.groups())
    {
        size_t count = 0;
        for (auto const client : group.clients())
            if (clients[client])
                count += 1;

        if (count > 1)
            throw std::runtime_error("exclusive group planned twice");

        if (group.required && count == 0)
            res.numMissingGroups += 1;
    }

    return res;
}

// ------------------------------------------------------------ feasibility
bool want_sol_isComplete(Solution const &self)
{
    return self.numMissingClients() == 0 && self.numMissingShipments() == 0
           && self.numMissingGroups() == 0;
}

bool want_sol_hasExcessLoad(Solution const &self)
{
    for (auto const excess : self.excessLoad())
        if (excess > 0)
            return true;
    return false;
}

bool want_sol_hasExcessDistance(Solution const &self)
{
    return self.excessDistance() > 0;
}

bool want_sol_hasTimeWarp(Solution const &self) { return self.timeWarp() > 0; }

bool want_sol_isFeasible(Solution const &self)
{
    return want_sol_isComplete(self) && !want_sol_hasExcessLoad(self)
           && !want_sol_hasExcessDistance(self) && !want_sol_hasTimeWarp(self);
}

bool want_sol_empty(Solution const &self)
{
    return self.numClients() == 0 && self.numShipments() == 0
           && self.routes().empty();
}

bool want_route_hasExcessLoad(Route const &self)
{
    for (auto const excess : self.excessLoad())
        if (excess > 0)
            return true;
    return false;
}

bool want_route_hasExcessDistance(Route const &self)
{
    return self.excessDistance() > 0;
}

bool want_route_hasTimeWarp(Route const &self) { return self.timeWarp() > 0; }

bool want_route_isFeasible(Route const &self)
{
    return !want_route_hasExcessLoad(self) && !want_route_hasExcessDistance(self)
           && !want_route_hasTimeWarp(self);
}

bool want_route_empty(Route const &self)
{
    return self.numClients() == 0 && self.numShipments() == 0;
}
// Equality (C02): no two different things are equal, and nothing but what a
// route or solution consists of makes a difference.
bool got_routeEqualOnly(Route const &a, Route const &b)
{
    return a == b && !(a.vehicleType_ == b.vehicleType_
                       && a.schedule_ == b.schedule_);
}
bool want_routeEqualOnly(Route const &a, Route const &b) { return false; }

bool got_routeEqualSame(Route const &a)
{
    Route const &b = a;
    return a == b;
}
bool want_routeEqualSame(Route const &a) { return true; }

bool permuted(Solution const &a, Solution const &b)
{
    return std::is_permutation(a.routes_.begin(),
                               a.routes_.end(),
                               b.routes_.begin(),
                               b.routes_.end());
}

bool got_solutionEqualOnly(Solution const &a, Solution const &b)
{
    return a == b;
}
bool want_solutionEqualOnly(Solution const &a, Solution const &b)
{
    return a == b && permuted(a, b);
}

bool sameTotals(Solution const &a, Solution const &b)
{
    return permuted(a, b) && a.numClients_ == b.numClients_
           && a.numShipments_ == b.numShipments_ && a.distance_ == b.distance_
           && a.distanceCost_ == b.distanceCost_ && a.duration_ == b.duration_
           && a.overtime_ == b.overtime_ && a.durationCost_ == b.durationCost_
           && a.timeWarp_ == b.timeWarp_
           && a.excessDistance_ == b.excessDistance_
           && a.excessLoad_ == b.excessLoad_
           && a.fixedVehicleCost_ == b.fixedVehicleCost_
           && a.prizes_ == b.prizes_
           && a.uncollectedPrizes_ == b.uncollectedPrizes_;
}
bool got_solutionEqualSame(Solution const &a, Solution const &b)
{
    return sameTotals(a, b) && a == b;
}
bool want_solutionEqualSame(Solution const &a, Solution const &b)
{
    return sameTotals(a, b);
}

// Equal activities and solutions have equal hashes.
bool got_activityHash(Activity::ActivityType type, size_t idx)
{
    Activity const a(type, idx);
    Activity const b(type, idx);
    return std::hash<Activity>()(a) == std::hash<Activity>()(b);
}
bool want_activityHash(Activity::ActivityType type, size_t idx)
{
    return true;
}

bool got_solutionHash(Solution const &a, Solution const &b)
{
    // is_permutation of the routes implies these within one instance
    bool const same = a.routes_.size() == b.routes_.size()
                      && a.numClients_ == b.numClients_
                      && a.numShipments_ == b.numShipments_
                      && a.distance_ == b.distance_
                      && a.distanceCost_ == b.distanceCost_
                      && a.duration_ == b.duration_
                      && a.overtime_ == b.overtime_
                      && a.durationCost_ == b.durationCost_
                      && a.timeWarp_ == b.timeWarp_
                      && a.excessDistance_ == b.excessDistance_
                      && a.fixedVehicleCost_ == b.fixedVehicleCost_
                      && a.prizes_ == b.prizes_
                      && a.uncollectedPrizes_ == b.uncollectedPrizes_;
    return same && std::hash<Solution>()(a) != std::hash<Solution>()(b);
}
bool want_solutionHash(Solution const &a, Solution const &b) { return false; }
}  // namespace pyvrp::spec
