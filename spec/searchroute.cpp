// The search's route: its caches after update(), its segments, and what a
// proposed combination of segments costs (C17).
#include "search/Route.h"
#include "search/ClientSegment.h"
#include "search/DeliverySegment.h"
#include "search/DepotSegment.h"
#include "search/PickupSegment.h"

#include <algorithm>
#include <limits>
#include <stdexcept>
#include <vector>

namespace pyvrp::spec
{
using SRoute = search::Route;
using Type = Activity::ActivityType;

// ---------------------------------------------------------------- update()
struct Caches
{
    std::vector<size_t> locations;
    std::vector<size_t> numClients;
    std::vector<size_t> numPickups;
    std::vector<size_t> numDeliveries;
    std::vector<Distance> cumDist;
    std::vector<DurationSegment> durAt;
    std::vector<DurationSegment> durBefore;
    std::vector<DurationSegment> durAfter;
    Distance distance;
    Cost distanceCost;
    Distance excessDistance;
    Duration duration;
    Cost durationCost;
    Duration timeWarp;
    std::vector<SRoute::Node *> nodes;
};

struct LoadCaches
{
    std::vector<LoadSegment> at;
    std::vector<LoadSegment> before;
    std::vector<LoadSegment> after;
    Load load;
    Load excess;
};

Caches got_update(SRoute &r)
{
    if (r.nodes.size() < 2)
        throw std::invalid_argument("precondition");

    r.update();

    Caches res;
    res.locations = r.locations;
    res.numClients = r.numClients_;
    res.numPickups = r.numPickups_;
    res.numDeliveries = r.numDeliveries_;
    res.cumDist = r.cumDist;
    res.durAt = r.durAt;
    res.durBefore = r.durBefore;
    res.durAfter = r.durAfter;
    res.distance = r.distance_;
    res.distanceCost = r.distanceCost_;
    res.excessDistance = r.excessDistance_;
    res.duration = r.duration_;
    res.durationCost = r.durationCost_;
    res.timeWarp = r.timeWarp_;
    res.nodes = r.nodes;
    return res;
}

size_t locationOf(ProblemData const &data, Activity const &activity)
{
    if (activity.type() == Type::DEPOT)
        return data.depot(activity.idx()).location;
    if (activity.type() == Type::CLIENT)
        return data.client(activity.idx()).location;
    if (activity.type() == Type::PICKUP)
        return data.shipment(activity.idx()).pickup.location;
    return data.shipment(activity.idx()).delivery.location;
}

bool isReload(SRoute::Node const *node)
{
    if (node->activity_.type() != Type::DEPOT)
        return false;
    if (!node->route_)
        return true;
    return node != &node->route_->depots_[0]
           && node != &node->route_->depots_[1];
}

DurationSegment durationOf(ProblemData const &data, Activity const &activity)
{
    if (activity.type() == Type::DEPOT)
        return DurationSegment(data.depot(activity.idx()), 0);
    if (activity.type() == Type::CLIENT)
        return DurationSegment(data.client(activity.idx()));
    if (activity.type() == Type::PICKUP)
        return DurationSegment(data.shipment(activity.idx()).pickup);
    return DurationSegment(data.shipment(activity.idx()).delivery);
}

LoadSegment
loadOf(ProblemData const &data, Activity const &activity, size_t dim)
{
    if (activity.type() == Type::DEPOT)
        return LoadSegment();
    if (activity.type() == Type::CLIENT)
        return LoadSegment(data.client(activity.idx()), dim);
    return LoadSegment(data.shipment(activity.idx()), activity.type(), dim);
}

Caches want_update(SRoute &r)
{
    if (r.nodes.size() < 2)
        throw std::invalid_argument("precondition");

    auto const &data = r.data;
    auto const &veh = r.vehicleType_;
    auto const &distances = data.distanceMatrix(veh.profile);
    auto const &durations = data.durationMatrix(veh.profile);
    auto const size = r.nodes.size();

    Caches res;
    res.nodes = r.nodes;
    for (auto const *node : r.nodes)
        res.locations.push_back(locationOf(data, node->activity_));
    auto const &locs = res.locations;

    size_t clients = 0;
    size_t pickups = 0;
    size_t deliveries = 0;
    Distance distance = 0;
    res.numClients.push_back(0);
    res.numPickups.push_back(0);
    res.numDeliveries.push_back(0);
    res.cumDist.push_back(0);
    for (size_t pos = 1; pos != size; ++pos)
    {
        auto const type = r.nodes[pos]->activity_.type();
        clients += type == Type::CLIENT ? 1 : 0;
        pickups += type == Type::PICKUP ? 1 : 0;
        deliveries += type == Type::DELIVERY ? 1 : 0;
        distance += distances(locs[pos - 1], locs[pos]);
        res.numClients.push_back(clients);
        res.numPickups.push_back(pickups);
        res.numDeliveries.push_back(deliveries);
        res.cumDist.push_back(distance);
    }

    auto const &start = data.depot(veh.startDepot);
    res.durAt.push_back(DurationSegment::merge(
        DurationSegment(veh, veh.startLate),
        DurationSegment(start, start.serviceDuration)));
    for (size_t pos = 1; pos != size - 1; ++pos)
        res.durAt.push_back(durationOf(data, r.nodes[pos]->activity_));
    res.durAt.push_back(
        DurationSegment::merge(DurationSegment(data.depot(veh.endDepot), 0),
                               DurationSegment(veh, veh.twLate)));

    DurationSegment before = res.durAt[0];
    res.durBefore.push_back(before);
    for (size_t pos = 1; pos != size; ++pos)
    {
        if (isReload(r.nodes[pos - 1]))
            before = DurationSegment::merge(
                before.finaliseBack(),
                DurationSegment(data.depot(r.nodes[pos - 1]->activity_.idx())
                                    .serviceDuration));

        before = DurationSegment::merge(
            durations(locs[pos - 1], locs[pos]), before, res.durAt[pos]);
        res.durBefore.push_back(before);
    }

    res.durAfter.resize(size);
    DurationSegment after = res.durAt[size - 1];
    res.durAfter[size - 1] = after;
    for (size_t left = size - 1; left != 0; --left)
    {
        auto const pos = left - 1;
        if (isReload(r.nodes[left]))
            after = after.finaliseFront();

        if (isReload(r.nodes[pos]))
            after = DurationSegment::merge(
                DurationSegment(data.depot(r.nodes[pos]->activity_.idx())
                                    .serviceDuration),
                after);

        after = DurationSegment::merge(
            durations(locs[pos], locs[left]), res.durAt[pos], after);
        res.durAfter[pos] = after;
    }

    res.distance = distance;
    res.distanceCost
        = static_cast<Cost>(distance) * static_cast<Cost>(veh.unitDistanceCost);
    res.excessDistance
        = distance > veh.maxDistance ? distance - veh.maxDistance : Distance(0);

    auto const duration = after.duration();
    res.duration = duration;
    res.timeWarp = after.timeWarp(veh.maxDuration);
    Duration const overtime = duration > veh.shiftDuration
                                  ? duration - veh.shiftDuration
                                  : Duration(0);
    res.durationCost
        = static_cast<Cost>(duration) * static_cast<Cost>(veh.unitDurationCost)
          + static_cast<Cost>(overtime)
                * static_cast<Cost>(veh.unitOvertimeCost);
    return res;
}

LoadCaches got_updateLoad(SRoute &r, size_t dim)
{
    if (r.nodes.size() < 2 || r.depots_.size() < 2
        || dim >= r.data.numLoadDimensions())
        throw std::invalid_argument("precondition");

    r.update();

    LoadCaches res;
    res.at = r.loadAt[dim];
    res.before = r.loadBefore[dim];
    res.after = r.loadAfter[dim];
    res.load = r.load_[dim];
    res.excess = r.excessLoad_[dim];
    return res;
}

LoadCaches want_updateLoad(SRoute &r, size_t dim)
{
    if (r.nodes.size() < 2 || r.depots_.size() < 2
        || dim >= r.data.numLoadDimensions())
        throw std::invalid_argument("precondition");

    auto const &data = r.data;
    auto const size = r.nodes.size();
    auto const capacity = r.vehicleType_.capacity[dim];

    LoadCaches res;
    res.at.push_back(LoadSegment(r.vehicleType_, dim));
    for (size_t pos = 1; pos != size - 1; ++pos)
        res.at.push_back(loadOf(data, r.nodes[pos]->activity_, dim));
    res.at.push_back(LoadSegment());

    LoadSegment before = res.at[0];
    res.before.push_back(before);
    for (size_t pos = 1; pos != size; ++pos)
    {
        if (isReload(r.nodes[pos - 1]))
            before = before.finalise(capacity);
        before = LoadSegment::merge(before, res.at[pos]);
        res.before.push_back(before);
    }

    res.after.resize(size);
    LoadSegment after = res.at[size - 1];
    res.after[size - 1] = after;
    for (size_t left = size - 1; left != 0; --left)
    {
        if (isReload(r.nodes[left]))
            after = after.finalise(capacity);
        after = LoadSegment::merge(res.at[left - 1], after);
        res.after[left - 1] = after;
    }

    res.excess = before.excessLoad(capacity);
    res.load = 0;
    for (size_t idx = 1; idx != r.depots_.size(); ++idx)
        res.load += res.before[r.depots_[idx].pos_].load();
    return res;
}

// ------------------------------------------------------------ read access
// Of an up-to-date route. The caches are those of want_update().
bool want_isReloadDepot(SRoute::Node const *self) { return isReload(self); }

struct Facts
{
    bool feasible;
    bool hasExcessLoad;
    bool hasExcessDistance;
    bool hasTimeWarp;
    std::vector<Load> load;
    std::vector<Load> excessLoad;
    std::vector<Load> capacity;
    size_t startDepot;
    size_t endDepot;
    Cost fixedVehicleCost;
    Distance distance;
    Cost distanceCost;
    Cost unitDistanceCost;
    Distance excessDistance;
    Distance maxDistance;
    bool hasDistanceCost;
    Duration duration;
    Duration overtime;
    Cost durationCost;
    Cost unitDurationCost;
    Cost unitOvertimeCost;
    bool hasDurationCost;
    Duration shiftDuration;
    Duration maxDuration;
    Duration maxOvertime;
    Duration timeWarp;
    size_t profile;
    bool empty;
    size_t size;
    size_t numClients;
    size_t numShipments;
    size_t numPickups;
    size_t numDepots;
    size_t numTrips;
    size_t maxTrips;
    SRoute::Node const *at;
    size_t picked;
    size_t delivered;
};

Facts got_facts(SRoute const &r, size_t idx)
{
    Facts f;
    f.feasible = r.isFeasible();
    f.hasExcessLoad = r.hasExcessLoad();
    f.hasExcessDistance = r.hasExcessDistance();
    f.hasTimeWarp = r.hasTimeWarp();
    f.load = r.load();
    f.excessLoad = r.excessLoad();
    f.capacity = r.capacity();
    f.startDepot = r.startDepot();
    f.endDepot = r.endDepot();
    f.fixedVehicleCost = r.fixedVehicleCost();
    f.distance = r.distance();
    f.distanceCost = r.distanceCost();
    f.unitDistanceCost = r.unitDistanceCost();
    f.excessDistance = r.excessDistance();
    f.maxDistance = r.maxDistance();
    f.hasDistanceCost = r.hasDistanceCost();
    f.duration = r.duration();
    f.overtime = r.overtime();
    f.durationCost = r.durationCost();
    f.unitDurationCost = r.unitDurationCost();
    f.unitOvertimeCost = r.unitOvertimeCost();
    f.hasDurationCost = r.hasDurationCost();
    f.shiftDuration = r.shiftDuration();
    f.maxDuration = r.maxDuration();
    f.maxOvertime = r.maxOvertime();
    f.timeWarp = r.timeWarp();
    f.profile = r.profile();
    f.empty = r.empty();
    f.size = r.size();
    f.numClients = r.numClients();
    f.numShipments = r.numShipments();
    f.numPickups = r.numPickups();
    f.numDepots = r.numDepots();
    f.numTrips = r.numTrips();
    f.maxTrips = r.maxTrips();
    f.at = r[idx];
    f.picked = r.numPickups(idx);
    f.delivered = r.numDeliveries(idx);
    return f;
}

Facts want_facts(SRoute const &r, size_t idx)
{
    auto const &veh = r.vehicleType_;
    bool excess = false;
    for (auto const amount : r.excessLoad_)
        if (amount > 0)
            excess = true;

    Facts f;
    f.hasExcessLoad = excess;
    f.hasExcessDistance = r.excessDistance_ > 0;
    f.hasTimeWarp = r.timeWarp_ > 0;
    f.feasible = !excess && !(r.excessDistance_ > 0) && !(r.timeWarp_ > 0);
    f.load = r.load_;
    f.excessLoad = r.excessLoad_;
    f.capacity = veh.capacity;
    f.startDepot = veh.startDepot;
    f.endDepot = veh.endDepot;
    f.fixedVehicleCost = veh.fixedCost;
    f.distance = r.distance_;
    f.distanceCost = r.distanceCost_;
    f.unitDistanceCost = veh.unitDistanceCost;
    f.excessDistance = r.excessDistance_;
    f.maxDistance = veh.maxDistance;
    f.hasDistanceCost = veh.unitDistanceCost != 0
                        || veh.maxDistance
                               != std::numeric_limits<Distance>::max();
    f.duration = r.duration_;
    f.overtime = r.duration_ > veh.shiftDuration
                     ? r.duration_ - veh.shiftDuration
                     : Duration(0);
    f.durationCost = r.durationCost_;
    f.unitDurationCost = veh.unitDurationCost;
    f.unitOvertimeCost = veh.unitOvertimeCost;
    f.hasDurationCost
        = r.data.hasTimeWindows() || veh.unitDurationCost != 0
          || (veh.unitOvertimeCost != 0 && veh.maxOvertime != 0)
          || veh.maxDuration != std::numeric_limits<Duration>::max();
    f.shiftDuration = veh.shiftDuration;
    f.maxDuration = veh.maxDuration;
    f.maxOvertime = veh.maxOvertime;
    f.timeWarp = r.timeWarp_;
    f.profile = veh.profile;
    f.size = r.nodes.size();
    f.numClients = r.numClients_[r.numClients_.size() - 1];
    f.numPickups = r.numPickups_[r.numPickups_.size() - 1];
    f.numShipments = r.numPickups_[r.numPickups_.size() - 1];
    f.empty = r.numClients_[r.numClients_.size() - 1] == 0
              && r.numPickups_[r.numPickups_.size() - 1] == 0;
    f.numDepots = r.depots_.size();
    f.numTrips = r.depots_.size() - 1;
    f.maxTrips = veh.maxTrips();
    f.at = r.nodes[idx];
    f.picked = r.numPickups_[idx];
    f.delivered = r.numDeliveries_[idx];
    return f;
}

// --------------------------------------------------------------- segments
struct SegmentFacts
{
    SRoute const *route;
    Activity front{Type::DEPOT, 0};
    Activity back{Type::DEPOT, 0};
    size_t frontLocation;
    size_t backLocation;
    size_t size;
    size_t numClients;
    size_t numPickups;
    bool startsAtReloadDepot;
    bool endsAtReloadDepot;
    Distance distance;
    DurationSegment duration;
    LoadSegment load;
};

template <typename T>
SegmentFacts describe(T const &segment, size_t profile, size_t dim)
{
    SegmentFacts f;
    f.route = segment.route();
    f.front = segment.front().activity();
    f.back = segment.back().activity();
    f.frontLocation = segment.front().location();
    f.backLocation = segment.back().location();
    f.size = segment.size();
    f.numClients = segment.numClients();
    f.numPickups = segment.numPickups();
    f.startsAtReloadDepot = segment.startsAtReloadDepot();
    f.endsAtReloadDepot = segment.endsAtReloadDepot();
    f.distance = segment.distance(profile);
    f.duration = segment.duration(profile);
    f.load = segment.load(dim);
    return f;
}

SegmentFacts
got_after(SRoute const &r, size_t start, size_t dim)
{
    return describe(r.after(start), r.vehicleType_.profile, dim);
}

SegmentFacts
got_before(SRoute const &r, size_t end, size_t dim)
{
    return describe(r.before(end), r.vehicleType_.profile, dim);
}

SegmentFacts got_between(
    SRoute const &r, size_t start, size_t end, size_t profile, size_t dim)
{
    return describe(r.between(start, end), profile, dim);
}

SegmentFacts got_at(SRoute const &r, size_t idx, size_t profile, size_t dim)
{
    return describe(r.at(idx), profile, dim);
}

SegmentFacts ends(SRoute const &r, size_t start, size_t end)
{
    auto const *first = r.nodes[start];
    auto const *last = r.nodes[end];

    SegmentFacts f;
    f.route = &r;
    f.front = first->activity_;
    f.back = last->activity_;
    f.frontLocation = r.locations[start];
    f.backLocation = r.locations[end];
    f.size = end - start + 1;
    f.numClients = r.numClients_[end] - r.numClients_[start]
                   + (first->activity_.type() == Type::CLIENT ? 1 : 0);
    f.numPickups = r.numPickups_[end] - r.numPickups_[start]
                   + (first->activity_.type() == Type::PICKUP ? 1 : 0);
    f.startsAtReloadDepot = isReload(first);
    f.endsAtReloadDepot = isReload(last);
    return f;
}

SegmentFacts want_after(SRoute const &r, size_t start, size_t dim)
{
    SegmentFacts f;
    auto const *first = r.nodes[start];
    auto const *last = r.nodes[r.nodes.size() - 1];
    f.route = &r;
    f.front = first->activity_;
    f.back = last->activity_;
    f.frontLocation = r.locations[start];
    f.backLocation = r.locations[r.locations.size() - 1];
    f.size = r.nodes.size() - start;
    f.numClients = r.numClients_[r.numClients_.size() - 1]
                   - r.numClients_[start]
                   + (first->activity_.type() == Type::CLIENT ? 1 : 0);
    f.numPickups = r.numPickups_[r.numPickups_.size() - 1]
                   - r.numPickups_[start]
                   + (first->activity_.type() == Type::PICKUP ? 1 : 0);
    f.startsAtReloadDepot = isReload(first);
    f.endsAtReloadDepot = false;  // it is the end depot
    f.distance = r.cumDist[r.cumDist.size() - 1] - r.cumDist[start];
    f.duration = r.durAfter[start];
    f.load = r.loadAfter[dim][start];
    return f;
}

SegmentFacts want_before(SRoute const &r, size_t end, size_t dim)
{
    SegmentFacts f;
    auto const *first = r.nodes[0];
    auto const *last = r.nodes[end];
    f.route = &r;
    f.front = first->activity_;
    f.back = last->activity_;
    f.frontLocation = r.locations[0];
    f.backLocation = r.locations[end];
    f.size = end + 1;
    f.numClients = r.numClients_[end];
    f.numPickups = r.numPickups_[end];
    f.startsAtReloadDepot = false;  // it is the start depot
    f.endsAtReloadDepot = isReload(last);
    f.distance = r.cumDist[end];
    f.duration = r.durBefore[end];
    f.load = r.loadBefore[dim][end];
    return f;
}

SegmentFacts want_between(
    SRoute const &r, size_t start, size_t end, size_t profile, size_t dim)
{
    SegmentFacts f = ends(r, start, end);
    auto const &durations = r.data.durationMatrix(profile);

    f.distance = r.cumDist[end] - r.cumDist[start];
    if (profile != r.vehicleType_.profile)
    {
        auto const &distances = r.data.distanceMatrix(profile);
        f.distance = 0;
        for (size_t pos = start; pos != end; ++pos)
            f.distance += distances(r.locations[pos], r.locations[pos + 1]);
    }

    auto duration = r.durAt[start];
    if (start != end && isReload(r.nodes[start]))
        duration = DurationSegment::merge(
            duration,
            DurationSegment(r.data.depot(r.nodes[start]->activity_.idx())
                                .serviceDuration));

    auto load = r.loadAt[dim][start];
    for (size_t pos = start; pos != end; ++pos)
    {
        duration = DurationSegment::merge(
            durations(r.locations[pos], r.locations[pos + 1]),
            duration,
            r.durAt[pos + 1]);
        load = LoadSegment::merge(load, r.loadAt[dim][pos + 1]);
    }

    f.duration = duration;
    f.load = load;
    return f;
}

SegmentFacts want_at(SRoute const &r, size_t idx, size_t profile, size_t dim)
{
    SegmentFacts f = ends(r, idx, idx);
    f.distance = 0;
    f.duration = r.durAt[idx];
    f.load = r.loadAt[dim][idx];
    return f;
}

// -------------------------------------------------------------- proposals
// Any segment, described by its own answers.
template <size_t N> struct Any
{
    SegmentFacts facts;

    SRoute const *route() const { return facts.route; }
    search::SegmentProxy front() const
    {
        return {facts.front, facts.frontLocation};
    }
    search::SegmentProxy back() const
    {
        return {facts.back, facts.backLocation};
    }
    size_t size() const { return facts.size; }
    size_t numClients() const { return facts.numClients; }
    size_t numPickups() const { return facts.numPickups; }
    bool startsAtReloadDepot() const { return facts.startsAtReloadDepot; }
    bool endsAtReloadDepot() const { return facts.endsAtReloadDepot; }
    Distance distance(size_t) const { return facts.distance; }
    DurationSegment duration(size_t) const { return facts.duration; }
    LoadSegment load(size_t) const { return facts.load; }
};

std::pair<Cost, Distance> distanceOf(std::vector<SegmentFacts> const &segments)
{
    auto const &route = *segments[0].route;
    auto const &veh = route.vehicleType_;
    auto const &distances = route.data.distanceMatrix(veh.profile);

    Distance total = segments[0].distance;
    for (size_t idx = 1; idx != segments.size(); ++idx)
    {
        total += distances(segments[idx - 1].backLocation,
                           segments[idx].frontLocation);
        total += segments[idx].distance;
    }

    return std::make_pair(
        static_cast<Cost>(veh.unitDistanceCost) * static_cast<Cost>(total),
        total > veh.maxDistance ? total - veh.maxDistance : Distance(0));
}

Load excessOf(std::vector<SegmentFacts> const &segments, size_t dim)
{
    auto const capacity = segments[0].route->vehicleType_.capacity[dim];

    auto load = segments[0].load;
    if (segments[0].endsAtReloadDepot)
        load = load.finalise(capacity);

    for (size_t idx = 1; idx != segments.size(); ++idx)
    {
        auto const &facts = segments[idx];
        if (facts.startsAtReloadDepot)
            load = load.finalise(capacity);

        load = LoadSegment::merge(load, facts.load);

        if (idx + 1 != segments.size() && facts.endsAtReloadDepot
            && facts.size > 1)
            load = load.finalise(capacity);
    }

    return load.excessLoad(capacity);
}

std::pair<Cost, Duration> durationOf(std::vector<SegmentFacts> const &segments)
{
    auto const &route = *segments[0].route;
    auto const &veh = route.vehicleType_;
    auto const &data = route.data;
    auto const &durations = data.durationMatrix(veh.profile);
    size_t const last = segments.size() - 1;

    auto total = segments[last].duration;
    if (segments[last].startsAtReloadDepot)
        total = total.finaliseFront();

    for (size_t left = last; left != 0; --left)
    {
        auto const &facts = segments[left - 1];
        auto edge = durations(facts.backLocation,
                              segments[left].frontLocation);

        if (facts.endsAtReloadDepot)
        {
            auto const &depot = data.depot(facts.back.idx());
            total = DurationSegment::merge(
                edge, DurationSegment(depot, depot.serviceDuration), total);
            total = total.finaliseFront();
            edge = 0;
        }

        total = DurationSegment::merge(edge, facts.duration, total);
        if (left != 1 && facts.startsAtReloadDepot && facts.size > 1)
            total = total.finaliseFront();
    }

    auto const duration = total.duration();
    Duration const overtime = duration > veh.shiftDuration
                                  ? duration - veh.shiftDuration
                                  : Duration(0);
    return std::make_pair(
        static_cast<Cost>(veh.unitDurationCost) * static_cast<Cost>(duration)
            + static_cast<Cost>(veh.unitOvertimeCost)
                  * static_cast<Cost>(overtime),
        total.timeWarp(veh.maxDuration));
}

#define PROPOSALS(N, PARAMS, ARGS, LIST)                                       \
    std::pair<Cost, Distance> got_distance##N PARAMS                           \
    {                                                                          \
        SRoute::Proposal const proposal ARGS;                                  \
        return proposal.distance();                                            \
    }                                                                          \
    std::pair<Cost, Duration> got_duration##N PARAMS                           \
    {                                                                          \
        SRoute::Proposal const proposal ARGS;                                  \
        return proposal.duration();                                            \
    }                                                                          \
    Load got_excess##N PARAMS                                                  \
    {                                                                          \
        SRoute::Proposal const proposal ARGS;                                  \
        return proposal.excessLoad(dim);                                       \
    }                                                                          \
    SRoute const *got_route##N PARAMS                                          \
    {                                                                          \
        SRoute::Proposal const proposal ARGS;                                  \
        return proposal.route();                                               \
    }                                                                          \
    Cost got_fixed##N PARAMS                                                   \
    {                                                                          \
        SRoute::Proposal const proposal ARGS;                                  \
        return proposal.fixedVehicleCost();                                    \
    }                                                                          \
    std::pair<Cost, Distance> want_distance##N PARAMS                          \
    {                                                                          \
        std::vector<SegmentFacts> const segments LIST;                                  \
        return distanceOf(segments);                                           \
    }                                                                          \
    std::pair<Cost, Duration> want_duration##N PARAMS                          \
    {                                                                          \
        std::vector<SegmentFacts> const segments LIST;                                  \
        return durationOf(segments);                                           \
    }                                                                          \
    Load want_excess##N PARAMS                                                 \
    {                                                                          \
        std::vector<SegmentFacts> const segments LIST;                                  \
        return excessOf(segments, dim);                                        \
    }                                                                          \
    SRoute const *want_route##N PARAMS { return a.facts.route; }               \
    Cost want_fixed##N PARAMS                                                  \
    {                                                                          \
        return a.facts.route->vehicleType_.fixedCost;                          \
    }

PROPOSALS(2, (Any<0> a, Any<1> b, size_t dim), (a, b), ({a.facts, b.facts}))
PROPOSALS(3,
          (Any<0> a, Any<1> b, Any<2> c, size_t dim),
          (a, b, c),
          ({a.facts, b.facts, c.facts}))
PROPOSALS(4,
          (Any<0> a, Any<1> b, Any<2> c, Any<3> d, size_t dim),
          (a, b, c, d),
          ({a.facts, b.facts, c.facts, d.facts}))

// ---------------------------------------------------- single-visit segments
SegmentFacts got_client(ProblemData const &data, size_t idx, size_t dim)
{
    return describe(search::ClientSegment(data, idx), 0, dim);
}

SegmentFacts got_depot(ProblemData const &data, size_t idx, size_t dim)
{
    return describe(search::DepotSegment(data, idx), 0, dim);
}

SegmentFacts got_pickup(ProblemData const &data, size_t idx, size_t dim)
{
    return describe(search::PickupSegment(data, idx), 0, dim);
}

SegmentFacts got_delivery(ProblemData const &data, size_t idx, size_t dim)
{
    return describe(search::DeliverySegment(data, idx), 0, dim);
}

SegmentFacts single(ProblemData const &data, Activity activity, size_t dim)
{
    SegmentFacts f;
    f.route = nullptr;
    f.front = activity;
    f.back = activity;
    f.frontLocation = locationOf(data, activity);
    f.backLocation = locationOf(data, activity);
    f.size = 1;
    f.numClients = activity.type() == Type::CLIENT ? 1 : 0;
    f.numPickups = activity.type() == Type::PICKUP ? 1 : 0;
    f.startsAtReloadDepot = activity.type() == Type::DEPOT;
    f.endsAtReloadDepot = activity.type() == Type::DEPOT;
    f.distance = 0;
    f.duration = durationOf(data, activity);
    f.load = loadOf(data, activity, dim);
    return f;
}

SegmentFacts want_client(ProblemData const &data, size_t idx, size_t dim)
{
    return single(data, Activity(Type::CLIENT, idx), dim);
}

SegmentFacts want_depot(ProblemData const &data, size_t idx, size_t dim)
{
    return single(data, Activity(Type::DEPOT, idx), dim);
}

SegmentFacts want_pickup(ProblemData const &data, size_t idx, size_t dim)
{
    return single(data, Activity(Type::PICKUP, idx), dim);
}

SegmentFacts want_delivery(ProblemData const &data, size_t idx, size_t dim)
{
    return single(data, Activity(Type::DELIVERY, idx), dim);
}

// ------------------------------------------------------------ modifications
// A visit is put in its place: it and everything after it learn their new
// positions, and following a depot their trips.
void got_insert(SRoute &r, size_t idx, SRoute::Node *node)
{
    r.insert(idx, node);
}

void want_insert(SRoute &r, size_t idx, SRoute::Node *node)
{
    if (node->activity_.type() == Type::DEPOT)
    {
        if (r.depots_.size() - 1 >= r.vehicleType_.maxTrips())
            throw std::invalid_argument("too many trips");

        if (r.depots_.size() == r.depots_.capacity())
        {
            r.depots_.reserve(r.depots_.size() + 1);
            for (auto &depot : r.depots_)
                r.nodes[depot.pos_] = &depot;
        }

        node = &r.depots_.emplace_back(node->activity_);
    }

    r.nodes.insert(r.nodes.begin() + idx, node);
    node->pos_ = idx;
    node->trip_ = r.nodes[idx - 1]->trip_;
    node->route_ = &r;

    for (size_t pos = idx; pos != r.nodes.size(); ++pos)
    {
        r.nodes[pos]->pos_ = pos;
        if (node->activity_.type() == Type::DEPOT)
            r.nodes[pos]->trip_ += 1;
    }
}

void got_pushBack(SRoute &r, SRoute::Node *node) { r.push_back(node); }

void want_pushBack(SRoute &r, SRoute::Node *node)
{
    r.insert(r.nodes.size() - 1, node);
}

void got_remove(SRoute &r, size_t idx) { r.remove(idx); }

void want_remove(SRoute &r, size_t idx)
{
    bool const wasReload = isReload(r.nodes[idx]);
    if (wasReload)
    {
        auto it = r.depots_.erase(
            r.depots_.begin() + std::distance(r.depots_.data(), r.nodes[idx]));
        for (; it != r.depots_.end(); ++it)
            r.nodes[it->pos_] = &*it;
    }
    else
    {
        r.nodes[idx]->pos_ = 0;
        r.nodes[idx]->trip_ = 0;
        r.nodes[idx]->route_ = nullptr;
    }

    r.nodes.erase(r.nodes.begin() + idx);
    for (size_t pos = idx; pos != r.nodes.size(); ++pos)
    {
        r.nodes[pos]->pos_ = pos;
        if (wasReload)
            r.nodes[pos]->trip_ -= 1;
    }
}

void got_swap(SRoute::Node *first, SRoute::Node *second)
{
    SRoute::swap(first, second);
}

void want_swap(SRoute::Node *first, SRoute::Node *second)
{
    auto const pos1 = first->pos_;
    auto const trip1 = first->trip_;
    auto *route1 = first->route_;
    auto const pos2 = second->pos_;
    auto const trip2 = second->trip_;
    auto *route2 = second->route_;

    if (route1)
        route1->nodes[pos1] = second;
    if (route2)
        route2->nodes[pos2] = first;

    first->pos_ = pos2;
    first->trip_ = trip2;
    first->route_ = route2;
    second->pos_ = pos1;
    second->trip_ = trip1;
    second->route_ = route1;
}

size_t got_vehicleType(SRoute const &r) { return r.vehicleType(); }

size_t want_vehicleType(SRoute const &r)
{
    return std::distance(&r.data.vehicleTypes_[0], &r.vehicleType_);
}

SRoute::Node *got_prev(SRoute::Node *node) { return search::p(node); }
SRoute::Node *want_prev(SRoute::Node *node)
{
    return node->route_->nodes[node->pos_ - 1];
}

SRoute::Node *got_next(SRoute::Node *node) { return search::n(node); }
SRoute::Node *want_next(SRoute::Node *node)
{
    return node->route_->nodes[node->pos_ + 1];
}
}
