// Routes: what is rejected (C10), and the statistics of the others (C16).
#include "DurationSegment.h"
#include "LoadSegment.h"
#include "Route.h"

#include <algorithm>
#include <stdexcept>
#include <vector>

namespace pyvrp::spec
{
using Activities = std::vector<Activity>;
using Type = Activity::ActivityType;

// ------------------------------------------------------------- rejections
bool got_accepts(ProblemData const &data,
                 Activities const &activities,
                 size_t vehicleType)
{
    Route const route(data, activities, vehicleType);
    return true;
}

bool want_accepts(ProblemData const &data,
                  Activities const &activities,
                  size_t vehicleType)
{
    if (vehicleType >= data.numVehicleTypes())
        throw std::invalid_argument("unknown vehicle type");

    std::vector<bool> picked(data.numShipments(), false);
    std::vector<bool> delivered(data.numShipments(), false);
    size_t trips = 1;

    for (auto const &activity : activities)
    {
        auto const idx = activity.idx();
        switch (activity.type())
        {
        case Type::CLIENT:
            if (idx >= data.numClients())
                throw std::invalid_argument("unknown client");
            break;

        case Type::DEPOT:
            trips++;
            if (idx >= data.numDepots())
                throw std::invalid_argument("unknown depot");
            if (picked != delivered)
                throw std::invalid_argument("shipment crosses depot");
            break;

        case Type::PICKUP:
            if (idx >= data.numShipments())
                throw std::invalid_argument("unknown shipment");
            if (picked[idx])
                throw std::invalid_argument("picked up twice");
            picked[idx] = true;
            break;

        case Type::DELIVERY:
            if (idx >= data.numShipments())
                throw std::invalid_argument("unknown shipment");
            if (!picked[idx])
                throw std::invalid_argument("delivered before pickup");
            if (delivered[idx])
                throw std::invalid_argument("delivered twice");
            delivered[idx] = true;
            break;
        }
    }

    for (size_t idx = 0; idx != data.numShipments(); ++idx)
        if (picked[idx] != delivered[idx])
            throw std::invalid_argument("not delivered");

    if (trips > data.vehicleType(vehicleType).maxTrips())
        throw std::invalid_argument("too many trips");

    return true;
}

bool got_visits(ProblemData const &data,
                std::vector<size_t> const &visits,
                size_t vehicleType)
{
    Route const route(data, visits, vehicleType);
    return true;
}

bool want_visits(ProblemData const &data,
                 std::vector<size_t> const &visits,
                 size_t vehicleType)
{
    Activities activities;
    for (auto const client : visits)
        activities.push_back(Activity(Type::CLIENT, client));

    Route const route(data, activities, vehicleType);
    return true;
}

// ------------------------------------------------------------- statistics
struct Stats
{
    size_t vehicleType;
    size_t startDepot;
    size_t endDepot;
    size_t size;
    size_t numShipments;
    Distance distance;
    Cost distanceCost;
    Distance excessDistance;
    Duration duration;
    Duration overtime;
    Cost durationCost;
    Duration timeWarp;
    Duration travel;
    Duration service;
    Duration startTime;
    Duration releaseTime;
    Duration slack;
    Cost fixedVehicleCost;
    Cost prizes;
    std::vector<Load> delivery;
    std::vector<Load> pickup;
    std::vector<Load> excessLoad;
    std::vector<Route::ScheduledActivity> schedule;
};

Stats got_stats(ProblemData const &data,
                Activities const &activities,
                size_t vehicleType)
{
    Route const route(data, activities, vehicleType);
    Stats res;
    res.vehicleType = route.vehicleType();
    res.startDepot = route.startDepot();
    res.endDepot = route.endDepot();
    res.size = route.size();
    res.numShipments = route.numShipments();
    res.distance = route.distance();
    res.distanceCost = route.distanceCost();
    res.excessDistance = route.excessDistance();
    res.duration = route.duration();
    res.overtime = route.overtime();
    res.durationCost = route.durationCost();
    res.timeWarp = route.timeWarp();
    res.travel = route.travelDuration();
    res.service = route.serviceDuration();
    res.startTime = route.startTime();
    res.releaseTime = route.releaseTime();
    res.slack = route.slack();
    res.fixedVehicleCost = route.fixedVehicleCost();
    res.prizes = route.prizes();
    res.delivery = route.delivery();
    res.pickup = route.pickup();
    res.excessLoad = route.excessLoad();
    res.schedule = route.schedule();
    return res;
}

size_t location(ProblemData const &data, Activity const &activity)
{
    if (activity.isDepot())
        return data.depot(activity.idx()).location;
    if (activity.isClient())
        return data.client(activity.idx()).location;
    if (activity.isPickup())
        return data.shipment(activity.idx()).pickup.location;
    return data.shipment(activity.idx()).delivery.location;
}

Duration service(ProblemData const &data, Activity const &activity)
{
    if (activity.isDepot())
        return data.depot(activity.idx()).serviceDuration;
    if (activity.isClient())
        return data.client(activity.idx()).serviceDuration;
    if (activity.isPickup())
        return data.shipment(activity.idx()).pickup.serviceDuration;
    return data.shipment(activity.idx()).delivery.serviceDuration;
}

DurationSegment segment(ProblemData const &data, Activity const &activity)
{
    if (activity.isDepot())
    {
        auto const &depot = data.depot(activity.idx());
        return DurationSegment(depot, depot.serviceDuration);
    }
    if (activity.isClient())
        return DurationSegment(data.client(activity.idx()));
    if (activity.isPickup())
        return DurationSegment(data.shipment(activity.idx()).pickup);
    return DurationSegment(data.shipment(activity.idx()).delivery);
}

void visit(std::vector<Route::ScheduledActivity> &schedule,
           Duration &now,
           Activity const &activity,
           size_t trip,
           Duration early,
           Duration late,
           Duration service)
{
    Duration wait = 0;
    Duration warp = 0;
    if (now < early)
        wait = early - now;
    if (now > late)
        warp = now - late;

    Duration const start = now + wait - warp;
    schedule.push_back(Route::ScheduledActivity(
        activity, trip, start, start + service, wait, warp));
    now = start + service;
}

Stats want_stats(ProblemData const &data,
                 Activities const &activities,
                 size_t vehicleType)
{
    auto const &veh = data.vehicleType(vehicleType);
    auto const &dist = data.distanceMatrix(veh.profile);
    auto const &dur = data.durationMatrix(veh.profile);
    auto const &start = data.depot(veh.startDepot);
    auto const &end = data.depot(veh.endDepot);

    Stats res;
    res.vehicleType = vehicleType;
    res.startDepot = veh.startDepot;
    res.endDepot = veh.endDepot;
    res.size = activities.size() + 2;
    res.fixedVehicleCost = veh.fixedCost;

    // Visits, travel and service.
    res.numShipments = 0;
    res.prizes = 0;
    res.distance = 0;
    res.travel = 0;
    res.service = start.serviceDuration;
    size_t prev = start.location;
    for (auto const &activity : activities)
    {
        auto const here = location(data, activity);
        res.distance += dist(prev, here);
        res.travel += dur(prev, here);
        res.service += service(data, activity);
        prev = here;

        if (activity.isClient())
            res.prizes += data.client(activity.idx()).prize;

        if (activity.isPickup())
        {
            res.prizes += data.shipment(activity.idx()).prize;
            res.numShipments++;
        }
    }

    res.distance += dist(prev, end.location);
    res.travel += dur(prev, end.location);

    res.distanceCost = veh.unitDistanceCost * static_cast<Cost>(res.distance);
    res.excessDistance
        = std::max<Distance>(res.distance - veh.maxDistance, 0);

    // Duration: trips from the last to the first.
    std::vector<Duration> releases;
    size_t next = end.location;
    auto ds = DurationSegment::merge(
        DurationSegment(end, 0), DurationSegment(veh, veh.twLate));
    for (size_t left = activities.size(); left != 0; --left)
    {
        auto const &activity = activities[left - 1];
        auto const here = location(data, activity);
        ds = DurationSegment::merge(
            dur(here, next), segment(data, activity), ds);
        next = here;

        if (activity.isDepot())
        {
            releases.insert(releases.begin(), ds.releaseTime());
            ds = ds.finaliseFront();
        }
    }

    ds = DurationSegment::merge(dur(start.location, next),
                                DurationSegment(start, start.serviceDuration),
                                ds);
    ds = DurationSegment::merge(DurationSegment(veh, veh.startLate), ds);
    releases.insert(releases.begin(), ds.releaseTime());

    res.duration = ds.duration();
    res.overtime = std::max<Duration>(res.duration - veh.shiftDuration, 0);
    res.durationCost
        = veh.unitDurationCost * static_cast<Cost>(res.duration)
          + veh.unitOvertimeCost * static_cast<Cost>(res.overtime);
    res.timeWarp = ds.timeWarp(veh.maxDuration);
    res.startTime = ds.startEarly();
    res.releaseTime = ds.releaseTime();
    res.slack = ds.slack();

    // The schedule from leaving the depot at the start time.
    Duration now = res.startTime;
    visit(res.schedule,
          now,
          Activity(Type::DEPOT, veh.startDepot),
          0,
          std::max(start.twEarly, std::min(res.releaseTime, start.twLate)),
          std::min(start.twLate, veh.startLate),
          start.serviceDuration);

    size_t trip = 0;
    prev = start.location;
    for (auto const &activity : activities)
    {
        auto const here = location(data, activity);
        now += dur(prev, here);
        prev = here;

        if (activity.isDepot())
        {
            trip++;
            auto const &depot = data.depot(activity.idx());
            visit(res.schedule,
                  now,
                  activity,
                  trip,
                  std::max(depot.twEarly,
                           std::min(releases[trip], depot.twLate)),
                  depot.twLate,
                  depot.serviceDuration);
        }
        else if (activity.isClient())
        {
            auto const &client = data.client(activity.idx());
            visit(res.schedule,
                  now,
                  activity,
                  trip,
                  client.twEarly,
                  client.twLate,
                  client.serviceDuration);
        }
        else
        {
            auto const &shipment = data.shipment(activity.idx());
            auto const &step
                = activity.isPickup() ? shipment.pickup : shipment.delivery;
            visit(res.schedule,
                  now,
                  activity,
                  trip,
                  step.twEarly,
                  step.twLate,
                  step.serviceDuration);
        }
    }

    now += dur(prev, end.location);
    visit(res.schedule,
          now,
          Activity(Type::DEPOT, veh.endDepot),
          releases.size(),
          end.twEarly,
          end.twLate,
          0);

    // Loads.
    res.delivery = std::vector<Load>(data.numLoadDimensions(), 0);
    res.pickup = std::vector<Load>(data.numLoadDimensions(), 0);
    res.excessLoad = std::vector<Load>(data.numLoadDimensions(), 0);
    for (size_t dim = 0; dim != data.numLoadDimensions(); ++dim)
    {
        LoadSegment ls;
        if (veh.initialLoad[dim] > 0)
        {
            ls = LoadSegment(veh, dim);
            res.pickup[dim] = veh.initialLoad[dim];
        }

        for (auto const &activity : activities)
        {
            if (activity.isDepot())
                ls = ls.finalise(veh.capacity[dim]);
            else if (activity.isClient())
            {
                auto const &client = data.client(activity.idx());
                ls = LoadSegment::merge(ls, LoadSegment(client, dim));
                res.delivery[dim] += client.delivery[dim];
                res.pickup[dim] += client.pickup[dim];
            }
            else
            {
                auto const &shipment = data.shipment(activity.idx());
                ls = LoadSegment::merge(
                    ls, LoadSegment(shipment, activity.type(), dim));
            }
        }

        ls = ls.finalise(veh.capacity[dim]);  // the end depot
        res.excessLoad[dim] = ls.excessLoad(veh.capacity[dim]);
    }

    return res;
}

// ------------------------------------------------- accessors and counters
size_t want_numTrips(Route const &self) { return self.schedule_.back().trip(); }

size_t want_numDepots(Route const &self)
{
    return want_numTrips(self) + 1;
}

size_t want_numClients(Route const &self)
{
    return self.schedule().size() - want_numDepots(self)
           - 2 * self.numShipments();
}

Duration want_waitDuration(Route const &self)
{
    return self.duration() - self.travelDuration() - self.serviceDuration();
}

Duration want_endTime(Route const &self)
{
    return self.startTime() + self.duration() - self.timeWarp();
}

Duration want_activityDuration(Route::ScheduledActivity const &self)
{
    return self.endTime() - self.startTime();
}
}  // namespace pyvrp::spec
