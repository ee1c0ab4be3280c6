// C31: which neighbours each client and each pickup gets, and which
// neighbourhoods a search space accepts.
#include "search/neighbourhood.cpp"
#include "search/SearchSpace.h"

#include <algorithm>
#include <limits>
#include <numeric>
#include <stdexcept>
#include <vector>

namespace pyvrp::spec
{
using Params = search::NeighbourhoodParams;
using Type = Activity::ActivityType;

template <typename From, typename To>
double want_arc(ProblemData const &data,
                VehicleType const &type,
                Params const &params,
                From const &from,
                To const &to)
{
    auto const dist = static_cast<double>(
        data.distanceMatrix(type.profile)(from.location, to.location));
    auto const dur = static_cast<double>(
        data.durationMatrix(type.profile)(from.location, to.location));
    auto const ready = static_cast<double>(from.twEarly)
                       + static_cast<double>(from.serviceDuration) + dur;
    auto const last = static_cast<double>(from.twLate)
                      + static_cast<double>(from.serviceDuration) + dur;

    if (ready > static_cast<double>(to.twLate))
        return std::numeric_limits<double>::max();

    double wait = 0;
    if (static_cast<double>(to.twEarly) > last)
        wait = static_cast<double>(to.twEarly) - last;

    return static_cast<double>(type.unitDistanceCost) * dist
           + static_cast<double>(type.unitDurationCost) * (dur + wait)
           + params.weightWaitTime * wait;
}

template <typename From, typename To>
double want_best(ProblemData const &data,
                 Params const &params,
                 double best,
                 From const &from,
                 To const &to)
{
    for (auto const &type : data.vehicleTypes())
    {
        best = std::min(best, want_arc(data, type, params, from, to));
        if (params.symmetricProximity)
            best = std::min(best, want_arc(data, type, params, to, from));
    }

    return best;
}

template <typename From>
double want_prox(ProblemData const &data,
                 Params const &params,
                 double best,
                 From const &from,
                 size_t to)
{
    auto const nc = data.numClients();
    auto const ns = data.numShipments();

    if (to < nc)
        return want_best(data, params, best, from, data.client(to));
    if (to < nc + ns)
        return want_best(
            data, params, best, from, data.shipment(to - nc).pickup);
    return want_best(
        data, params, best, from, data.shipment(to - nc - ns).delivery);
}

double want_proximity(ProblemData const &data,
                      Params const &params,
                      size_t from,
                      size_t to)
{
    if (from >= data.numClients() + data.numShipments()
        || to >= data.numClients() + 2 * data.numShipments())
        return 0;

    double const none = std::numeric_limits<double>::max();
    if (from < data.numClients())
        return want_prox(data, params, none, data.client(from), to);

    auto const &shipment = data.shipment(from - data.numClients());
    return want_prox(data,
                     params,
                     want_prox(data, params, none, shipment.pickup, to),
                     shipment.delivery,
                     to);
}

double got_proximity(ProblemData const &data,
                     Params const &params,
                     size_t from,
                     size_t to)
{
    if (from >= data.numClients() + data.numShipments()
        || to >= data.numClients() + 2 * data.numShipments())
        return 0;
    return computeProximity(data, params)(from, to);
}

// Members of an exclusive group come after every other feasible neighbour.
double want_weight(ProblemData const &data,
                   Params const &params,
                   size_t from,
                   size_t to)
{
    auto const nc = data.numClients();
    if (from == to || (from >= nc && to == from + data.numShipments()))
        return std::numeric_limits<double>::infinity();

    if (from < nc && to < nc)
        for (auto const &group : data.groups())
            for (auto const a : group)
                for (auto const b : group)
                    if (a == from && b == to)
                        return std::numeric_limits<double>::max();

    return want_proximity(data, params, from, to);
}

std::vector<Activity>
want_from(ProblemData const &data, Params const &params, size_t from)
{
    auto const nc = data.numClients();
    auto const ns = data.numShipments();
    std::vector<size_t> order(nc + 2 * ns);
    std::iota(order.begin(), order.end(), 0);
    std::stable_sort(order.begin(),
                     order.end(),
                     [&](size_t a, size_t b)
                     {
                         return want_weight(data, params, from, a)
                                < want_weight(data, params, from, b);
                     });

    size_t num = 0;
    if (nc > 1)
        num += nc - 1;
    if (ns > 1)
        num += 2 * (ns - 1);
    if (num > params.numNeighbours)
        num = params.numNeighbours;

    std::vector<Activity> out;
    for (size_t i = 0; i != num; ++i)
        if (order[i] < nc)
            out.push_back(Activity(Type::CLIENT, order[i]));
        else if (order[i] < nc + ns)
            out.push_back(Activity(Type::PICKUP, order[i] - nc));
        else
            out.push_back(Activity(Type::DELIVERY, order[i] - nc - ns));
    return out;
}

std::vector<Activity> got_client(ProblemData const &data,
                                 Params const &params,
                                 size_t idx)
{
    if (idx >= data.numClients())
        return {};
    return search::computeNeighbours(data, params)
        .at(Activity(Type::CLIENT, idx));
}

std::vector<Activity> want_client(ProblemData const &data,
                                  Params const &params,
                                  size_t idx)
{
    if (idx >= data.numClients())
        return {};
    return want_from(data, params, idx);
}

std::vector<Activity> got_pickup(ProblemData const &data,
                                 Params const &params,
                                 size_t idx)
{
    if (idx >= data.numShipments())
        return {};
    return search::computeNeighbours(data, params)
        .at(Activity(Type::PICKUP, idx));
}

std::vector<Activity> want_pickup(ProblemData const &data,
                                  Params const &params,
                                  size_t idx)
{
    if (idx >= data.numShipments())
        return {};
    return want_from(data, params, data.numClients() + idx);
}

// ----------------------------------------------------------- parameters
struct Given
{
    double weight;
    size_t num;
    bool symmetric;
};

Given got_params(double weight, size_t num, bool symmetric)
{
    Params const params(weight, num, symmetric);
    return {params.weightWaitTime,
            params.numNeighbours,
            params.symmetricProximity};
}

Given want_params(double weight, size_t num, bool symmetric)
{
    if (num == 0)
        throw std::invalid_argument("");
    return {weight, num, symmetric};
}

// ---------------------------------------------------------- search space
using Neighbours = search::SearchSpace::Neighbours;

void want_setNeighbours(search::SearchSpace &self, Neighbours neighbours)
{
    if (self.neighbours_.size() > 0
        && self.neighbours_.size() != neighbours.size())
        throw std::runtime_error("");

    for (auto const &[activity, others] : neighbours)
    {
        if (activity.type() != Type::CLIENT && activity.type() != Type::PICKUP)
            throw std::runtime_error("");

        for (auto const &other : others)
            if (other == activity)
                throw std::runtime_error("");
    }

    self.neighbours_ = neighbours;
}
}  // namespace pyvrp::spec
