// Costs: the objective the search evaluates and the one the user sees (C14).
#include "CostEvaluator.h"
#include "Route.h"
#include "Solution.h"
#include "search/Route.h"
#include "search/Solution.h"

#include <limits>
#include <stdexcept>
#include <utility>
#include <vector>

namespace pyvrp::spec
{
// The unit penalties an evaluator is made from.
using Loads = std::vector<double>;

void valid(Loads const &load, double tw, double dist)
{
    for (size_t dim = 0; dim != load.size(); ++dim)
        if (load[dim] < 0)
            throw std::invalid_argument("load penalty");
    if (tw < 0)
        throw std::invalid_argument("time warp penalty");
    if (dist < 0)
        throw std::invalid_argument("distance penalty");
}

Cost got_load(Loads load, double tw, double dist, Load x, Load cap, size_t dim)
{
    CostEvaluator const eval(load, tw, dist);
    return eval.loadPenalty(x, cap, dim);
}

Cost want_load(Loads load, double tw, double dist, Load x, Load cap, size_t dim)
{
    valid(load, tw, dist);
    Load excess = 0;
    if (x > cap)
        excess = x - cap;
    return static_cast<Cost>(excess.get() * load[dim]);
}

Cost got_tw(Loads load, double tw, double dist, Duration x)
{
    CostEvaluator const eval(load, tw, dist);
    return eval.twPenalty(x);
}

Cost want_tw(Loads load, double tw, double dist, Duration x)
{
    valid(load, tw, dist);
    return static_cast<Cost>(x.get() * tw);
}

Cost got_dist(Loads load, double tw, double dist, Distance x, Distance max)
{
    CostEvaluator const eval(load, tw, dist);
    return eval.distPenalty(x, max);
}

Cost want_dist(Loads load, double tw, double dist, Distance x, Distance max)
{
    valid(load, tw, dist);
    Distance excess = 0;
    if (x > max)
        excess = x - max;
    return static_cast<Cost>(excess.get() * dist);
}

Cost got_excessDist(Loads load, double tw, double dist, Distance x)
{
    CostEvaluator const eval(load, tw, dist);
    return eval.excessDistPenalty(x);
}

Cost want_excessDist(Loads load, double tw, double dist, Distance x)
{
    valid(load, tw, dist);
    return static_cast<Cost>(x.get() * dist);
}

// ------------------------------------------------------------ whole routes
Cost overLoads(Loads const &load, std::vector<Load> const &excess)
{
    Cost cost = 0;
    for (size_t dim = 0; dim != load.size(); ++dim)
        cost += static_cast<Cost>(load[dim] * excess[dim].get());
    return cost;
}

Cost got_route(Loads load, double tw, double dist, Route const &route)
{
    CostEvaluator const eval(load, tw, dist);
    return eval.penalisedCost(route);
}

Cost want_route(Loads load, double tw, double dist, Route const &route)
{
    valid(load, tw, dist);
    if (route.empty())
        return 0;

    return route.distanceCost() + route.durationCost()
           + route.fixedVehicleCost() + overLoads(load, route.excessLoad())
           + static_cast<Cost>(route.timeWarp().get() * tw)
           + want_dist(load, tw, dist, route.excessDistance(), 0);
}

Cost got_searchRoute(Loads load,
                     double tw,
                     double dist,
                     search::Route const &route)
{
    CostEvaluator const eval(load, tw, dist);
    return eval.penalisedCost(route);
}

Cost want_searchRoute(Loads load,
                      double tw,
                      double dist,
                      search::Route const &route)
{
    valid(load, tw, dist);
    if (route.empty())
        return 0;

    return route.distanceCost() + route.durationCost()
           + route.fixedVehicleCost() + overLoads(load, route.excessLoad())
           + static_cast<Cost>(route.timeWarp().get() * tw)
           + want_dist(load, tw, dist, route.excessDistance(), 0);
}

// --------------------------------------------------------- whole solutions
Cost got_solution(CostEvaluator const &eval, Solution const &sol)
{
    return eval.penalisedCost(sol);
}

Cost want_solution(CostEvaluator const &eval, Solution const &sol)
{
    Cost cost = sol.uncollectedPrizes();
    auto const &routes = sol.routes();
    for (size_t idx = 0; idx != routes.size(); ++idx)
        cost += eval.penalisedCost(routes[idx]);
    return cost;
}

Cost got_cost(CostEvaluator const &eval, Solution const &sol)
{
    return eval.cost(sol);
}

Cost want_cost(CostEvaluator const &eval, Solution const &sol)
{
    if (!sol.isFeasible())
        return std::numeric_limits<Cost>::max();
    return eval.penalisedCost(sol);
}

Cost got_searchSolution(CostEvaluator const &eval, search::Solution const &sol)
{
    return eval.penalisedCost(sol);
}

Cost want_searchSolution(CostEvaluator const &eval, search::Solution const &sol)
{
    Cost cost = 0;
    for (size_t idx = 0; idx != sol.routes.size(); ++idx)
        cost += eval.penalisedCost(sol.routes[idx]);
    for (size_t idx = 0; idx != sol.data_.numShipments(); ++idx)
        if (!sol.shipments[idx].first.route())
            cost += sol.data_.shipment(idx).prize;
    for (size_t idx = 0; idx != sol.data_.numClients(); ++idx)
        if (!sol.clients[idx].route())
            cost += sol.data_.client(idx).prize;
    return cost;
}

// -------------------------------------------------------------- delta costs
// Any proposal: what the evaluator asks of it, and nothing else.
template <typename... Args> struct Proposed
{
    search::Route const *route() const;
    Cost fixedVehicleCost() const;
    std::pair<Cost, Distance> distance() const;
    std::pair<Cost, Duration> duration() const;
    Load excessLoad(size_t dimension) const;
};

Cost proposed(CostEvaluator const &eval, Proposed<> const &prop)
{
    Cost cost = prop.fixedVehicleCost();
    auto const *route = prop.route();
    if (route->hasDistanceCost())
    {
        auto const d = prop.distance();
        cost += d.first + eval.excessDistPenalty(d.second);
    }
    if (route->hasDurationCost())
    {
        auto const d = prop.duration();
        cost += d.first + eval.twPenalty(d.second);
    }
    for (size_t dim = 0; dim != route->capacity().size(); ++dim)
        cost += eval.loadPenalty(prop.excessLoad(dim), 0, dim);
    return cost;
}

Cost got_delta(CostEvaluator const &eval, Proposed<> const &prop, Cost out)
{
    eval.deltaCost<true>(out, prop);
    return out;
}

Cost want_delta(CostEvaluator const &eval, Proposed<> const &prop, Cost out)
{
    return out + proposed(eval, prop) - eval.penalisedCost(*prop.route());
}

Cost got_delta2(CostEvaluator const &eval,
                Proposed<> const &first,
                Proposed<> const &second,
                Cost out)
{
    eval.deltaCost<true>(out, first, second);
    return out;
}

Cost want_delta2(CostEvaluator const &eval,
                 Proposed<> const &first,
                 Proposed<> const &second,
                 Cost out)
{
    return out + proposed(eval, first) - eval.penalisedCost(*first.route())
           + proposed(eval, second) - eval.penalisedCost(*second.route());
}

bool got_saysExact(CostEvaluator const &eval,
                   Proposed<> const &first,
                   Proposed<> const &second,
                   Cost out)
{
    Cost copy = out;
    return eval.deltaCost<true>(out, first)
           && eval.deltaCost<true>(copy, first, second);
}

bool want_saysExact(CostEvaluator const &eval,
                    Proposed<> const &first,
                    Proposed<> const &second,
                    Cost out)
{
    return true;
}

// When evaluation is cut short the move was not improving, and else the value
// is the exact one.
bool got_shortcut(CostEvaluator const &eval, Proposed<> const &prop, Cost out)
{
    Cost res = out;
    if (eval.deltaCost(res, prop))
        return res == want_delta(eval, prop, out);
    return res >= 0;
}

bool want_shortcut(CostEvaluator const &eval, Proposed<> const &prop, Cost out)
{
    return true;
}

bool got_shortcut2(CostEvaluator const &eval,
                   Proposed<> const &first,
                   Proposed<> const &second,
                   Cost out)
{
    Cost res = out;
    if (eval.deltaCost(res, first, second))
        return res == want_delta2(eval, first, second, out);
    return res >= 0;
}

bool want_shortcut2(CostEvaluator const &eval,
                    Proposed<> const &first,
                    Proposed<> const &second,
                    Cost out)
{
    return true;
}
}  // namespace pyvrp::spec
