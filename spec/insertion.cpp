// Inserting a shipment (C18, C19).
#include "search/Solution.cpp"

namespace pyvrp::spec
{
using namespace pyvrp::search;
using SRoute = search::Route;
using Node = search::Route::Node;
using SSolution = search::Solution;

struct Place
{
    Node *after;
    size_t delivery;
    Cost cost;
};

bool want_insertShipment(SSolution &self,
                         Node *pickup,
                         Node *delivery,
                         SearchSpace const &space,
                         CostEvaluator const &ce,
                         bool required)
{
    auto const &data = self.data_;
    auto const prize = data.shipment(pickup->idx()).prize;
    Place best = {self.routes[0][0], 1, std::numeric_limits<Cost>::max()};

    for (auto const &activity : space.neighboursOf(pickup->activity()))
    {
        auto *neighbour = self[activity];
        auto const *route = neighbour->route();
        if (!route)
            continue;

        for (auto *V : {p(neighbour), neighbour})
        {
            Cost cost = -prize;
            ce.deltaCost<true>(
                cost,
                SRoute::Proposal(route->before(V->pos()),
                                 PickupSegment(data, pickup->idx()),
                                 DeliverySegment(data, delivery->idx()),
                                 route->after(V->pos() + 1)));
            if (cost < best.cost)
                best = {V, V->pos() + 1, cost};

            IncrementalSegmentBetween between = {data, n(V)};
            for (auto const *node = n(V); !node->isDepot(); node = n(node))
            {
                Cost other = -prize;
                ce.deltaCost<true>(
                    other,
                    SRoute::Proposal(route->before(V->pos()),
                                     PickupSegment(data, pickup->idx()),
                                     between,
                                     DeliverySegment(data, delivery->idx()),
                                     route->after(node->pos() + 1)));
                if (other < best.cost)
                    best = {V, node->pos() + 1, other};
                ++between;
            }
        }
    }

    for (auto const &[type, first] : space.vehTypeOrder())
    {
        auto const last = first + data.vehicleType(type).numAvailable;
        auto at = first;
        while (at != last && !self.routes[at].empty())
            at++;
        if (at == last)
            continue;
        Cost cost = -prize;
        ce.deltaCost<true>(
            cost,
            SRoute::Proposal(self.routes[at].before(0),
                             PickupSegment(data, pickup->idx()),
                             DeliverySegment(data, delivery->idx()),
                             self.routes[at].after(1)));
        if (cost < best.cost)
        {
            best = {self.routes[at][0], 1, cost};
            break;
        }
    }

    if (!required && best.cost >= 0)
        return false;
    auto *route = best.after->route();
    route->insert(best.delivery, delivery);
    route->insert(best.after->pos() + 1, pickup);
    return true;
}
}  // namespace pyvrp::spec
