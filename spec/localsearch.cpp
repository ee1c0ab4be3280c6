// How the local search drives its moves: what is remembered between moves
// (C21), what is applied (C20), and what enters and leaves (C18, C22).
#include "search/InsertOptionalClient.h"
#include "search/LocalSearch.h"
#include "search/Relocate.h"
#include "search/RelocateAlternative.h"
#include "search/RelocateShipment.h"
#include "search/RelocateWithDepot.h"
#include "search/ReplaceGroup.h"
#include "search/Solution.h"

#include "search/ClientSegment.h"
#include "search/DeliverySegment.h"
#include "search/PickupSegment.h"

#include <algorithm>
#include <limits>
#include <stdexcept>
#include <utility>
#include <vector>

namespace pyvrp::spec
{
using namespace pyvrp::search;
using SRoute = search::Route;
using Node = search::Route::Node;
using SSolution = search::Solution;

inline void given(bool holds)
{
    if (!holds)
        throw std::invalid_argument("not considered");
}

// ------------------------------------------- nothing from an earlier call
bool got_initForgetsRelocate1(Relocate<1> &op, SSolution &solution, size_t idx)
{
    op.init(solution);
    return op.hasCachedRemoveCost_[idx];
}

bool want_initForgetsRelocate1(Relocate<1> &, SSolution &, size_t) { return false; }

bool got_initForgetsRelocate2(Relocate<2> &op, SSolution &solution, size_t idx)
{
    op.init(solution);
    return op.hasCachedRemoveCost_[idx];
}

bool want_initForgetsRelocate2(Relocate<2> &, SSolution &, size_t) { return false; }

bool got_initForgetsRelocate3(Relocate<3> &op, SSolution &solution, size_t idx)
{
    op.init(solution);
    return op.hasCachedRemoveCost_[idx];
}

bool want_initForgetsRelocate3(Relocate<3> &, SSolution &, size_t) { return false; }

bool got_initForgetsRelocateAlternative(RelocateAlternative &op, SSolution &solution, size_t idx)
{
    op.init(solution);
    return op.hasCachedRemoveCost_[idx];
}

bool want_initForgetsRelocateAlternative(RelocateAlternative &, SSolution &, size_t) { return false; }

bool got_initForgetsRelocateShipment(RelocateShipment &op, SSolution &solution, size_t idx)
{
    op.init(solution);
    return op.hasCachedRemoveCost_[idx];
}

bool want_initForgetsRelocateShipment(RelocateShipment &, SSolution &, size_t) { return false; }

bool got_initForgetsRelocateWithDepot(RelocateWithDepot &op, SSolution &solution, size_t idx)
{
    op.init(solution);
    return op.hasCachedRemoveCost_[idx];
}

bool want_initForgetsRelocateWithDepot(RelocateWithDepot &, SSolution &, size_t) { return false; }

SSolution const *got_initSolutionInsertOptionalClient(InsertOptionalClient &op, SSolution &solution)
{
    op.init(solution);
    return op.solution_;
}

SSolution const *want_initSolutionInsertOptionalClient(InsertOptionalClient &, SSolution &solution)
{
    return &solution;
}

SSolution const *got_initSolutionRelocateAlternative(RelocateAlternative &op, SSolution &solution)
{
    op.init(solution);
    return op.solution_;
}

SSolution const *want_initSolutionRelocateAlternative(RelocateAlternative &, SSolution &solution)
{
    return &solution;
}

SSolution const *got_initSolutionReplaceGroup(ReplaceGroup &op, SSolution &solution)
{
    op.init(solution);
    return op.solution_;
}

SSolution const *want_initSolutionReplaceGroup(ReplaceGroup &, SSolution &solution)
{
    return &solution;
}

// ----------------------------------- nothing about a route that has changed
bool got_updateForgetsRelocate1(Relocate<1> &op, SRoute const *route, size_t at)
{
    given(at < route->size());
    auto const *node = (*route)[at];
    given(node->isClient() || node->isPickup());
    op.update(route);
    return op.hasCachedRemoveCost_[node->isClient() ? node->idx() : op.data.numClients() + node->idx()];
}

bool want_updateForgetsRelocate1(Relocate<1> &, SRoute const *route, size_t at)
{
    given(at < route->size());
    auto const *node = (*route)[at];
    given(node->isClient() || node->isPickup());
    return false;
}

bool got_updateForgetsRelocate2(Relocate<2> &op, SRoute const *route, size_t at)
{
    given(at < route->size());
    auto const *node = (*route)[at];
    given(node->isClient() || node->isPickup());
    op.update(route);
    return op.hasCachedRemoveCost_[node->isClient() ? node->idx() : op.data.numClients() + node->idx()];
}

bool want_updateForgetsRelocate2(Relocate<2> &, SRoute const *route, size_t at)
{
    given(at < route->size());
    auto const *node = (*route)[at];
    given(node->isClient() || node->isPickup());
    return false;
}

bool got_updateForgetsRelocate3(Relocate<3> &op, SRoute const *route, size_t at)
{
    given(at < route->size());
    auto const *node = (*route)[at];
    given(node->isClient() || node->isPickup());
    op.update(route);
    return op.hasCachedRemoveCost_[node->isClient() ? node->idx() : op.data.numClients() + node->idx()];
}

bool want_updateForgetsRelocate3(Relocate<3> &, SRoute const *route, size_t at)
{
    given(at < route->size());
    auto const *node = (*route)[at];
    given(node->isClient() || node->isPickup());
    return false;
}

bool got_updateForgetsRelocateAlternative(RelocateAlternative &op, SRoute const *route, size_t at)
{
    given(at < route->size());
    auto const *node = (*route)[at];
    given(node->isClient());
    op.update(route);
    return op.hasCachedRemoveCost_[node->idx()];
}

bool want_updateForgetsRelocateAlternative(RelocateAlternative &, SRoute const *route, size_t at)
{
    given(at < route->size());
    auto const *node = (*route)[at];
    given(node->isClient());
    return false;
}

bool got_updateForgetsRelocateShipment(RelocateShipment &op, SRoute const *route, size_t at)
{
    given(at < route->size());
    auto const *node = (*route)[at];
    given(node->isPickup());
    op.update(route);
    return op.hasCachedRemoveCost_[node->idx()];
}

bool want_updateForgetsRelocateShipment(RelocateShipment &, SRoute const *route, size_t at)
{
    given(at < route->size());
    auto const *node = (*route)[at];
    given(node->isPickup());
    return false;
}

bool got_updateForgetsRelocateWithDepot(RelocateWithDepot &op, SRoute const *route, size_t at)
{
    given(at < route->size());
    auto const *node = (*route)[at];
    given(node->isClient());
    op.update(route);
    return op.hasCachedRemoveCost_[node->idx()];
}

bool want_updateForgetsRelocateWithDepot(RelocateWithDepot &, SRoute const *route, size_t at)
{
    given(at < route->size());
    auto const *node = (*route)[at];
    given(node->isClient());
    return false;
}

// --------------------------------------- what is remembered is what it costs
bool got_remembersRelocate1(Relocate<1> &op,
    Node *U, Node *V, CostEvaluator const &ce)
{
    given(U->route());
    auto const *from = U->route();
    auto const u = U->pos();
    auto const idx = U->isClient() ? U->idx() : op.data.numClients() + U->idx();
    given(!op.hasCachedRemoveCost_[idx]);
    Cost cost = 0;
    if (from->numClients() + 2 * from->numShipments() == 1)
        cost -= ce.penalisedCost(*from);
    else
        ce.deltaCost<true>(cost,
                           SRoute::Proposal(from->before(u - 1),
                                            from->after(u + 1)));

    op.evaluate(U, V, ce);
    return op.hasCachedRemoveCost_[idx] && op.removeCost_[idx] != cost;
}

bool want_remembersRelocate1(Relocate<1> &op,
    Node *U, Node *, CostEvaluator const &)
{
    given(U->route());
    auto const idx = U->isClient() ? U->idx() : op.data.numClients() + U->idx();
    given(!op.hasCachedRemoveCost_[idx]);
    return false;
}

bool got_remembersRelocate2(Relocate<2> &op,
    Node *U, Node *V, CostEvaluator const &ce)
{
    given(U->route());
    auto const *from = U->route();
    auto const u = U->pos();
    auto const idx = U->isClient() ? U->idx() : op.data.numClients() + U->idx();
    given(!op.hasCachedRemoveCost_[idx]);
    Cost cost = 0;
    if (from->numClients() + 2 * from->numShipments() == 2)
        cost -= ce.penalisedCost(*from);
    else
        ce.deltaCost<true>(cost,
                           SRoute::Proposal(from->before(u - 1),
                                            from->after(u + 2)));

    op.evaluate(U, V, ce);
    return op.hasCachedRemoveCost_[idx] && op.removeCost_[idx] != cost;
}

bool want_remembersRelocate2(Relocate<2> &op,
    Node *U, Node *, CostEvaluator const &)
{
    given(U->route());
    auto const idx = U->isClient() ? U->idx() : op.data.numClients() + U->idx();
    given(!op.hasCachedRemoveCost_[idx]);
    return false;
}

bool got_remembersRelocate3(Relocate<3> &op,
    Node *U, Node *V, CostEvaluator const &ce)
{
    given(U->route());
    auto const *from = U->route();
    auto const u = U->pos();
    auto const idx = U->isClient() ? U->idx() : op.data.numClients() + U->idx();
    given(!op.hasCachedRemoveCost_[idx]);
    Cost cost = 0;
    if (from->numClients() + 2 * from->numShipments() == 3)
        cost -= ce.penalisedCost(*from);
    else
        ce.deltaCost<true>(cost,
                           SRoute::Proposal(from->before(u - 1),
                                            from->after(u + 3)));

    op.evaluate(U, V, ce);
    return op.hasCachedRemoveCost_[idx] && op.removeCost_[idx] != cost;
}

bool want_remembersRelocate3(Relocate<3> &op,
    Node *U, Node *, CostEvaluator const &)
{
    given(U->route());
    auto const idx = U->isClient() ? U->idx() : op.data.numClients() + U->idx();
    given(!op.hasCachedRemoveCost_[idx]);
    return false;
}

bool got_remembersRelocateAlternative(RelocateAlternative &op,
    Node *U, Node *V, CostEvaluator const &ce)
{
    given(U->route());
    auto const *from = U->route();
    auto const u = U->pos();
    auto const idx = U->idx();
    given(!op.hasCachedRemoveCost_[idx]);
    Cost cost = op.data.client(U->idx()).prize;
    if (from->numClients() == 1 && from->numShipments() == 0)
        cost -= ce.penalisedCost(*from);
    else
        ce.deltaCost<true>(
            cost, SRoute::Proposal(from->before(u - 1), from->after(u + 1)));

    op.evaluate(U, V, ce);
    return op.hasCachedRemoveCost_[idx] && op.removeCost_[idx] != cost;
}

bool want_remembersRelocateAlternative(RelocateAlternative &op,
    Node *U, Node *, CostEvaluator const &)
{
    given(U->route());
    auto const idx = U->idx();
    given(!op.hasCachedRemoveCost_[idx]);
    return false;
}

bool got_remembersRelocateShipment(RelocateShipment &op,
    Node *U, Node *V, CostEvaluator const &ce)
{
    given(U->route());
    auto const *from = U->route();
    auto const u = U->pos();
    auto const idx = U->idx();
    given(!op.hasCachedRemoveCost_[idx]);
    auto const *delivery = U + 1;
    auto const d = delivery->pos();
    Cost cost = 0;
    if (from->numClients() == 0 && from->numShipments() == 1)
        cost -= ce.penalisedCost(*from);
    else if (n(U) == delivery)
        ce.deltaCost<true>(
            cost, SRoute::Proposal(from->before(u - 1), from->after(d + 1)));
    else
        ce.deltaCost<true>(cost,
                           SRoute::Proposal(from->before(u - 1),
                                            from->between(u + 1, d - 1),
                                            from->after(d + 1)));

    op.evaluate(U, V, ce);
    return op.hasCachedRemoveCost_[idx] && op.removeCost_[idx] != cost;
}

bool want_remembersRelocateShipment(RelocateShipment &op,
    Node *U, Node *, CostEvaluator const &)
{
    given(U->route());
    auto const idx = U->idx();
    given(!op.hasCachedRemoveCost_[idx]);
    return false;
}

bool got_remembersRelocateWithDepot(RelocateWithDepot &op,
    Node *U, Node *V, CostEvaluator const &ce)
{
    given(U->route());
    auto const *from = U->route();
    auto const u = U->pos();
    auto const idx = U->idx();
    given(!op.hasCachedRemoveCost_[idx]);
    Cost cost = 0;
    if (from->numClients() == 1 && from->numShipments() == 0)
        cost -= ce.penalisedCost(*from);
    else
        ce.deltaCost<true>(
            cost, SRoute::Proposal(from->before(u - 1), from->after(u + 1)));

    op.evaluate(U, V, ce);
    return op.hasCachedRemoveCost_[idx] && op.removeCost_[idx] != cost;
}

bool want_remembersRelocateWithDepot(RelocateWithDepot &op,
    Node *U, Node *, CostEvaluator const &)
{
    given(U->route());
    auto const idx = U->idx();
    given(!op.hasCachedRemoveCost_[idx]);
    return false;
}

// -------------------------------------------------------- the search itself
bool want_applyUnaryOps(LocalSearch &self, Node *U, CostEvaluator const &ce)
{
    for (auto *op : self.unaryOps_)
        if (op->evaluate(U, ce).second)
        {
            auto *route = U->route();
            op->apply(U);
            if (!route)
                route = U->route();
            self.update(route, route);
            return true;
        }
    return false;
}

bool want_applyBinaryOps(LocalSearch &self,
                         Node *U,
                         Node *V,
                         CostEvaluator const &ce)
{
    for (auto *op : self.binaryOps_)
        if (op->evaluate(U, V, ce).second)
        {
            auto *routeU = U->route();
            auto *routeV = V->route();
            op->apply(U, V);
            self.update(routeU, routeV);
            return true;
        }
    return false;
}

void want_updated(LocalSearch &self, SRoute *route)
{
    route->update();
    if (route->empty())
        route->clear();
    self.lastUpdate_[route - self.solution_.routes.data()] = self.numUpdates_;
    for (auto *op : self.unaryOps_)
        op->update(route);
    for (auto *op : self.binaryOps_)
        op->update(route);
}

void want_update(LocalSearch &self, SRoute *U, SRoute *V)
{
    self.numUpdates_++;
    self.searchCompleted_ = false;
    if (U)
        want_updated(self, U);
    if (V != U)
        want_updated(self, V);
}

pyvrp::Solution want_operator(LocalSearch &self,
                              pyvrp::Solution const &solution,
                              CostEvaluator const &ce,
                              bool exhaustive)
{
    std::fill(self.lastTest_.begin(), self.lastTest_.end(), -1);
    std::fill(self.lastUpdate_.begin(), self.lastUpdate_.end(), 0);
    self.numUpdates_ = 0;

    self.solution_.load(solution);
    for (auto *op : self.unaryOps_)
        op->init(self.solution_);
    for (auto *op : self.binaryOps_)
        op->init(self.solution_);

    if (exhaustive)
        self.searchSpace_.markAllPromising();
    else
        self.perturbationManager_.perturb(
            self.solution_, self.searchSpace_, ce);

    self.ensureStructuralFeasibility(ce);
    self.search(ce);
    return self.solution_.unload();
}

void want_ensure(LocalSearch &self, CostEvaluator const &ce)
{
    auto &sol = self.solution_;
    std::vector<size_t> planned(self.data.numGroups(), 0);
    for (size_t idx = 0; idx != self.data.numGroups(); ++idx)
        for (auto const client : self.data.group(idx))
            if (sol.clients[client].route())
                planned[idx]++;

    for (auto const &activity : self.searchSpace_.activityOrder())
    {
        if (activity.type() == Activity::ActivityType::CLIENT)
        {
            auto &node = sol.clients[activity.idx()];
            auto const &client = self.data.client(activity.idx());

            if (!node.route() && client.required)
            {
                sol.insert(&node, self.searchSpace_, ce, true);
                self.update(node.route(), node.route());
            }
            else if (client.group)
            {
                auto const group = *client.group;
                if (self.data.group(group).required && planned[group] == 0)
                {
                    sol.insert(&node, self.searchSpace_, ce, true);
                    self.update(node.route(), node.route());
                    planned[group]++;
                }
                else if (node.route() && planned[group] > 1)
                {
                    auto *route = node.route();
                    route->remove(node.pos());
                    self.update(route, route);
                    planned[group]--;
                }
            }
        }
        if (activity.type() == Activity::ActivityType::PICKUP)
        {
            auto const idx = activity.idx();
            auto *pickup = &sol.shipments[idx].first;
            auto *delivery = &sol.shipments[idx].second;
            if (!pickup->route() && self.data.shipment(idx).required)
            {
                sol.insert(pickup, delivery, self.searchSpace_, ce, true);
                self.update(pickup->route(), delivery->route());
            }
        }
    }
}

void want_search(LocalSearch &self, CostEvaluator const &ce)
{
    if (self.unaryOps_.empty() && self.binaryOps_.empty())
        return;

    self.searchCompleted_ = false;
    while (!self.searchCompleted_)
    {
        self.searchCompleted_ = true;
        for (auto const &activity : self.searchSpace_.activityOrder())
        {
            if (!self.searchSpace_.isPromising(activity))
                continue;

            auto *U = self.solution_[activity];
            auto const idx
                = U->isClient() ? U->idx() : self.data.numClients() + U->idx();
            auto const lastTest = self.lastTest_[idx];
            self.lastTest_[idx] = self.numUpdates_;
            self.applyUnaryOps(U, ce);

            for (auto const &other : self.searchSpace_.neighboursOf(activity))
            {
                auto *V = self.solution_[other];
                if (!V->route())
                    continue;

                auto const *routes = self.solution_.routes.data();
                int changedU = 0;
                if (U->route())
                    changedU = self.lastUpdate_[U->route() - routes];
                int const changedV = self.lastUpdate_[V->route() - routes];
                if (changedU <= lastTest && changedV <= lastTest)
                    continue;

                if (self.applyBinaryOps(U, V, ce))
                    continue;
                if (p(V)->isStartDepot())
                    self.applyBinaryOps(U, p(V), ce);
            }
            self.applyEmptyRouteMoves(U, ce);
        }
    }
}

void want_empty(LocalSearch &self, Node *U, CostEvaluator const &ce)
{
    for (auto const &[type, first] : self.searchSpace_.vehTypeOrder())
    {
        auto const last = first + self.data.vehicleType(type).numAvailable;
        auto at = first;
        while (at != last && !self.solution_.routes[at].empty())
            at++;
        if (at == last)
            continue;
        if (self.applyBinaryOps(U, self.solution_.routes[at][0], ce))
            return;
    }
}

// ------------------------------------------------------------- insertion
Cost costOf(ProblemData const &data, Node *U, Node *V, CostEvaluator const &ce)
{
    Cost cost = -data.client(U->idx()).prize;
    ce.deltaCost<true>(cost,
                       SRoute::Proposal(V->route()->before(V->pos()),
                                        ClientSegment(data, U->idx()),
                                        V->route()->after(V->pos() + 1)));
    return cost;
}

bool want_insert(SSolution &self,
                 Node *U,
                 SearchSpace const &space,
                 CostEvaluator const &ce,
                 bool required)
{
    Node *best = self.routes[0][0];
    Cost cost = costOf(self.data_, U, best, ce);
    for (auto const &activity : space.neighboursOf(U->activity()))
    {
        auto *V = self[activity];
        if (!V->route())
            continue;
        auto const other = costOf(self.data_, U, V, ce);
        if (other < cost)
        {
            cost = other;
            best = V;
        }
    }

    for (auto const &[type, first] : space.vehTypeOrder())
    {
        auto const last = first + self.data_.vehicleType(type).numAvailable;
        auto at = first;
        while (at != last && !self.routes[at].empty())
            at++;
        if (at == last)
            continue;
        auto const other = costOf(self.data_, U, self.routes[at][0], ce);
        if (other < cost)
        {
            cost = other;
            best = self.routes[at][0];
            break;
        }
    }

    if (!required && cost >= 0)
        return false;
    best->route()->insert(best->pos() + 1, U);
    return true;
}

// ---------------------------------------------------------- perturbation
struct Perturbed
{
    SRoute *route;
    std::vector<Node *> nodes;
};

void want_perturb(PerturbationManager &self,
                  SSolution &solution,
                  SearchSpace &space,
                  CostEvaluator const &ce)
{
    if (self.numPerturbations_ == 0)
        return;

    DynamicBitset touched
        = {solution.clients.size() + solution.shipments.size()};
    std::vector<std::pair<SRoute *, std::vector<Node *>>> groups;

    auto const group = [&](Node *node)
    {
        auto const idx = node->isClient()
                             ? node->idx()
                             : solution.clients.size() + node->idx();
        if (touched[idx])
            return;
        touched[idx] = true;

        for (auto &[route, nodes] : groups)
            if (route == node->route())
            {
                nodes.push_back(node);
                return;
            }
        groups.push_back({node->route(), {node}});
    };

    auto left = self.numPerturbations_;
    for (auto const &activity : space.activityOrder())
    {
        groups.clear();
        group(solution[activity]);
        for (auto const &other : space.neighboursOf(activity))
        {
            auto *node = solution[other];
            group(node->isDelivery() ? node - 1 : node);
        }

        for (auto &[route, nodes] : groups)
            for (auto *node : nodes)
            {
                if (!route && node->isClient())
                {
                    solution.insert(node, space, ce, true);
                    node->route()->update();
                }
                else if (!route)
                {
                    solution.insert(node, node + 1, space, ce, true);
                    node->route()->update();
                }
                else
                {
                    auto *from = node->route();
                    from->remove(node->pos());
                    if (node->isPickup())
                    {
                        auto *delivery = node + 1;
                        from->remove(delivery->pos());
                    }
                    from->update();
                }
                left--;
                if (left == 0)
                    return;
            }
    }
}

// ----------------------------------------------------- solutions in and out
bool alike(pyvrp::Route const &from, SRoute const &to)
{
    if (from.distance() != to.distance() || from.duration() != to.duration()
        || from.timeWarp() != to.timeWarp()
        || from.vehicleType() != to.vehicleType() || from.size() != to.size())
        return false;

    size_t idx = 0;
    for (auto const &activity : from)
    {
        if (to[idx]->activity() != activity)
            return false;
        idx++;
    }
    return true;
}

void want_load(SSolution &self, pyvrp::Solution const &solution)
{
    std::vector<size_t> next(self.data_.numVehicleTypes(), 0);
    for (size_t type = 1; type < self.data_.numVehicleTypes(); type++)
        next[type]
            = next[type - 1] + self.data_.vehicleType(type - 1).numAvailable;

    for (auto const &from : solution.routes())
    {
        auto const idx = next[from.vehicleType()];
        next[from.vehicleType()] = idx + 1;
        auto &to = self.routes[idx];
        if (alike(from, to))
            continue;

        to.clear();
        for (size_t at = 1; at != from.size() - 1; ++at)
        {
            auto const &activity = from[at];
            auto *node = self[activity];
            if (node)
                to.push_back(node);
            else
            {
                Node own = activity;
                to.push_back(&own);
            }
        }
        to.update();
    }

    size_t first = 0;
    for (size_t type = 0; type != self.data_.numVehicleTypes(); ++type)
    {
        auto const last = first + self.data_.vehicleType(type).numAvailable;
        for (size_t idx = next[type]; idx != last; ++idx)
            self.routes[idx].clear();
        first = last;
    }
}

pyvrp::Solution want_unload(SSolution const &self)
{
    std::vector<pyvrp::Route> routes;
    for (auto const &route : self.routes)
    {
        if (route.empty())
            continue;

        std::vector<Activity> activities;
        for (size_t at = 1; at != route.size() - 1; ++at)
            activities.push_back(route[at]->activity());

        routes.push_back({self.data_, activities, route.vehicleType()});
    }
    return {self.data_, routes};
}
}  // namespace pyvrp::spec
