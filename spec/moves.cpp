// The moves of the local search: when each is considered, what it is worth,
// and what applying it does (C18, C19, C20, C21).
#include "search/InsertOptionalClient.h"
#include "search/InsertOptionalShipment.h"
#include "search/Relocate.h"
#include "search/RelocateAlternative.h"
#include "search/RelocateDelivery.h"
#include "search/RelocatePickup.h"
#include "search/RelocateShipment.h"
#include "search/RelocateWithDepot.h"
#include "search/RemoveAdjacentDepot.h"
#include "search/RemoveOptionalClient.h"
#include "search/RemoveOptionalShipment.h"
#include "search/ReplaceGroup.h"
#include "search/ReplaceOptionalClient.h"
#include "search/ReplaceOptionalShipment.h"
#include "search/Swap.h"
#include "search/SwapTails.h"

#include "search/ClientSegment.h"
#include "search/DeliverySegment.h"
#include "search/DepotSegment.h"
#include "search/PickupSegment.h"

#include <limits>
#include <stdexcept>
#include <utility>

namespace pyvrp::spec
{
using namespace pyvrp::search;
using SRoute = search::Route;
using Node = search::Route::Node;
using SSolution = search::Solution;

// What holds when a move is applied: evaluate saw to it.
inline void given(bool holds)
{
    if (!holds)
        throw std::invalid_argument("not a move");
}

// V is a visit, or the depot a trip starts from.
inline bool placed(Node const *V) { return V->route() && !V->isEndDepot(); }

// The count visits from U on are visits of one trip.
inline bool run(Node const *U, size_t count)
{
    auto const *route = U->route();
    if (!route || U->isDepot() || U->pos() + count >= route->size())
        return false;
    if (count > 1 && (*route)[U->pos() + 1]->isDepot())
        return false;
    return count < 3 || !(*route)[U->pos() + 2]->isDepot();
}

// V is not one of the count visits from U on, and not right before them.
inline bool apart(Node const *U, size_t count, Node const *V)
{
    return U->route() != V->route() || V->pos() + 1 < U->pos()
           || V->pos() >= U->pos() + count;
}

// The runs of visits are not in each other's way.
inline bool disjoint(Node const *U, size_t n, Node const *V, size_t m)
{
    return run(U, n) && run(V, m)
           && (U->route() != V->route() || U->pos() + n < V->pos()
               || V->pos() + m < U->pos());
}

struct Verdict
{
    bool apply;
    Cost cost;
};

struct Found
{
    bool apply;
    Cost cost;
    Node const *node;
};

struct FoundAt
{
    bool apply;
    Cost cost;
    size_t pos;
};

struct FoundDepot
{
    bool apply;
    Cost cost;
    bool depotFirst;
    size_t depot;
};

// A cost that is not improving may be incomplete, and means nothing.
Verdict verdict(std::pair<Cost, bool> res)
{
    if (!res.second)
        return {false, 0};
    return {true, res.first};
}

Verdict improving(Cost cost)
{
    if (cost >= 0)
        return {false, 0};
    return {true, cost};
}

// ------------------------------------------------------ moving N visits
template <size_t N> bool movable(Node *first)
{
    auto const &route = *first->route();
    auto const from = first->pos();
    auto const to = from + N - 1;
    if (from == 0 || to >= route.size() - 1)
        return false;
    if (first->trip() != route[to]->trip())
        return false;
    if (first->isDelivery())
        return false;

    // Everything picked up in the segment is delivered in it, and nothing is
    // on board when it starts.
    auto const loaded = first->isPickup() ? 1 : 0;
    if (route.numPickups(from) != route.numDeliveries(from) + loaded)
        return false;
    return route.numPickups(to) == route.numDeliveries(to);
}

template <size_t N>
Verdict wantRelocate(Relocate<N> &op, Node *U, Node *V, CostEvaluator const &ce)
{
    if (!U->route() || !V->route() || !movable<N>(U))
        return {false, 0};

    auto const *from = U->route();
    auto const *to = V->route();
    auto const u = U->pos();
    auto const v = V->pos();

    if (from != to)
    {
        auto const idx
            = U->isClient() ? U->idx() : op.data.numClients() + U->idx();

        Cost delta = 0;
        if (op.hasCachedRemoveCost_[idx])
            delta = op.removeCost_[idx];
        else if (from->numClients() + 2 * from->numShipments() == N)
            delta -= ce.penalisedCost(*from);
        else
            ce.deltaCost<true>(
                delta, SRoute::Proposal(from->before(u - 1), from->after(u + N)));

        ce.deltaCost(delta,
                     SRoute::Proposal(to->before(v),
                                      from->between(u, u + N - 1),
                                      to->after(v + 1)));
        return improving(delta);
    }

    if (U->trip() != V->trip() || (u <= v && v <= u + N - 1) || U == n(V))
        return {false, 0};

    Cost delta = 0;
    if (u < v)
        ce.deltaCost(delta,
                     SRoute::Proposal(from->before(u - 1),
                                      from->between(u + N, v),
                                      from->between(u, u + N - 1),
                                      from->after(v + 1)));
    else
        ce.deltaCost(delta,
                     SRoute::Proposal(from->before(v),
                                      from->between(u, u + N - 1),
                                      from->between(v + 1, u - 1),
                                      from->after(u + N)));
    return improving(delta);
}

Verdict got_relocate1(Relocate<1> &op, Node *U, Node *V, CostEvaluator const &ce)
{
    return verdict(op.evaluate(U, V, ce));
}

Verdict want_relocate1(Relocate<1> &op, Node *U, Node *V, CostEvaluator const &ce)
{
    return wantRelocate<1>(op, U, V, ce);
}

Verdict got_relocate2(Relocate<2> &op, Node *U, Node *V, CostEvaluator const &ce)
{
    return verdict(op.evaluate(U, V, ce));
}

Verdict want_relocate2(Relocate<2> &op, Node *U, Node *V, CostEvaluator const &ce)
{
    return wantRelocate<2>(op, U, V, ce);
}

Verdict got_relocate3(Relocate<3> &op, Node *U, Node *V, CostEvaluator const &ce)
{
    return verdict(op.evaluate(U, V, ce));
}

Verdict want_relocate3(Relocate<3> &op, Node *U, Node *V, CostEvaluator const &ce)
{
    return wantRelocate<3>(op, U, V, ce);
}

// The last visit of the segment goes after V first, then the ones before it.
void got_doRelocate1(Relocate<1> &op, Node *U, Node *V)
{
    given(run(U, 1) && placed(V) && apart(U, 1, V));
    op.apply(U, V);
}

void want_doRelocate1(Relocate<1> &, Node *U, Node *V)
{
    given(run(U, 1) && placed(V) && apart(U, 1, V));
    auto *from = U->route();
    auto *to = V->route();
    from->remove(U->pos());
    to->insert(V->pos() + 1, U);
}

void got_doRelocate2(Relocate<2> &op, Node *U, Node *V)
{
    given(run(U, 2) && placed(V) && apart(U, 2, V));
    op.apply(U, V);
}

void want_doRelocate2(Relocate<2> &, Node *U, Node *V)
{
    given(run(U, 2) && placed(V) && apart(U, 2, V));
    auto *from = U->route();
    auto *to = V->route();
    auto *second = (*from)[U->pos() + 1];
    auto *first = p(second);
    from->remove(second->pos());
    to->insert(V->pos() + 1, second);
    from->remove(first->pos());
    to->insert(V->pos() + 1, first);
}

void got_doRelocate3(Relocate<3> &op, Node *U, Node *V)
{
    given(run(U, 3) && placed(V) && apart(U, 3, V));
    op.apply(U, V);
}

void want_doRelocate3(Relocate<3> &, Node *U, Node *V)
{
    given(run(U, 3) && placed(V) && apart(U, 3, V));
    auto *from = U->route();
    auto *to = V->route();
    auto *third = (*from)[U->pos() + 2];
    auto *second = p(third);
    from->remove(third->pos());
    to->insert(V->pos() + 1, third);
    auto *first = p(second);
    from->remove(second->pos());
    to->insert(V->pos() + 1, second);
    from->remove(first->pos());
    to->insert(V->pos() + 1, first);
}

// ------------------------------------------------------------------ Swap
template <size_t N, size_t M>
Verdict wantSwap(Swap<N, M> &, Node *U, Node *V, CostEvaluator const &ce)
{
    if (!U->route() || !V->route() || !movable<N>(U) || !movable<M>(V))
        return {false, 0};

    auto const *ru = U->route();
    auto const *rv = V->route();
    auto const u = U->pos();
    auto const v = V->pos();

    if (N == M && U->idx() >= V->idx())
        return {false, 0};

    Cost delta = 0;
    if (ru != rv)
    {
        ce.deltaCost(delta,
                     SRoute::Proposal(ru->before(u - 1),
                                      rv->between(v, v + M - 1),
                                      ru->after(u + N)),
                     SRoute::Proposal(rv->before(v - 1),
                                      ru->between(u, u + N - 1),
                                      rv->after(v + M)));
        return improving(delta);
    }

    if (U->trip() != V->trip())
        return {false, 0};

    // The segments overlap or are adjacent.
    if (u <= v + M - 1 && v <= u + N - 1)
        return {false, 0};
    if (u + N == v || v + M == u)
        return {false, 0};

    if (u < v)
        ce.deltaCost(delta,
                     SRoute::Proposal(ru->before(u - 1),
                                      ru->between(v, v + M - 1),
                                      ru->between(u + N, v - 1),
                                      ru->between(u, u + N - 1),
                                      ru->after(v + M)));
    else
        ce.deltaCost(delta,
                     SRoute::Proposal(ru->before(v - 1),
                                      ru->between(u, u + N - 1),
                                      ru->between(v + M, u - 1),
                                      ru->between(v, v + M - 1),
                                      ru->after(u + N)));
    return improving(delta);
}

#define SWAP(N, M)                                                             \
    Verdict got_swap##N##M(                                                    \
        Swap<N, M> &op, Node *U, Node *V, CostEvaluator const &ce)             \
    {                                                                          \
        return verdict(op.evaluate(U, V, ce));                                 \
    }                                                                          \
    Verdict want_swap##N##M(                                                   \
        Swap<N, M> &op, Node *U, Node *V, CostEvaluator const &ce)             \
    {                                                                          \
        return wantSwap<N, M>(op, U, V, ce);                                   \
    }                                                                          \
    void got_doSwap##N##M(Swap<N, M> &op, Node *U, Node *V)                    \
    {                                                                          \
        given(disjoint(U, N, V, M));                                           \
        op.apply(U, V);                                                        \
    }                                                                          \
    void want_doSwap##N##M(Swap<N, M> &, Node *U, Node *V)                     \
    {                                                                          \
        given(disjoint(U, N, V, M));                                           \
        doSwap<N, M>(U, V);                                                    \
    }

template <size_t N, size_t M> void doSwap(Node *U, Node *V)
{
    auto &ru = *U->route();
    auto &rv = *V->route();

    // The last N - M visits of U's segment go after V's segment ...
    auto *last = N == 1 ? U : ru[U->pos() + N - 1];
    auto *after = rv[V->pos() + M - 1];
    if (N > M)
    {
        auto *prev = p(last);
        ru.remove(last->pos());
        rv.insert(after->pos() + 1, last);
        last = prev;
    }
    if (N > M + 1)
    {
        auto *prev = p(last);
        ru.remove(last->pos());
        rv.insert(after->pos() + 1, last);
        last = prev;
    }

    // ... and the others trade places.
    SRoute::swap(U, V);
    if (M > 1)
    {
        U = n(U);
        V = n(V);
        SRoute::swap(U, V);
    }
    if (M > 2)
    {
        U = n(U);
        V = n(V);
        SRoute::swap(U, V);
    }
}

SWAP(1, 1)
SWAP(2, 1)
SWAP(2, 2)
SWAP(3, 1)
SWAP(3, 2)
SWAP(3, 3)

// ------------------------------------------------------------- SwapTails
Verdict got_swapTails(SwapTails &op, Node *U, Node *V, CostEvaluator const &ce)
{
    return verdict(op.evaluate(U, V, ce));
}

bool carries(Node *node)
{
    return node->route()->numPickups(node->pos())
           != node->route()->numDeliveries(node->pos());
}

Verdict want_swapTails(SwapTails &, Node *U, Node *V, CostEvaluator const &ce)
{
    auto const *ru = U->route();
    auto const *rv = V->route();
    if (!ru || ru == rv)
        return {false, 0};

    // Each pair of routes is looked at once, from the lower one.
    if (ru > rv && !ru->empty() && !rv->empty())
        return {false, 0};

    if (U->trip() + 1 != ru->numTrips() || V->trip() + 1 != rv->numTrips())
        return {false, 0};
    if (carries(U) || carries(V))
        return {false, 0};

    auto const u = U->pos();
    auto const v = V->pos();
    bool const tailU = !n(U)->isEndDepot();
    bool const tailV = !n(V)->isEndDepot();

    Cost delta = 0;
    if (tailU && tailV)
        ce.deltaCost(delta,
                     SRoute::Proposal(ru->before(u),
                                      rv->between(v + 1, rv->size() - 2),
                                      ru->at(ru->size() - 1)),
                     SRoute::Proposal(rv->before(v),
                                      ru->between(u + 1, ru->size() - 2),
                                      rv->at(rv->size() - 1)));
    else if (tailU)
        ce.deltaCost(delta,
                     SRoute::Proposal(ru->before(u), ru->at(ru->size() - 1)),
                     SRoute::Proposal(rv->before(v),
                                      ru->between(u + 1, ru->size() - 2),
                                      rv->at(rv->size() - 1)));
    else if (tailV && V->isStartDepot())
    {
        delta -= ce.penalisedCost(*rv);  // V's route turns empty
        ce.deltaCost(delta,
                     SRoute::Proposal(ru->before(u),
                                      rv->between(v + 1, rv->size() - 2),
                                      ru->at(ru->size() - 1)));
    }
    else if (tailV)
        ce.deltaCost(delta,
                     SRoute::Proposal(ru->before(u),
                                      rv->between(v + 1, rv->size() - 2),
                                      ru->at(ru->size() - 1)),
                     SRoute::Proposal(rv->before(v), rv->at(rv->size() - 1)));

    return improving(delta);
}

void got_doSwapTails(SwapTails &op, Node *U, Node *V)
{
    given(placed(U) && placed(V) && U->route() != V->route()
          && U->trip() + 1 == U->route()->numTrips()
          && V->trip() + 1 == V->route()->numTrips());
    op.apply(U, V);
}

void want_doSwapTails(SwapTails &, Node *U, Node *V)
{
    given(placed(U) && placed(V) && U->route() != V->route()
          && U->trip() + 1 == U->route()->numTrips()
          && V->trip() + 1 == V->route()->numTrips());
    auto *firstU = n(U);
    auto *firstV = n(V);

    auto at = U->pos() + 1;
    while (!firstV->isEndDepot())
    {
        auto *next = n(firstV);
        V->route()->remove(firstV->pos());
        U->route()->insert(at, firstV);
        at++;
        firstV = next;
    }

    at = V->pos() + 1;
    while (!firstU->isEndDepot())
    {
        auto *next = n(firstU);
        U->route()->remove(firstU->pos());
        V->route()->insert(at, firstU);
        at++;
        firstU = next;
    }
}

// ------------------------------------------------------ optional clients
Verdict got_insertClient(InsertOptionalClient &op,
                         Node *U,
                         Node *V,
                         CostEvaluator const &ce)
{
    return verdict(op.evaluate(U, V, ce));
}

Verdict want_insertClient(InsertOptionalClient &op,
                          Node *U,
                          Node *V,
                          CostEvaluator const &ce)
{
    if (!U->isClient() || U->route() || !V->route())
        return {false, 0};

    auto const &client = op.data.client(U->idx());
    if (client.group)
    {
        auto const &group = op.data.group(*client.group);
        if (group.required)
            return {false, 0};
        for (auto const other : group)
            if (op.solution_->clients[other].route())
                return {false, 0};
    }

    auto const *route = V->route();
    Cost delta = -client.prize;
    ce.deltaCost(delta,
                 SRoute::Proposal(route->before(V->pos()),
                                  ClientSegment(op.data, U->idx()),
                                  route->after(V->pos() + 1)));
    return improving(delta);
}

void got_doInsertClient(InsertOptionalClient &op, Node *U, Node *V)
{
    given(U->isClient() && !U->route() && placed(V));
    op.apply(U, V);
}

void want_doInsertClient(InsertOptionalClient &, Node *U, Node *V)
{
    given(U->isClient() && !U->route() && placed(V));
    V->route()->insert(V->pos() + 1, U);
}

Verdict got_removeClient(RemoveOptionalClient &op,
                         Node *U,
                         CostEvaluator const &ce)
{
    return verdict(op.evaluate(U, ce));
}

Verdict want_removeClient(RemoveOptionalClient &op,
                          Node *U,
                          CostEvaluator const &ce)
{
    auto const *route = U->route();
    if (!U->isClient() || !route)
        return {false, 0};

    auto const &client = op.data.client(U->idx());
    if (client.required)
        return {false, 0};
    if (client.group && op.data.group(*client.group).required)
        return {false, 0};

    Cost delta = client.prize;
    if (route->numClients() == 1 && route->numShipments() == 0)
        delta -= ce.penalisedCost(*route);
    else
        ce.deltaCost(delta,
                     SRoute::Proposal(route->before(U->pos() - 1),
                                      route->after(U->pos() + 1)));
    return improving(delta);
}

void got_doRemoveClient(RemoveOptionalClient &op, Node *U)
{
    given(U->isClient() && U->route());
    op.apply(U);
}

void want_doRemoveClient(RemoveOptionalClient &, Node *U)
{
    given(U->isClient() && U->route());
    U->route()->remove(U->pos());
}

Verdict got_replaceClient(ReplaceOptionalClient &op,
                          Node *U,
                          Node *V,
                          CostEvaluator const &ce)
{
    return verdict(op.evaluate(U, V, ce));
}

Verdict want_replaceClient(ReplaceOptionalClient &op,
                           Node *U,
                           Node *V,
                           CostEvaluator const &ce)
{
    if (!U->isClient() || !V->isClient() || U->route() || !V->route())
        return {false, 0};

    auto const &in = op.data.client(U->idx());
    auto const &out = op.data.client(V->idx());
    if (out.required || in.group || out.group)
        return {false, 0};

    auto const *route = V->route();
    Cost delta = out.prize - in.prize;
    ce.deltaCost(delta,
                 SRoute::Proposal(route->before(V->pos() - 1),
                                  ClientSegment(op.data, U->idx()),
                                  route->after(V->pos() + 1)));
    return improving(delta);
}

void got_doReplaceClient(ReplaceOptionalClient &op, Node *U, Node *V)
{
    given(U->isClient() && !U->route() && V->isClient() && V->route());
    op.apply(U, V);
}

void want_doReplaceClient(ReplaceOptionalClient &, Node *U, Node *V)
{
    given(U->isClient() && !U->route() && V->isClient() && V->route());
    auto *route = V->route();
    auto const at = V->pos();
    route->remove(at);
    route->insert(at, U);
}

// ---------------------------------------------------------------- groups
Found got_replaceGroup(ReplaceGroup &op, Node *U, CostEvaluator const &ce)
{
    auto const res = verdict(op.evaluate(U, ce));
    return {res.apply, res.cost, res.apply ? op.V_ : nullptr};
}

Found want_replaceGroup(ReplaceGroup &op, Node *U, CostEvaluator const &ce)
{
    if (!U->isClient() || U->route())
        return {false, 0, nullptr};

    auto const &in = op.data.client(U->idx());
    if (!in.group)
        return {false, 0, nullptr};

    for (auto const member : op.data.group(*in.group))
    {
        auto *V = &op.solution_->clients[member];
        auto const *route = V->route();
        if (!route)
            continue;

        Cost delta = op.data.client(member).prize - in.prize;
        ce.deltaCost(delta,
                     SRoute::Proposal(route->before(V->pos() - 1),
                                      ClientSegment(op.data, U->idx()),
                                      route->after(V->pos() + 1)));
        if (delta >= 0)
            return {false, 0, nullptr};
        return {true, delta, V};
    }

    return {false, 0, nullptr};
}

void got_doReplaceGroup(ReplaceGroup &op, Node *U)
{
    given(U->isClient() && !U->route() && op.V_->isClient()
          && op.V_->route());
    op.apply(U);
}

void want_doReplaceGroup(ReplaceGroup &op, Node *U)
{
    given(U->isClient() && !U->route() && op.V_->isClient()
          && op.V_->route());
    auto *route = op.V_->route();
    auto const at = op.V_->pos();
    route->remove(at);
    route->insert(at, U);
}

Found got_relocateAlternative(RelocateAlternative &op,
                              Node *U,
                              Node *V,
                              CostEvaluator const &ce)
{
    auto const res = verdict(op.evaluate(U, V, ce));
    return {res.apply, res.cost, res.apply ? op.move_.alternative : nullptr};
}

Found want_relocateAlternative(RelocateAlternative &op,
                               Node *U,
                               Node *V,
                               CostEvaluator const &ce)
{
    if (!U->isClient() || !U->route() || !V->route())
        return {false, 0, nullptr};
    if (U == V || U == n(V))
        return {false, 0, nullptr};

    auto const idx = U->idx();
    auto const &out = op.data.client(idx);
    if (!out.group)
        return {false, 0, nullptr};

    auto const &group = op.data.group(*out.group);
    auto const *from = U->route();
    auto const *to = V->route();
    auto const u = U->pos();
    auto const v = V->pos();

    if (from == to && U->trip() != V->trip())
        return {false, 0, nullptr};

    if (from == to)
    {
        for (auto const member : group)
        {
            auto *alternative = &op.solution_->clients[member];
            if (alternative == U)
                continue;

            Cost delta = out.prize - op.data.client(member).prize;
            if (u < v)
                ce.deltaCost(delta,
                             SRoute::Proposal(from->before(u - 1),
                                              from->between(u + 1, v),
                                              ClientSegment(op.data, member),
                                              from->after(v + 1)));
            else
                ce.deltaCost(delta,
                             SRoute::Proposal(from->before(v),
                                              ClientSegment(op.data, member),
                                              from->between(v + 1, u - 1),
                                              from->after(u + 1)));
            if (delta < 0)
                return {true, delta, alternative};
        }
        return {false, 0, nullptr};
    }

    Cost remove = out.prize;
    if (op.hasCachedRemoveCost_[idx])
        remove = op.removeCost_[idx];
    else if (from->numClients() == 1 && from->numShipments() == 0)
        remove -= ce.penalisedCost(*from);
    else
        ce.deltaCost<true>(
            remove, SRoute::Proposal(from->before(u - 1), from->after(u + 1)));

    for (auto const member : group)
    {
        if (member == idx)
            continue;

        Cost delta = remove - op.data.client(member).prize;
        ce.deltaCost(delta,
                     SRoute::Proposal(to->before(v),
                                      ClientSegment(op.data, member),
                                      to->after(v + 1)));
        if (delta < 0)
            return {true, delta, &op.solution_->clients[member]};
    }
    return {false, 0, nullptr};
}

void got_doRelocateAlternative(RelocateAlternative &op, Node *U, Node *V)
{
    given(U->isClient() && placed(U) && placed(V) && U != V
          && n(V) != U && op.move_.alternative->isClient()
          && !op.move_.alternative->route());
    op.apply(U, V);
}

void want_doRelocateAlternative(RelocateAlternative &op, Node *U, Node *V)
{
    given(U->isClient() && placed(U) && placed(V) && U != V
          && n(V) != U && op.move_.alternative->isClient()
          && !op.move_.alternative->route());
    U->route()->remove(U->pos());
    V->route()->insert(V->pos() + 1, op.move_.alternative);
}

// ------------------------------------------------------------- shipments
FoundAt got_insertShipment(InsertOptionalShipment &op,
                           Node *U,
                           Node *V,
                           CostEvaluator const &ce)
{
    auto const res = verdict(op.evaluate(U, V, ce));
    return {res.apply, res.cost, res.apply ? op.move_.pos : 0};
}

FoundAt want_insertShipment(InsertOptionalShipment &op,
                            Node *U,
                            Node *V,
                            CostEvaluator const &ce)
{
    if (!U->isPickup() || U->route() || !V->route())
        return {false, 0, 0};

    auto const &shipment = op.data.shipment(U->idx());
    auto const &route = *V->route();
    auto const v = V->pos();

    Cost delta = -shipment.prize;
    ce.deltaCost(delta,
                 SRoute::Proposal(route.before(v),
                                  PickupSegment(op.data, U->idx()),
                                  DeliverySegment(op.data, U->idx()),
                                  route.after(v + 1)));
    if (delta < 0)
        return {true, delta, v + 1};

    for (auto const *node = n(V); !node->isDepot(); node = n(node))
    {
        Cost cost = -shipment.prize;
        ce.deltaCost(cost,
                     SRoute::Proposal(route.before(v),
                                      PickupSegment(op.data, U->idx()),
                                      route.between(v + 1, node->pos()),
                                      DeliverySegment(op.data, U->idx()),
                                      route.after(node->pos() + 1)));
        if (cost < 0)
            return {true, cost, node->pos() + 1};
    }
    return {false, 0, 0};
}

void got_doInsertShipment(InsertOptionalShipment &op, Node *U, Node *V)
{
    given(U->isPickup() && !U->route() && placed(V)
          && op.move_.pos > V->pos()
          && op.move_.pos < V->route()->size());
    op.apply(U, V);
}

void want_doInsertShipment(InsertOptionalShipment &op, Node *U, Node *V)
{
    given(U->isPickup() && !U->route() && placed(V)
          && op.move_.pos > V->pos()
          && op.move_.pos < V->route()->size());
    auto *route = V->route();
    route->insert(op.move_.pos, U + 1);
    route->insert(V->pos() + 1, U);
}

Verdict got_removeShipment(RemoveOptionalShipment &op,
                           Node *U,
                           CostEvaluator const &ce)
{
    return verdict(op.evaluate(U, ce));
}

Verdict want_removeShipment(RemoveOptionalShipment &op,
                            Node *U,
                            CostEvaluator const &ce)
{
    if (!U->isPickup() || !U->route())
        return {false, 0};

    auto const &shipment = op.data.shipment(U->idx());
    if (shipment.required)
        return {false, 0};

    auto const *delivery = U + 1;
    auto const *route = U->route();
    auto const u = U->pos();
    auto const d = delivery->pos();

    Cost delta = shipment.prize;
    if (route->numClients() == 0 && route->numShipments() == 1)
        delta -= ce.penalisedCost(*route);
    else if (n(U) == delivery)
        ce.deltaCost(delta,
                     SRoute::Proposal(route->before(u - 1),
                                      route->after(d + 1)));
    else
        ce.deltaCost(delta,
                     SRoute::Proposal(route->before(u - 1),
                                      route->between(u + 1, d - 1),
                                      route->after(d + 1)));
    return improving(delta);
}

void got_doRemoveShipment(RemoveOptionalShipment &op, Node *U)
{
    given(U->isPickup() && U->route());
    op.apply(U);
}

void want_doRemoveShipment(RemoveOptionalShipment &, Node *U)
{
    given(U->isPickup() && U->route());
    auto *route = U->route();
    auto *delivery = U + 1;
    route->remove(delivery->pos());
    route->remove(U->pos());
}

Verdict got_replaceShipment(ReplaceOptionalShipment &op,
                            Node *U,
                            Node *V,
                            CostEvaluator const &ce)
{
    return verdict(op.evaluate(U, V, ce));
}

Verdict want_replaceShipment(ReplaceOptionalShipment &op,
                             Node *U,
                             Node *V,
                             CostEvaluator const &ce)
{
    if (!U->isPickup() || U->route() || !V->route())
        return {false, 0};
    if (!V->isPickup() && !V->isDelivery())
        return {false, 0};

    auto const &in = op.data.shipment(U->idx());
    auto const &out = op.data.shipment(V->idx());
    if (out.required)
        return {false, 0};

    auto *pickup = V->isPickup() ? V : V - 1;
    auto *delivery = V->isPickup() ? V + 1 : V;
    auto const *route = V->route();

    Cost delta = out.prize - in.prize;
    if (n(pickup) == delivery)
        ce.deltaCost(delta,
                     SRoute::Proposal(route->before(pickup->pos() - 1),
                                      PickupSegment(op.data, U->idx()),
                                      DeliverySegment(op.data, U->idx()),
                                      route->after(delivery->pos() + 1)));
    else
        ce.deltaCost(delta,
                     SRoute::Proposal(route->before(pickup->pos() - 1),
                                      PickupSegment(op.data, U->idx()),
                                      route->between(pickup->pos() + 1,
                                                     delivery->pos() - 1),
                                      DeliverySegment(op.data, U->idx()),
                                      route->after(delivery->pos() + 1)));
    return improving(delta);
}

void got_doReplaceShipment(ReplaceOptionalShipment &op, Node *U, Node *V)
{
    given(U->isPickup() && !U->route() && V->route()
          && (V->isPickup() || V->isDelivery()));
    op.apply(U, V);
}

void want_doReplaceShipment(ReplaceOptionalShipment &, Node *U, Node *V)
{
    given(U->isPickup() && !U->route() && V->route()
          && (V->isPickup() || V->isDelivery()));
    SRoute::swap(V->isPickup() ? V : V - 1, U);
    SRoute::swap(V->isPickup() ? V + 1 : V, U + 1);
}

Found got_relocatePickup(RelocatePickup &op, Node *U, CostEvaluator const &ce)
{
    auto const res = verdict(op.evaluate(U, ce));
    return {res.apply, res.cost, res.apply ? op.move_.before : nullptr};
}

Found want_relocatePickup(RelocatePickup &op, Node *U, CostEvaluator const &ce)
{
    if (!U->isPickup() || !U->route())
        return {false, 0, nullptr};

    auto const *route = U->route();
    auto const u = U->pos();

    // Anywhere before its delivery in this trip.
    for (auto const *node = static_cast<Node const *>(U + 1); !node->isDepot();
         node = p(node))
    {
        if (node == U || p(node) == U)
            continue;

        auto const at = node->pos();
        Cost delta = 0;
        if (u < at)
            ce.deltaCost(delta,
                         SRoute::Proposal(route->before(u - 1),
                                          route->between(u + 1, at - 1),
                                          PickupSegment(op.data, U->idx()),
                                          route->after(at)));
        else
            ce.deltaCost(delta,
                         SRoute::Proposal(route->before(at - 1),
                                          PickupSegment(op.data, U->idx()),
                                          route->between(at, u - 1),
                                          route->after(u + 1)));
        if (delta < 0)
            return {true, delta, node};
    }
    return {false, 0, nullptr};
}

void got_doRelocatePickup(RelocatePickup &op, Node *U)
{
    given(U->isPickup() && U->route() && op.move_.before != U
          && op.move_.before->route() == U->route()
          && !op.move_.before->isStartDepot());
    op.apply(U);
}

void want_doRelocatePickup(RelocatePickup &op, Node *U)
{
    given(U->isPickup() && U->route() && op.move_.before != U
          && op.move_.before->route() == U->route()
          && !op.move_.before->isStartDepot());
    auto *route = U->route();
    route->remove(U->pos());
    route->insert(op.move_.before->pos(), U);
}

Found
got_relocateDelivery(RelocateDelivery &op, Node *U, CostEvaluator const &ce)
{
    auto const res = verdict(op.evaluate(U, ce));
    return {res.apply, res.cost, res.apply ? op.move_.after : nullptr};
}

Found
want_relocateDelivery(RelocateDelivery &op, Node *U, CostEvaluator const &ce)
{
    if (!U->isPickup() || !U->route())
        return {false, 0, nullptr};

    auto const *route = U->route();
    auto const *delivery = static_cast<Node const *>(U + 1);
    auto const d = delivery->pos();

    // Anywhere after its pickup in this trip.
    for (auto const *node = static_cast<Node const *>(U); !node->isDepot();
         node = n(node))
    {
        if (node == delivery || n(node) == delivery)
            continue;

        auto const at = node->pos();
        Cost delta = 0;
        if (d < at)
            ce.deltaCost(delta,
                         SRoute::Proposal(route->before(d - 1),
                                          route->between(d + 1, at),
                                          DeliverySegment(op.data, U->idx()),
                                          route->after(at + 1)));
        else
            ce.deltaCost(delta,
                         SRoute::Proposal(route->before(at),
                                          DeliverySegment(op.data, U->idx()),
                                          route->between(at + 1, d - 1),
                                          route->after(d + 1)));
        if (delta < 0)
            return {true, delta, node};
    }
    return {false, 0, nullptr};
}

void got_doRelocateDelivery(RelocateDelivery &op, Node *U)
{
    given(U->isPickup() && U->route() && op.move_.after != U + 1
          && op.move_.after->route() == U->route()
          && !op.move_.after->isEndDepot());
    op.apply(U);
}

void want_doRelocateDelivery(RelocateDelivery &op, Node *U)
{
    given(U->isPickup() && U->route() && op.move_.after != U + 1
          && op.move_.after->route() == U->route()
          && !op.move_.after->isEndDepot());
    auto *route = U->route();
    auto *delivery = U + 1;
    route->remove(delivery->pos());
    route->insert(op.move_.after->pos() + 1, delivery);
}

FoundAt got_relocateShipment(RelocateShipment &op,
                             Node *U,
                             Node *V,
                             CostEvaluator const &ce)
{
    auto const res = verdict(op.evaluate(U, V, ce));
    return {res.apply, res.cost, res.apply ? op.move_.pos : 0};
}

FoundAt want_relocateShipment(RelocateShipment &op,
                              Node *U,
                              Node *V,
                              CostEvaluator const &ce)
{
    if (!U->isPickup() || !U->route() || U->route() == V->route())
        return {false, 0, 0};

    auto const *delivery = U + 1;
    auto const *from = U->route();
    auto const *to = V->route();
    auto const u = U->pos();
    auto const d = delivery->pos();
    auto const v = V->pos();

    Cost remove = 0;
    if (op.hasCachedRemoveCost_[U->idx()])
        remove = op.removeCost_[U->idx()];
    else if (from->numClients() == 0 && from->numShipments() == 1)
        remove -= ce.penalisedCost(*from);
    else if (n(U) == delivery)
        ce.deltaCost<true>(
            remove, SRoute::Proposal(from->before(u - 1), from->after(d + 1)));
    else
        ce.deltaCost<true>(remove,
                           SRoute::Proposal(from->before(u - 1),
                                            from->between(u + 1, d - 1),
                                            from->after(d + 1)));

    Cost delta = remove;
    ce.deltaCost(delta,
                 SRoute::Proposal(
                     to->before(v), from->at(u), from->at(d), to->after(v + 1)));
    if (delta < 0)
        return {true, delta, v + 1};

    for (auto const *node = n(V); !node->isDepot(); node = n(node))
    {
        Cost cost = remove;
        ce.deltaCost(cost,
                     SRoute::Proposal(to->before(v),
                                      from->at(u),
                                      to->between(v + 1, node->pos()),
                                      from->at(d),
                                      to->after(node->pos() + 1)));
        if (cost < 0)
            return {true, cost, node->pos() + 1};
    }
    return {false, 0, 0};
}

void got_doRelocateShipment(RelocateShipment &op, Node *U, Node *V)
{
    given(U->isPickup() && U->route() && placed(V)
          && U->route() != V->route() && op.move_.pos > V->pos()
          && op.move_.pos < V->route()->size());
    op.apply(U, V);
}

void want_doRelocateShipment(RelocateShipment &op, Node *U, Node *V)
{
    given(U->isPickup() && U->route() && placed(V)
          && U->route() != V->route() && op.move_.pos > V->pos()
          && op.move_.pos < V->route()->size());
    auto *from = U->route();
    auto *to = V->route();
    auto *delivery = U + 1;
    from->remove(delivery->pos());
    from->remove(U->pos());
    to->insert(op.move_.pos, delivery);
    to->insert(V->pos() + 1, U);
}

// ---------------------------------------------------------------- depots
FoundDepot got_relocateWithDepot(RelocateWithDepot &op,
                                 Node *U,
                                 Node *V,
                                 CostEvaluator const &ce)
{
    auto const res = verdict(op.evaluate(U, V, ce));
    if (!res.apply)
        return {false, 0, false, 0};
    return {true,
            res.cost,
            op.move_.type == RelocateWithDepot::MoveType::DEPOT_U,
            op.move_.depot};
}

FoundDepot want_relocateWithDepot(RelocateWithDepot &op,
                                  Node *U,
                                  Node *V,
                                  CostEvaluator const &ce)
{
    auto const *from = U->route();
    auto const *to = V->route();
    if (!U->isClient() || !from || U == n(V) || to->empty())
        return {false, 0, false, 0};

    if (to->numTrips() == to->maxTrips())
        return {false, 0, false, 0};
    if (from == to && U->trip() != V->trip())
        return {false, 0, false, 0};

    auto const u = U->pos();
    auto const v = V->pos();
    if (to->numPickups(v) != to->numDeliveries(v))
        return {false, 0, false, 0};

    auto const &vehicle = op.data.vehicleType(to->vehicleType());
    FoundDepot best = {false, 0, false, 0};

    if (from == to)
    {
        if (!V->isReloadDepot())
            for (auto const depot : vehicle.reloadDepots)
            {
                Cost delta = 0;
                if (u < v)
                    ce.deltaCost(delta,
                                 SRoute::Proposal(from->before(u - 1),
                                                  from->between(u + 1, v),
                                                  DepotSegment(op.data, depot),
                                                  from->at(u),
                                                  from->after(v + 1)));
                else
                    ce.deltaCost(delta,
                                 SRoute::Proposal(from->before(v),
                                                  DepotSegment(op.data, depot),
                                                  from->at(u),
                                                  from->between(v + 1, u - 1),
                                                  from->after(u + 1)));
                if (delta < best.cost)
                    best = {true, delta, true, depot};
            }

        if (!n(V)->isReloadDepot())
            for (auto const depot : vehicle.reloadDepots)
            {
                Cost delta = 0;
                if (u < v)
                    ce.deltaCost(delta,
                                 SRoute::Proposal(from->before(u - 1),
                                                  from->between(u + 1, v),
                                                  from->at(u),
                                                  DepotSegment(op.data, depot),
                                                  from->after(v + 1)));
                else
                    ce.deltaCost(delta,
                                 SRoute::Proposal(from->before(v),
                                                  from->at(u),
                                                  DepotSegment(op.data, depot),
                                                  from->between(v + 1, u - 1),
                                                  from->after(u + 1)));
                if (delta < best.cost)
                    best = {true, delta, false, depot};
            }
        return best;
    }

    Cost remove = 0;
    if (op.hasCachedRemoveCost_[U->idx()])
        remove = op.removeCost_[U->idx()];
    else if (from->numClients() == 1 && from->numShipments() == 0)
        remove -= ce.penalisedCost(*from);
    else
        ce.deltaCost<true>(
            remove, SRoute::Proposal(from->before(u - 1), from->after(u + 1)));

    if (!V->isReloadDepot())
        for (auto const depot : vehicle.reloadDepots)
        {
            Cost delta = remove;
            ce.deltaCost(delta,
                         SRoute::Proposal(to->before(v),
                                          DepotSegment(op.data, depot),
                                          from->at(u),
                                          to->after(v + 1)));
            if (delta < best.cost)
                best = {true, delta, true, depot};
        }

    if (!n(V)->isReloadDepot())
        for (auto const depot : vehicle.reloadDepots)
        {
            Cost delta = remove;
            ce.deltaCost(delta,
                         SRoute::Proposal(to->before(v),
                                          from->at(u),
                                          DepotSegment(op.data, depot),
                                          to->after(v + 1)));
            if (delta < best.cost)
                best = {true, delta, false, depot};
        }
    return best;
}

void got_doRelocateWithDepot(RelocateWithDepot &op, Node *U, Node *V)
{
    given(U->isClient() && U->route() && placed(V) && U != V
          && n(V) != U);
    op.apply(U, V);
}

void want_doRelocateWithDepot(RelocateWithDepot &op, Node *U, Node *V)
{
    given(U->isClient() && U->route() && placed(V) && U != V
          && n(V) != U);
    auto *from = U->route();
    auto *to = V->route();
    Node depot = {Activity::ActivityType::DEPOT, op.move_.depot};

    from->remove(U->pos());
    if (op.move_.type == RelocateWithDepot::MoveType::DEPOT_U)
    {
        to->insert(V->pos() + 1, U);
        to->insert(V->pos() + 1, &depot);
    }
    else
    {
        to->insert(V->pos() + 1, U);
        to->insert(V->pos() + 2, &depot);
    }
}

struct FoundSide
{
    bool apply;
    Cost cost;
    bool next;
};

FoundSide
got_removeDepot(RemoveAdjacentDepot &op, Node *U, CostEvaluator const &ce)
{
    auto const res = verdict(op.evaluate(U, ce));
    if (!res.apply)
        return {false, 0, false};
    return {true,
            res.cost,
            op.move_ == RemoveAdjacentDepot::MoveType::REMOVE_NEXT};
}

FoundSide
want_removeDepot(RemoveAdjacentDepot &, Node *U, CostEvaluator const &ce)
{
    if (!U->route())
        return {false, 0, false};

    auto const *route = U->route();
    auto const u = U->pos();
    auto const none = std::numeric_limits<Cost>::max();
    Cost before = none;
    Cost after = none;

    if (p(U)->isReloadDepot())
    {
        before = 0;
        ce.deltaCost<true>(
            before, SRoute::Proposal(route->before(u - 2), route->after(u)));
    }

    if (n(U)->isReloadDepot())
    {
        after = 0;
        ce.deltaCost<true>(
            after, SRoute::Proposal(route->before(u), route->after(u + 2)));
    }

    if (after < before)
    {
        if (after > 0)
            return {false, 0, false};
        return {true, after, true};
    }
    if (before > 0)
        return {false, 0, false};
    return {true, before, false};
}

void got_doRemoveDepot(RemoveAdjacentDepot &op, Node *U)
{
    given(U->route() && !U->isDepot()
          && (op.move_ == RemoveAdjacentDepot::MoveType::REMOVE_PREV
                  ? p(U)->isReloadDepot()
                  : n(U)->isReloadDepot()));
    op.apply(U);
}

void want_doRemoveDepot(RemoveAdjacentDepot &op, Node *U)
{
    given(U->route() && !U->isDepot()
          && (op.move_ == RemoveAdjacentDepot::MoveType::REMOVE_PREV
                  ? p(U)->isReloadDepot()
                  : n(U)->isReloadDepot()));
    auto *route = U->route();
    if (op.move_ == RemoveAdjacentDepot::MoveType::REMOVE_PREV)
        route->remove(U->pos() - 1);
    else
        route->remove(U->pos() + 1);
}
// ------------------------------------------------ moves that are allowed
// A move is evaluated as one to apply, although it must not be.
inline bool planned(SSolution const *solution, ClientGroup const &group)
{
    for (auto const client : group)
        if (solution->clients[client].route())
            return true;
    return false;
}

inline bool member(ClientGroup const &group, size_t client)
{
    for (auto const other : group)
        if (other == client)
            return true;
    return false;
}

bool got_insertsPlanned(InsertOptionalClient &op, Node *U, Node *V, CostEvaluator const &ce)
{
    if (!op.evaluate(U, V, ce).second)
        return false;
    return !U->isClient() || U->route() || !V->route();
}

bool want_insertsPlanned(InsertOptionalClient &, Node *, Node *, CostEvaluator const &)
{
    return false;
}

bool got_insertsSecond(InsertOptionalClient &op, Node *U, Node *V, CostEvaluator const &ce)
{
    given(U->isClient());
    auto const &client = op.data.client(U->idx());
    if (!op.evaluate(U, V, ce).second)
        return false;
    return client.group && planned(op.solution_, op.data.group(*client.group));
}

bool want_insertsSecond(InsertOptionalClient &, Node *, Node *, CostEvaluator const &)
{
    return false;
}

bool got_removesRequired(RemoveOptionalClient &op, Node *U, CostEvaluator const &ce)
{
    given(U->isClient());
    auto const &client = op.data.client(U->idx());
    if (!op.evaluate(U, ce).second)
        return false;
    return client.required
           || (client.group && op.data.group(*client.group).required);
}

bool want_removesRequired(RemoveOptionalClient &, Node *, CostEvaluator const &)
{
    return false;
}

bool got_removesUnplanned(RemoveOptionalClient &op, Node *U, CostEvaluator const &ce)
{
    if (!op.evaluate(U, ce).second)
        return false;
    return !U->isClient() || !U->route();
}

bool want_removesUnplanned(RemoveOptionalClient &, Node *, CostEvaluator const &)
{
    return false;
}

bool got_replacesRequired(ReplaceOptionalClient &op, Node *U, Node *V, CostEvaluator const &ce)
{
    given(V->isClient());
    if (!op.evaluate(U, V, ce).second)
        return false;
    return op.data.client(V->idx()).required;
}

bool want_replacesRequired(ReplaceOptionalClient &, Node *, Node *, CostEvaluator const &)
{
    return false;
}

bool got_replacesByPlanned(ReplaceOptionalClient &op, Node *U, Node *V, CostEvaluator const &ce)
{
    if (!op.evaluate(U, V, ce).second)
        return false;
    return !U->isClient() || !V->isClient() || U->route() || !V->route();
}

bool want_replacesByPlanned(ReplaceOptionalClient &, Node *, Node *, CostEvaluator const &)
{
    return false;
}

bool got_replacesGrouped(ReplaceOptionalClient &op, Node *U, Node *V, CostEvaluator const &ce)
{
    given(U->isClient() && V->isClient());
    auto const &in = op.data.client(U->idx());
    auto const &out = op.data.client(V->idx());
    if (!op.evaluate(U, V, ce).second)
        return false;
    return (in.group && in.group != out.group)
           || (out.group && in.group != out.group
               && op.data.group(*out.group).required);
}

bool want_replacesGrouped(ReplaceOptionalClient &, Node *, Node *, CostEvaluator const &)
{
    return false;
}

bool got_swapsPlanned(ReplaceGroup &op, Node *U, CostEvaluator const &ce)
{
    if (!op.evaluate(U, ce).second)
        return false;
    return !U->isClient() || U->route() || !op.V_->route();
}

bool want_swapsPlanned(ReplaceGroup &, Node *, CostEvaluator const &)
{
    return false;
}

bool got_swapsOutsideGroup(ReplaceGroup &op, Node *U, CostEvaluator const &ce)
{
    given(U->isClient());
    auto const &client = op.data.client(U->idx());
    if (!op.evaluate(U, ce).second)
        return false;
    return !client.group || !member(op.data.group(*client.group), op.V_->idx());
}

bool want_swapsOutsideGroup(ReplaceGroup &, Node *, CostEvaluator const &)
{
    return false;
}

bool got_relocatesUnplanned(RelocateAlternative &op, Node *U, Node *V, CostEvaluator const &ce)
{
    if (!op.evaluate(U, V, ce).second)
        return false;
    return !U->isClient() || !U->route() || !V->route()
           || op.move_.alternative == U || U == V;
}

bool want_relocatesUnplanned(RelocateAlternative &, Node *, Node *, CostEvaluator const &)
{
    return false;
}

bool got_relocatesOutsideGroup(RelocateAlternative &op, Node *U, Node *V, CostEvaluator const &ce)
{
    given(U->isClient());
    auto const &client = op.data.client(U->idx());
    if (!op.evaluate(U, V, ce).second)
        return false;
    return !client.group
           || !member(op.data.group(*client.group),
                      op.move_.alternative->idx());
}

bool want_relocatesOutsideGroup(RelocateAlternative &, Node *, Node *, CostEvaluator const &)
{
    return false;
}

bool got_insertsPlannedShipment(InsertOptionalShipment &op, Node *U, Node *V, CostEvaluator const &ce)
{
    if (!op.evaluate(U, V, ce).second)
        return false;
    return !U->isPickup() || U->route() || !V->route();
}

bool want_insertsPlannedShipment(InsertOptionalShipment &, Node *, Node *, CostEvaluator const &)
{
    return false;
}

bool got_removesRequiredShipment(RemoveOptionalShipment &op, Node *U, CostEvaluator const &ce)
{
    if (!op.evaluate(U, ce).second)
        return false;
    return !U->isPickup() || !U->route()
           || op.data.shipment(U->idx()).required;
}

bool want_removesRequiredShipment(RemoveOptionalShipment &, Node *, CostEvaluator const &)
{
    return false;
}

bool got_replacesRequiredShipment(ReplaceOptionalShipment &op, Node *U, Node *V, CostEvaluator const &ce)
{
    given(V->isPickup() || V->isDelivery());
    if (!op.evaluate(U, V, ce).second)
        return false;
    return op.data.shipment(V->idx()).required;
}

bool want_replacesRequiredShipment(ReplaceOptionalShipment &, Node *, Node *, CostEvaluator const &)
{
    return false;
}

bool got_replacesByPlannedShipment(ReplaceOptionalShipment &op, Node *U, Node *V, CostEvaluator const &ce)
{
    if (!op.evaluate(U, V, ce).second)
        return false;
    return !U->isPickup() || U->route() || !V->route()
           || !(V->isPickup() || V->isDelivery());
}

bool want_replacesByPlannedShipment(ReplaceOptionalShipment &, Node *, Node *, CostEvaluator const &)
{
    return false;
}

// A run of visits of one trip that holds both visits of each shipment in it.
inline bool whole(Node const *U, size_t count)
{
    auto const *route = U->route();
    if (!route || U->pos() == 0 || U->pos() + count >= route->size())
        return false;
    auto const last = U->pos() + count - 1;
    if ((*route)[last]->trip() != U->trip() || U->isDelivery())
        return false;
    auto const loaded = U->isPickup() ? 1 : 0;
    return route->numPickups(U->pos())
               == route->numDeliveries(U->pos()) + loaded
           && route->numPickups(last) == route->numDeliveries(last);
}

// The visits that follow V in its trip, and nothing else, end the route.
inline bool inLastTrip(Node const *V)
{
    return V->trip() + 1 == V->route()->numTrips();
}

bool got_splitsByRelocate1(Relocate<1> &op, Node *U, Node *V, CostEvaluator const &ce)
{
    if (!op.evaluate(U, V, ce).second)
        return false;
    return !whole(U, 1);
}

bool want_splitsByRelocate1(Relocate<1> &, Node *, Node *, CostEvaluator const &)
{
    return false;
}

bool got_splitsByRelocate2(Relocate<2> &op, Node *U, Node *V, CostEvaluator const &ce)
{
    if (!op.evaluate(U, V, ce).second)
        return false;
    return !whole(U, 2);
}

bool want_splitsByRelocate2(Relocate<2> &, Node *, Node *, CostEvaluator const &)
{
    return false;
}

bool got_splitsByRelocate3(Relocate<3> &op, Node *U, Node *V, CostEvaluator const &ce)
{
    if (!op.evaluate(U, V, ce).second)
        return false;
    return !whole(U, 3);
}

bool want_splitsByRelocate3(Relocate<3> &, Node *, Node *, CostEvaluator const &)
{
    return false;
}

bool got_splitsBySwap11(Swap<1, 1> &op, Node *U, Node *V, CostEvaluator const &ce)
{
    if (!op.evaluate(U, V, ce).second)
        return false;
    return !whole(U, 1) || !whole(V, 1);
}

bool want_splitsBySwap11(Swap<1, 1> &, Node *, Node *, CostEvaluator const &)
{
    return false;
}

bool got_splitsBySwap21(Swap<2, 1> &op, Node *U, Node *V, CostEvaluator const &ce)
{
    if (!op.evaluate(U, V, ce).second)
        return false;
    return !whole(U, 2) || !whole(V, 1);
}

bool want_splitsBySwap21(Swap<2, 1> &, Node *, Node *, CostEvaluator const &)
{
    return false;
}

bool got_splitsBySwap22(Swap<2, 2> &op, Node *U, Node *V, CostEvaluator const &ce)
{
    if (!op.evaluate(U, V, ce).second)
        return false;
    return !whole(U, 2) || !whole(V, 2);
}

bool want_splitsBySwap22(Swap<2, 2> &, Node *, Node *, CostEvaluator const &)
{
    return false;
}

bool got_splitsBySwap31(Swap<3, 1> &op, Node *U, Node *V, CostEvaluator const &ce)
{
    if (!op.evaluate(U, V, ce).second)
        return false;
    return !whole(U, 3) || !whole(V, 1);
}

bool want_splitsBySwap31(Swap<3, 1> &, Node *, Node *, CostEvaluator const &)
{
    return false;
}

bool got_splitsBySwap32(Swap<3, 2> &op, Node *U, Node *V, CostEvaluator const &ce)
{
    if (!op.evaluate(U, V, ce).second)
        return false;
    return !whole(U, 3) || !whole(V, 2);
}

bool want_splitsBySwap32(Swap<3, 2> &, Node *, Node *, CostEvaluator const &)
{
    return false;
}

bool got_splitsBySwap33(Swap<3, 3> &op, Node *U, Node *V, CostEvaluator const &ce)
{
    if (!op.evaluate(U, V, ce).second)
        return false;
    return !whole(U, 3) || !whole(V, 3);
}

bool want_splitsBySwap33(Swap<3, 3> &, Node *, Node *, CostEvaluator const &)
{
    return false;
}

bool got_splitsByTails(SwapTails &op, Node *U, Node *V, CostEvaluator const &ce)
{
    given(U->route() && V->route());
    if (!op.evaluate(U, V, ce).second)
        return false;
    return carries(U) || carries(V);
}

bool want_splitsByTails(SwapTails &, Node *, Node *, CostEvaluator const &)
{
    return false;
}

bool got_swapsTrips(SwapTails &op, Node *U, Node *V, CostEvaluator const &ce)
{
    given(U->route() && V->route());
    if (!op.evaluate(U, V, ce).second)
        return false;
    return !inLastTrip(U) || !inLastTrip(V) || U->route() == V->route();
}

bool want_swapsTrips(SwapTails &, Node *, Node *, CostEvaluator const &)
{
    return false;
}

bool got_tooManyTrips(RelocateWithDepot &op, Node *U, Node *V, CostEvaluator const &ce)
{
    given(V->route());
    if (!op.evaluate(U, V, ce).second)
        return false;
    return V->route()->numTrips() == V->route()->maxTrips();
}

bool want_tooManyTrips(RelocateWithDepot &, Node *, Node *, CostEvaluator const &)
{
    return false;
}

bool got_splitsByDepot(RelocateWithDepot &op, Node *U, Node *V, CostEvaluator const &ce)
{
    given(V->route());
    if (!op.evaluate(U, V, ce).second)
        return false;
    return carries(V) || !U->isClient() || !U->route();
}

bool want_splitsByDepot(RelocateWithDepot &, Node *, Node *, CostEvaluator const &)
{
    return false;
}

bool got_insertsAcrossTrips(InsertOptionalShipment &op, Node *U, Node *V, CostEvaluator const &ce)
{
    given(placed(V));
    if (!op.evaluate(U, V, ce).second)
        return false;
    return op.move_.pos <= V->pos()
           || (*V->route())[op.move_.pos - 1]->trip() != V->trip();
}

bool want_insertsAcrossTrips(InsertOptionalShipment &, Node *, Node *, CostEvaluator const &)
{
    return false;
}

bool got_movesAcrossTrips(RelocateShipment &op, Node *U, Node *V, CostEvaluator const &ce)
{
    given(U->route() && placed(V));
    if (!op.evaluate(U, V, ce).second)
        return false;
    return !U->isPickup() || op.move_.pos <= V->pos()
           || (*V->route())[op.move_.pos - 1]->trip() != V->trip();
}

bool want_movesAcrossTrips(RelocateShipment &, Node *, Node *, CostEvaluator const &)
{
    return false;
}

bool got_movesPickup(RelocatePickup &op, Node *U, CostEvaluator const &ce)
{
    given(U->route());
    if (!op.evaluate(U, ce).second)
        return false;
    return !U->isPickup() || op.move_.before->route() != U->route()
           || op.move_.before->pos() > (U + 1)->pos()
           || op.move_.before->pos() == 0
           || p(op.move_.before)->trip() != U->trip();
}

bool want_movesPickup(RelocatePickup &, Node *, CostEvaluator const &)
{
    return false;
}

bool got_movesDelivery(RelocateDelivery &op, Node *U, CostEvaluator const &ce)
{
    given(U->route());
    if (!op.evaluate(U, ce).second)
        return false;
    return !U->isPickup() || op.move_.after->route() != U->route()
           || op.move_.after->pos() < U->pos()
           || op.move_.after->trip() != U->trip();
}

bool want_movesDelivery(RelocateDelivery &, Node *, CostEvaluator const &)
{
    return false;
}

bool got_removesNoReload(RemoveAdjacentDepot &op, Node *U, CostEvaluator const &ce)
{
    given(U->route() && !U->isDepot());
    if (!op.evaluate(U, ce).second)
        return false;
    return op.move_ == RemoveAdjacentDepot::MoveType::REMOVE_PREV
               ? !p(U)->isReloadDepot()
               : !n(U)->isReloadDepot();
}

bool want_removesNoReload(RemoveAdjacentDepot &, Node *, CostEvaluator const &)
{
    return false;
}

}  // namespace pyvrp::spec
