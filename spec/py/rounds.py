"""C26, C37: what every round of the search does and records."""
from pyvrp import IteratedLocalSearch, IteratedLocalSearchParams, PenaltyManager
from pyvrp.Statistics import _Datum
from pyvrp._pyvrp import ProblemData, Solution
from pyvrp.search.SearchMethod import SearchMethod
from pyvrp.stop.StoppingCriterion import StoppingCriterion


def got_rounds(data: ProblemData, pm: PenaltyManager, search: SearchMethod,
               init: Solution, params: IteratedLocalSearchParams,
               stop: StoppingCriterion):
    res = IteratedLocalSearch(data, pm, search, init, params).run(stop, True)
    return res.stats.data


def want_rounds(data: ProblemData, pm: PenaltyManager, search: SearchMethod,
                init: Solution, params: IteratedLocalSearchParams,
                stop: StoppingCriterion):
    data = []
    best = curr = init
    history = [None for _ in range(params.history_length)]
    pos = idle = 0
    cost_eval = pm.cost_evaluator()
    while not stop(cost_eval.cost(best)):
        if idle == params.num_iters_no_improvement:
            history = [None for _ in range(params.history_length)]
            curr = best
            pos = idle = 0
        cost_eval = pm.cost_evaluator()
        cand = search(curr, cost_eval, exhaustive=False)
        pm.register(cand)
        idle += 1
        if cost_eval.cost(cand) < cost_eval.cost(best):
            best, idle = cand, 0
            if params.exhaustive_on_best:
                cand = search(cand, cost_eval, exhaustive=True)
                if cand.is_feasible():
                    best = cand
        slot = pos % params.history_length
        late = history[slot]
        limit = cost_eval.penalised_cost(init if late is None else late)
        cost = cost_eval.penalised_cost(cand)
        if cost < limit or cost < cost_eval.penalised_cost(curr):
            curr = cand
        if late is None or cost_eval.penalised_cost(curr) < limit:
            history[slot] = curr
        pos += 1
        data.append(_Datum(
            cost_eval.penalised_cost(curr), curr.is_feasible(),
            cost_eval.penalised_cost(cand), cand.is_feasible(),
            cost_eval.penalised_cost(best), best.is_feasible()))
    return data
