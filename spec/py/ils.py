"""C23, C24: a run of the iterated local search, whatever the search returns.

The solutions the search method returns are arbitrary: which solution each
search starts from is left open (it is the acceptance criterion's business)."""
import math
import time

from pyvrp import IteratedLocalSearch, IteratedLocalSearchParams, PenaltyManager
from pyvrp.Result import Result
from pyvrp._pyvrp import CostEvaluator, ProblemData, Solution
from pyvrp.search.SearchMethod import SearchMethod
from pyvrp.stop.StoppingCriterion import StoppingCriterion


def got_best(data: ProblemData, pm: PenaltyManager, search: SearchMethod,
             init: Solution, params: IteratedLocalSearchParams,
             stop: StoppingCriterion):
    algo = IteratedLocalSearch(data, pm, search, init, params)
    res = algo.run(stop, False, False)
    return [res.best, res.num_iterations]


def want_best(data: ProblemData, pm: PenaltyManager, search: SearchMethod,
              init: Solution, params: IteratedLocalSearchParams,
              stop: StoppingCriterion):
    best, rounds = init, 0
    cost_eval = pm.cost_evaluator()
    while not stop(cost_eval.cost(best)):
        rounds += 1
        cost_eval = pm.cost_evaluator()
        cand = search(best, cost_eval, exhaustive=False)
        pm.register(cand)
        if cost_eval.cost(cand) < cost_eval.cost(best):
            best = cand
            if params.exhaustive_on_best:
                better = search(cand, cost_eval, exhaustive=True)
                if better.is_feasible():
                    best = better
    return [best, rounds]


def got_runtime(data: ProblemData, pm: PenaltyManager, search: SearchMethod,
                init: Solution, params: IteratedLocalSearchParams,
                stop: StoppingCriterion):
    algo = IteratedLocalSearch(data, pm, search, init, params)
    return algo.run(stop, False, False).runtime


def want_runtime(data: ProblemData, pm: PenaltyManager, search: SearchMethod,
                 init: Solution, params: IteratedLocalSearchParams,
                 stop: StoppingCriterion):
    start = time.perf_counter()
    want_best(data, pm, search, init, params, stop)
    return time.perf_counter() - start


def got_result(best: Solution, stats, iters, runtime):
    res = Result(best, stats, iters, runtime)
    return [res.best, res.stats, res.num_iterations, res.runtime,
            res.is_feasible()]


def want_result(best: Solution, stats, iters, runtime):
    if iters < 0 or runtime < 0:
        raise ValueError
    return [best, stats, iters, runtime, best.is_feasible()]


def got_cost(best: Solution, stats, iters, runtime):
    return Result(best, stats, iters, runtime).cost()


def want_cost(best: Solution, stats, iters, runtime):
    if iters < 0 or runtime < 0:
        raise ValueError
    if not best.is_feasible():
        return math.inf
    return CostEvaluator([0 for _ in best.excess_load()], 0, 0).cost(best)


def got_params(no_improvement, length, exhaustive, callbacks):
    p = IteratedLocalSearchParams(
        num_iters_no_improvement=no_improvement, history_length=length,
        exhaustive_on_best=exhaustive, callbacks=callbacks)
    return [p.num_iters_no_improvement, p.history_length,
            p.exhaustive_on_best]


def want_params(no_improvement, length, exhaustive, callbacks):
    if no_improvement < 0 or length <= 0:
        raise ValueError
    return [no_improvement, length, exhaustive]
