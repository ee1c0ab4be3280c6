"""C28: every option reaches the component it configures."""
import argparse
import tomllib

import pyvrp.search
from pyvrp import (
    IteratedLocalSearch,
    IteratedLocalSearchParams,
    Model,
    PenaltyManager,
    PenaltyParams,
    SolveParams,
    solve,
)
from pyvrp._pyvrp import (
    CostEvaluator,
    ProblemData,
    RandomNumberGenerator,
    Solution,
)
from pyvrp.constants import MAX_VALUE
from pyvrp.cli import _solve, write_solution
from pyvrp.read import read
from pyvrp.search import (
    OPERATORS,
    LocalSearch,
    NeighbourhoodParams,
    PerturbationManager,
    PerturbationParams,
    compute_neighbours,
)
from pyvrp.search._search import LocalSearch as _LocalSearch
from pyvrp.search._search import compute_neighbours as _compute_neighbours
from pyvrp.stop import (
    MaxIterations,
    MaxRuntime,
    MultipleCriteria,
    NoImprovement,
    StoppingCriterion,
)


def got_solve(data: ProblemData, stop: StoppingCriterion, seed, collect,
              display, params: SolveParams, init: Solution):
    return solve(data, stop, seed, collect, display, params, init)


def want_solve(data: ProblemData, stop: StoppingCriterion, seed, collect,
               display, params: SolveParams, init: Solution):
    rng = RandomNumberGenerator(seed)
    ls = LocalSearch(data, rng, compute_neighbours(data, params.neighbourhood),
                     PerturbationManager(params.perturbation))
    for op in params.operators:
        if op.supports(data):
            ls.add_operator(op(data))
    pm = PenaltyManager(params.penalty.midpoint_penalties(data),
                        params.penalty)
    start = init
    if init is None:
        start = ls(Solution.make_random(data, rng), pm.max_cost_evaluator(),
                   exhaustive=True)
    algo = IteratedLocalSearch(data, pm, ls, start, params.ils)
    return algo.run(stop, collect, display, params.display_interval)


def got_solveDefaults(data: ProblemData, stop: StoppingCriterion):
    return solve(data, stop)


def want_solveDefaults(data: ProblemData, stop: StoppingCriterion):
    return solve(data, stop, 0, True, False, SolveParams(), None)


def got_params(ils, penalty, neighbourhood, operators, interval, perturbation):
    p = SolveParams(ils, penalty, neighbourhood, operators, interval,
                    perturbation)
    q = SolveParams(ils=ils, penalty=penalty, neighbourhood=neighbourhood,
                    operators=operators, display_interval=interval,
                    perturbation=perturbation)
    return [p.ils, p.penalty, p.neighbourhood, p.operators,
            p.display_interval, p.perturbation,
            q.ils, q.penalty, q.neighbourhood, q.operators,
            q.display_interval, q.perturbation]


def want_params(ils, penalty, neighbourhood, operators, interval,
                perturbation):
    return [ils, penalty, neighbourhood, operators, interval, perturbation,
            ils, penalty, neighbourhood, operators, interval, perturbation]


def got_paramsEqual(a, b, c, d, e, f, g, h, i, j, k, l):
    return SolveParams(a, b, c, d, e, f) == SolveParams(g, h, i, j, k, l)


def want_paramsEqual(a, b, c, d, e, f, g, h, i, j, k, l):
    return (a == g and b == h and c == i and d == j and e == k and f == l)


def got_paramsDefaults():
    p = SolveParams()
    return [p.ils, p.penalty, p.neighbourhood, p.operators,
            p.display_interval, p.perturbation]


def want_paramsDefaults():
    return [IteratedLocalSearchParams(), PenaltyParams(),
            NeighbourhoodParams(), OPERATORS, 5.0, PerturbationParams()]


def got_file(loc):
    p = SolveParams.from_file(loc)
    return [p.ils, p.penalty, p.neighbourhood, p.operators,
            p.display_interval, p.perturbation]


def want_file(loc):
    with open(loc, "rb") as fh:
        toml = tomllib.load(fh)
    operators = OPERATORS
    if "operators" in toml:
        operators = [getattr(pyvrp.search, op) for op in toml["operators"]]
    return [IteratedLocalSearchParams(**toml.get("ils", {})),
            PenaltyParams(**toml.get("penalty", {})),
            NeighbourhoodParams(**toml.get("neighbourhood", {})),
            operators, toml.get("display_interval", 5.0),
            PerturbationParams(**toml.get("perturbation", {}))]


def got_model(stop: StoppingCriterion, seed, collect, display,
              params: SolveParams, missing, init: Solution):
    m = Model()
    return m.solve(stop, seed, collect, display, params, missing, init)


def want_model(stop: StoppingCriterion, seed, collect, display,
               params: SolveParams, missing, init: Solution):
    m = Model()
    return solve(m.data(missing), stop, seed, collect, display, params, init)


def got_modelDefaults(stop: StoppingCriterion):
    m = Model()
    return m.solve(stop)


def want_modelDefaults(stop: StoppingCriterion):
    m = Model()
    return solve(m.data(MAX_VALUE), stop, 0, True, True, SolveParams(), None)


def got_search(data: ProblemData, rng: RandomNumberGenerator, neighbours,
               perturbation: PerturbationManager, ops, sol: Solution,
               cost_eval: CostEvaluator, exhaustive):
    ls = LocalSearch(data, rng, neighbours, perturbation)
    for op in ops:
        ls.add_operator(op)
    first = ls(sol, cost_eval, exhaustive)
    return [first, ls(first, cost_eval), ls.neighbours, ls.unary_operators,
            ls.binary_operators, ls.statistics]


def want_search(data: ProblemData, rng: RandomNumberGenerator, neighbours,
                perturbation: PerturbationManager, ops, sol: Solution,
                cost_eval: CostEvaluator, exhaustive):
    ls = _LocalSearch(data, neighbours, perturbation)
    for op in ops:
        ls.add_operator(op)
    ls.shuffle(rng)
    first = ls(sol, cost_eval, exhaustive)
    ls.shuffle(rng)
    second = ls(first, cost_eval, False)
    return [first, second, ls.neighbours, ls.unary_operators,
            ls.binary_operators, ls.statistics]


def got_replaced(data: ProblemData, rng: RandomNumberGenerator, neighbours,
                 again):
    ls = LocalSearch(data, rng, neighbours)
    ls.neighbours = again
    return ls.neighbours


def want_replaced(data: ProblemData, rng: RandomNumberGenerator, neighbours,
                  again):
    ls = _LocalSearch(data, neighbours, PerturbationManager())
    ls.neighbours = again
    return ls.neighbours


def got_neighbours(data: ProblemData, params: NeighbourhoodParams):
    return [compute_neighbours(data, params), compute_neighbours(data)]


def want_neighbours(data: ProblemData, params: NeighbourhoodParams):
    return [_compute_neighbours(data, params),
            _compute_neighbours(data, NeighbourhoodParams())]


def got_command(where, round_func, seed, max_runtime, max_iterations,
                no_improvement, per_client, stats_dir, sol_dir, config):
    return _solve(where, round_func, seed, max_runtime, max_iterations,
                  no_improvement, per_client, stats_dir, sol_dir,
                  config_loc=config)


def want_command(where, round_func, seed, max_runtime, max_iterations,
                 no_improvement, per_client, stats_dir, sol_dir, config):
    params = SolveParams.from_file(config) if config else SolveParams()
    data = read(where, round_func)
    scale = data.num_clients if per_client else 1
    stop = MultipleCriteria([MaxRuntime(max_runtime * scale),
                             MaxIterations(max_iterations * scale),
                             NoImprovement(no_improvement * scale)])
    res = solve(data, stop, seed, bool(stats_dir), False, params, None)
    name = where.stem
    if stats_dir:
        stats_dir.mkdir(parents=True, exist_ok=True)
        res.stats.to_csv(stats_dir / (name + ".csv"))
    if sol_dir:
        sol_dir.mkdir(parents=True, exist_ok=True)
        write_solution(sol_dir / (name + ".sol"), data, res)
    return (name, "Y" if res.is_feasible() else "N", round(res.cost(), 2),
            res.num_iterations, round(res.runtime, 3))
