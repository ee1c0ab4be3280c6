"""C25: penalties over every history of registered solutions."""
from pyvrp import PenaltyManager, PenaltyParams
from pyvrp._pyvrp import CostEvaluator, ProblemData, Solution


class Limits:
    """Parameters that a penalty manager accepts."""

    def __init__(self, n, up, down, target, tol, low, high):
        if n < 1 or up < 1:
            raise ValueError
        if down < 0 or down > 1 or target < 0 or target > 1:
            raise ValueError
        if tol < 0 or tol > 1 or low < 0 or high < low:
            raise ValueError
        self.solutions_between_updates = n
        self.penalty_increase, self.penalty_decrease = up, down
        self.target_feasible, self.feas_tolerance = target, tol
        self.min_penalty, self.max_penalty = low, high


class Outcome:
    """What the penalty manager looks at in a solution with two loads."""

    def __init__(self, sol):
        self.sol = sol

    def excess_load(self):
        return [self.sol.load0, self.sol.load1]

    def time_warp(self):
        return self.sol.warp

    def excess_distance(self):
        return self.sol.dist


def clip(x, params):
    if x < params.min_penalty:
        return params.min_penalty
    if x > params.max_penalty:
        return params.max_penalty
    return x


def after_updates(first, violations, params):
    """One penalty after a sequence of violations of its own constraint."""
    penalty = clip(first, params)
    seen = feasible = 0
    for violation in violations:
        seen += 1
        if violation == 0:
            feasible += 1
        if seen == params.solutions_between_updates:
            short = params.target_feasible - feasible / seen
            if short >= params.feas_tolerance and short > 0:
                penalty = clip(params.penalty_increase * penalty, params)
            elif -short >= params.feas_tolerance:
                penalty = clip(params.penalty_decrease * penalty, params)
            seen = feasible = 0
    return penalty


def got_history(n, up, down, target, tol, low, high,
            a, b, c, d, sols):
    params = PenaltyParams(n, up, down, target, tol, low, high)
    pm = PenaltyManager(([a, b], c, d), params)
    for sol in sols:
        pm.register(Outcome(sol))
    loads, warp, dist = pm.penalties()
    return [loads[0], loads[1], len(loads), warp, dist]


def want_history(n, up, down, target, tol, low, high,
            a, b, c, d, sols):
    params = Limits(n, up, down, target, tol, low, high)
    return [after_updates(a, [s.load0 for s in sols], params),
            after_updates(b, [s.load1 for s in sols], params), 2,
            after_updates(c, [s.warp for s in sols], params),
            after_updates(d, [s.dist for s in sols], params)]


def got_initial(n, up, down, target, tol, low, high,
            loads, warp, dist):
    params = PenaltyParams(n, up, down, target, tol, low, high)
    pm = PenaltyManager((loads, warp, dist), params)
    got = pm.penalties()
    return [got[0], got[1], got[2]]


def want_initial(n, up, down, target, tol, low, high,
            loads, warp, dist):
    params = Limits(n, up, down, target, tol, low, high)
    return [[clip(x, params) for x in loads], clip(warp, params),
            clip(dist, params)]


def got_evaluator(n, up, down, target, tol, low, high,
            loads, warp, dist):
    params = PenaltyParams(n, up, down, target, tol, low, high)
    return PenaltyManager((loads, warp, dist), params).cost_evaluator()


def want_evaluator(n, up, down, target, tol, low, high,
            loads, warp, dist):
    params = Limits(n, up, down, target, tol, low, high)
    return CostEvaluator([clip(x, params) for x in loads], clip(warp, params),
                         clip(dist, params))


def got_maxEvaluator(n, up, down, target, tol, low, high,
            loads, warp, dist):
    params = PenaltyParams(n, up, down, target, tol, low, high)
    return PenaltyManager((loads, warp, dist), params).max_cost_evaluator()


def want_maxEvaluator(n, up, down, target, tol, low, high,
            loads, warp, dist):
    params = Limits(n, up, down, target, tol, low, high)
    top = params.max_penalty
    return CostEvaluator([top for _ in loads], top, top)


def got_midpoint(n, up, down, target, tol, low, high, data: ProblemData):
    p = PenaltyParams(n, up, down, target, tol, low, high)
    loads, warp, dist = p.midpoint_penalties(data)
    return [loads, warp, dist]


def want_midpoint(n, up, down, target, tol, low, high, data: ProblemData):
    Limits(n, up, down, target, tol, low, high)
    mid = (low + high) / 2
    return [[mid for _ in range(data.num_load_dimensions)], mid, mid]


def got_params(n, up, down, target, tol, low, high):
    p = PenaltyParams(
        solutions_between_updates=n, penalty_increase=up,
        penalty_decrease=down, target_feasible=target, feas_tolerance=tol,
        min_penalty=low, max_penalty=high)
    return [p.solutions_between_updates, p.penalty_increase,
            p.penalty_decrease, p.target_feasible, p.feas_tolerance,
            p.min_penalty, p.max_penalty]


def want_params(n, up, down, target, tol, low, high):
    Limits(n, up, down, target, tol, low, high)
    return [n, up, down, target, tol, low, high]
