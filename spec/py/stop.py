"""C24: stopping criteria, over every sequence of calls."""
import time

import numpy as np

from pyvrp.stop import (FirstFeasible, MaxIterations, MaxRuntime,
                        MultipleCriteria, NoImprovement)


def got_firstFeasible(cost):
    return FirstFeasible()(cost)


def want_firstFeasible(cost):
    return cost < np.iinfo(np.int64).max


def got_maxIterations(limit, costs):
    stop = MaxIterations(limit)
    last = False
    for cost in costs:
        last = stop(cost)
    return last


def want_maxIterations(limit, costs):
    if limit < 0:
        raise ValueError
    return len(costs) > limit if len(costs) > 0 else False


def got_noImprovement(limit, costs):
    stop = NoImprovement(limit)
    last = False
    for cost in costs:
        last = stop(cost)
    return last


def want_noImprovement(limit, costs):
    if limit < 0:
        raise ValueError
    best, calls, last = None, 0, False
    for cost in costs:
        if best is None or cost < best:
            best, calls = cost, 0
        else:
            calls += 1
        last = calls >= limit
    return last


def got_maxRuntime(limit, costs):
    stop = MaxRuntime(limit)
    last = False
    for cost in costs:
        last = stop(cost)
        time.sleep(1)
    return last


def want_maxRuntime(limit, costs):
    if limit < 0:
        raise ValueError
    start, last = None, False
    for cost in costs:
        now = time.perf_counter()
        if start is None:
            start = now
        last = now - start > limit
        time.sleep(1)
    return last


def got_multiple(criteria, cost):
    return MultipleCriteria(criteria)(cost)


def want_multiple(criteria, cost):
    if len(criteria) == 0:
        raise ValueError
    for stop in criteria:
        if stop(cost):
            return True
    return False


def got_multipleHistory(criteria, costs):
    stop = MultipleCriteria(criteria)
    last = False
    for cost in costs:
        last = stop(cost)
    return last


def want_multipleHistory(criteria, costs):
    if len(criteria) == 0:
        raise ValueError
    last = False
    for cost in costs:
        last = False
        for stop in criteria:
            if stop(cost):
                last = True
                break
    return last
