"""C11, C12, C13: solutions."""
from engine.check import Check
from engine.interp import Interp

from .common import got_want, program, spec_table

S, R = "pyvrp::Solution::", "pyvrp::Route::"


def c11():
    chk = Check(
        "C11", "guarded-value equality of Solution's construction (exceptions, "
        "unplanned list, missing counts, routes) with spec/solution.cpp")
    prog = program("solution")
    I = Interp(prog)
    got_want(chk, I, prog, "solution", ["parts"], "solution-construction",
             split=True)
    return chk.finish()


def c12():
    chk = Check(
        "C12", "guarded-value equality of every Solution statistic with the "
        "sum over its routes written in spec/solution.cpp")
    prog = program("solution")
    I = Interp(prog)
    got_want(chk, I, prog, "solution", ["totals"], "solution-totals",
             split=True, throws=False)
    return chk.finish()


def c13():
    chk = Check(
        "C13", "guarded-value equality of every feasibility flag with the "
        "quantities it is documented to stand for (spec/solution.cpp)")
    prog = program("solution")
    I = Interp(prog)
    rows = [(S + n, None, "want_sol_" + n) for n in
            "isComplete hasExcessLoad hasExcessDistance hasTimeWarp "
            "isFeasible empty".split()]
    rows += [(R + n, None, "want_route_" + n) for n in
             "hasExcessLoad hasExcessDistance hasTimeWarp isFeasible "
             "empty".split()]
    spec_table(chk, I, prog, "solution", rows, "feasibility-flags")
    return chk.finish()


CHECKS = {"C11": c11, "C12": c12, "C13": c13}
