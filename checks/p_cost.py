"""C14: costs."""
from engine.check import Check
from engine.interp import Interp

from .common import got_want, program


def c14():
    chk = Check(
        "C14", "guarded-value equality of every penalty, of the penalised "
        "cost of routes and solutions (the user's and the search's), and of "
        "the delta cost of one and two proposals, with spec/cost.cpp")
    prog = program("cost")
    I = Interp(prog)
    got_want(chk, I, prog, "cost",
             "load tw dist excessDist route searchRoute cost".split(),
             "objective")
    J = Interp(prog, opaque=lambda f: f["qual"].endswith(
        "CostEvaluator::penalisedCost") and "Route &" in f["type"])
    got_want(chk, J, prog, "cost",
             "solution searchSolution delta delta2 saysExact shortcut "
             "shortcut2".split(), "objective")
    return chk.finish()


CHECKS = {"C14": c14}
