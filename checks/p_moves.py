"""C18-C22: the local search, its moves and its solutions."""
from engine.check import Check
from engine.interp import Interp
from engine.speccmp import compare

from .common import parallel, pick, program
from .world import WorldModel

S = "pyvrp::search::"
CE = "pyvrp::CostEvaluator::"
L = S + "LocalSearch::"
OPAQUE = {CE + "deltaCost", CE + "penalisedCost"} | {
    S + "Route::" + n for n in ("before", "after", "between", "at")}
MOVERS = {S + "Route::" + n for n in (
    "insert", "remove", "push_back", "swap", "clear", "update")}
DRIVE = MOVERS | {L + n for n in (
    "update", "applyUnaryOps", "applyBinaryOps", "applyEmptyRouteMoves",
    "search", "ensureStructuralFeasibility")} | {
    S + n for n in ("Solution::load", "Solution::insert",
                    "PerturbationManager::perturb")}

EVALUATE = """relocate1 relocate2 relocate3 swap11 swap21 swap22 swap31 swap32
swap33 swapTails insertClient removeClient replaceClient replaceGroup
relocateAlternative insertShipment removeShipment replaceShipment
relocatePickup relocateDelivery relocateShipment relocateWithDepot
removeDepot""".split()
APPLY = ["do" + n[0].upper() + n[1:] for n in EVALUATE]
VISITS = """insertsPlanned insertsSecond removesRequired removesUnplanned
replacesRequired replacesByPlanned replacesGrouped swapsPlanned
swapsOutsideGroup relocatesUnplanned relocatesOutsideGroup
insertsPlannedShipment removesRequiredShipment replacesRequiredShipment
replacesByPlannedShipment""".split()
TRIPS = """splitsByRelocate1 splitsByRelocate2 splitsByRelocate3 splitsBySwap11
splitsBySwap21 splitsBySwap22 splitsBySwap31 splitsBySwap32 splitsBySwap33
splitsByTails swapsTrips tooManyTrips splitsByDepot insertsAcrossTrips
movesAcrossTrips movesPickup movesDelivery removesNoReload""".split()
CACHES = """Relocate1 Relocate2 Relocate3 RelocateAlternative RelocateShipment
RelocateWithDepot""".split()
STALE = ["initForgets" + n for n in CACHES] + \
    ["updateForgets" + n for n in CACHES] + \
    ["remembers" + n for n in CACHES] + ["initSolution" + n for n in (
        "InsertOptionalClient", "RelocateAlternative", "ReplaceGroup")]
METHODS = {
    "applyUnaryOps": L + "applyUnaryOps",
    "applyBinaryOps": L + "applyBinaryOps",
    "update": L + "update",
    "operator": L + "operator()",
    "ensure": L + "ensureStructuralFeasibility",
    "search": L + "search",
    "empty": L + "applyEmptyRouteMoves",
    "perturb": S + "PerturbationManager::perturb",
    "load": S + "Solution::load",
    "unload": S + "Solution::unload",
    "insert": S + "Solution::insert",
    "insertShipment": S + "Solution::insert",
}

# Which unplanned visits the methods are given; they assert as much.
ROLES = {"insertShipment": {("arg", 0): "pickup", ("arg", 1): "delivery"},
         "insert": {("arg", 0): "client"}}


def reads(f):
    """Accessors whose result modifications of routes change."""
    return (f["record"] or "").startswith(S + "Route") and \
        f["type"].rstrip().endswith("const") and f["name"] not in (
            "idx", "isClient", "isPickup", "isDelivery", "isDepot",
            "activity", "vehicleType", "isShipment") or \
        f["qual"] in (S + "p", S + "n")


def operator(f, *names):
    return (f["record"] or "").startswith(S + "LocalSearchOperator") and \
        f["name"] in names


def marks(f):
    """Only what the search looks at next, never what its routes are."""
    return f["qual"].startswith(S + "SearchSpace::") and \
        f["name"].startswith(("mark", "unmark"))


def interp(prog, **kw):
    I = Interp(prog, opaque=lambda f: f["qual"] in OPAQUE,
               movers=lambda f: f["qual"] in MOVERS, readers=reads,
               leaf=lambda f: (f["record"] or "").startswith(S), **kw)
    I.vn.Model = WorldModel
    return I


def driver(prog):
    I = Interp(prog, silent=marks,
               inline_ctor=lambda f: not f["qual"].startswith(
                   ("pyvrp::Route", "pyvrp::Solution")),
               opaque=lambda f: f["qual"] in OPAQUE or marks(f),
               movers=lambda f: f["qual"] in DRIVE or operator(
                   f, "apply", "init", "update"),
               readers=lambda f: reads(f) or f["qual"] == S +
               "Solution::unload" or operator(f, "evaluate"))
    I.vn.Model = WorldModel
    return I


def row(unit, name, rule, **opt):
    def job(chk):
        prog = program(unit)
        if prog.spec_errors.get(unit):
            chk.undecided(rule, unit, "the specification no longer fits the "
                          f"declarations: {prog.spec_errors[unit][-300:]}")
            return
        if name in METHODS:
            fs = [f for f in prog.find(METHODS[name])
                  if name[:6] != "insert" or (len(f["params"]) == 5) ==
                  (name == "insertShipment")]
            I, g = driver(prog), fs[0] if len(fs) == 1 else None
            I.vn.roles = ROLES.get(name, {})
        else:
            I, g = interp(prog), pick(prog, "pyvrp::spec::got_" + name)
        w = pick(prog, "pyvrp::spec::want_" + name)
        if g is None or w is None:
            chk.undecided(rule, name, "no unique definition")
            return
        compare(chk, I, g, w, rule, label=name, throws=False, outs=False,
                **opt)
    return job


def evaluates(rule):
    return [row("moves", n, rule, split=True, state=False) for n in EVALUATE]


def applies(rule):
    return [row("moves", n, rule, ret=False, state=False, hidden="routes")
            for n in APPLY]


def legal(names, rule):
    return [row("moves", n, rule, state=False) for n in names]


def methods(names, rule):
    return [row("insertion" if n == "insertShipment" else "localsearch", n,
                rule, hidden="routes") for n in names.split()]


def stale(rule):
    return [row("localsearch", n, rule, state=False) for n in STALE]


FLEET = ("Differences between value graphs are only reported when a small "
         "drawn fleet of three routes, six clients and three shipments tells "
         "them apart.")
ROUTES = ("The routes and the cost evaluator are opaque here: C12 and C17 "
          "decide them.")


def check(pid, rule, units, jobs, *assumptions):
    def go():
        chk = Check(pid, rule, [FLEET, ROUTES, *assumptions])
        for u in units:
            program(u)
        parallel(chk, jobs)
        return chk.finish()
    return go


CHECKS = {
    "C18": check(
        "C18", "which moves each operator's evaluate can approve, and what "
        "applying them leaves planned, against the guards and moves in "
        "spec/moves.cpp; the insertion of missing visits and the perturbation "
        "against spec/localsearch.cpp and spec/insertion.cpp",
        ["moves", "localsearch", "insertion"],
        legal(VISITS, "allowed") + applies("apply") +
        methods("ensure insert insertShipment perturb", "planned")),
    "C19": check(
        "C19", "which moves each operator's evaluate can approve, and where "
        "applying them puts visits and depots, against the guards and moves "
        "in spec/moves.cpp; the insertion of shipments against "
        "spec/insertion.cpp", ["moves", "insertion"],
        legal(TRIPS, "allowed") + applies("apply") +
        methods("insertShipment", "planned")),
    "C20": check(
        "C20", "guarded-value equality of every operator's evaluate with the "
        "cost of the routes it announces in spec/moves.cpp, of its apply with "
        "those same routes, and of the search loops with spec/localsearch.cpp",
        ["moves", "localsearch"],
        evaluates("evaluate") + applies("apply") +
        methods("applyUnaryOps applyBinaryOps empty search", "driver")),
    "C21": check(
        "C21", "the order of modifications of routes, updates and evaluations "
        "in every method that drives the search, with the ones in "
        "spec/localsearch.cpp, and what operators remember after init and "
        "update", ["localsearch"],
        stale("operators") + methods(
            "update operator perturb ensure applyUnaryOps applyBinaryOps "
            "empty search load", "driver")),
    "C22": check(
        "C22", "the modifications of routes load() makes and the solution "
        "unload() constructs, with those in spec/localsearch.cpp",
        ["localsearch"], methods("load unload operator", "transfer")),
}
