"""Checks on the Python layer."""
from engine import pyfront
from engine.check import Check
from engine.pyinterp import PyInterp

from .common import got_want

# per specification module: how calls into opaque objects are treated
def named(*names):
    return lambda f: f["name"] in names or f["qual"] in names


OPTIONS = {
    "model": dict(
        opaque=named("Edge"), effects=("add_client",),
        per={n: dict(opaque=None) for n in ("edge", "edge_default", "profile",
                                            "implicit")}),
    "reading": dict(
        pure=("num_depots", "coords", "depot_idcs", "any", "max", "demands",
              "backhauls", "service_times", "time_windows", "prizes",
              "release_times", "mutually_exclusive_groups", "shipments",
              "allowed_clients", "edge_weight", "type", "capacities",
              "reload_depots", "vehicles_depots", "max_distances",
              "shift_durations", "max_reloads", "fixed_costs",
              "unit_distance_costs", "_locations", "_clients", "_depots",
              "_vehicle_types", "_distance_matrices", "_groups",
              "_shipments"),
        per={"data": dict(opaque=named(
                "_locations", "_clients", "_depots", "_vehicle_types",
                "_distance_matrices", "_groups", "_shipments")),
             "read": dict(opaque=named("data")),
             **{n: dict(effects=("write", "writelines"),
                        models={"open": "opened"})
                for n in ("written", "written_types")}}),
    "fleet": dict(opaque=named("solve")),
    "solving": dict(
        opaque=named("IteratedLocalSearch", "compute_neighbours", "read",
                     "write_solution"),
        per={"neighbours": dict(opaque=None), "modelDefaults": dict(opaque=named("pyvrp.solve.solve", "data")),
             "model": dict(opaque=named("pyvrp.solve.solve", "data")),
             "solveDefaults": dict(opaque=named("IteratedLocalSearch")),
             "command": dict(opaque=named(
                 "solve", "read", "write_solution", "from_file"),
                 effects=("write_solution", "to_csv", "mkdir"))}),
    "stats": dict(
        pure=("penalised_cost", "is_feasible", "readlines", "columns",
              "opened"),
        models={"csv.DictReader": "rows_of", "open": "opened",
                "csv.DictWriter": "writer_to"}),
    "stop": {},
    "ils": dict(
        blind={"__call__": (".exhaustive", ".best_cost")},
        ignore=("ProgressPrinter", "Statistics", "on_start", "on_end",
                "on_iteration", "on_restart", "on_best"),
        pure=("cost", "penalised_cost", "is_feasible")),
    "rounds": dict(
        ignore=("ProgressPrinter", "on_start", "on_end", "on_iteration",
                "on_restart", "on_best"),
        pure=("cost", "penalised_cost", "is_feasible")),
}


def unit(chk, name, names, rule, **opt):
    prog = pyfront.load(specs=(name,))
    kw = dict(OPTIONS.get(name, {}))
    opt.setdefault("state", False)
    per = kw.pop("per", {})
    for n in names:  # (a fresh store each: shapes learnt for one argument
        # of one specification mean nothing for the next)
        I = PyInterp(prog, **{**kw, **per.get(n, {})})
        got_want(chk, I, prog, name, [n], rule, **opt)


def c23():
    chk = Check(
        "C23", "guarded-value equality, over every sequence of search "
        "results, of the best solution, iterations and runtime of a run with "
        "spec/py/ils.py")
    unit(chk, "ils", ["best", "runtime"], "best-found", throws=False,
         outs=False)
    unit(chk, "ils", ["result", "cost"], "result", outs=False)
    return chk.finish()


def c24():
    chk = Check(
        "C24", "guarded-value equality of every stopping criterion, over "
        "every sequence of calls, with spec/py/stop.py, and of the rounds of "
        "the search with spec/py/ils.py")
    unit(chk, "stop", ["firstFeasible", "maxIterations", "noImprovement",
                       "maxRuntime", "multiple"], "criteria", outs=False)
    unit(chk, "ils", ["best"], "asked-every-round", throws=False, outs=False)
    return chk.finish()


def c25():
    chk = Check(
        "C25", "guarded-value equality, over every history of registered "
        "solutions, of the penalties with spec/py/penalty.py")
    unit(chk, "penalty", ["history", "initial", "evaluator", "maxEvaluator",
                          "midpoint", "params"], "penalties", outs=False)
    return chk.finish()


def c26():
    chk = Check(
        "C26", "guarded-value equality of the series of a run, of the rows "
        "written and of the statistics read with spec/py/stats.py")
    unit(chk, "stats", ["series", "read", "equal", "equalOne"], "series", outs=False)
    unit(chk, "stats", ["written"], "rows", outs=False, state=True)
    unit(chk, "rounds", ["rounds"], "every-round", throws=False, outs=False)
    return chk.finish()


def c27():
    chk = Check(
        "C27", "guarded-value equality of every object the model builds, its "
        "lists, and the instance data() makes of them with spec/py/model.py")
    unit(chk, "model", [
        "location", "depot", "depot_defaults", "client", "client_defaults",
        "shipment", "shipment_defaults", "group", "vehicle",
        "vehicle_defaults", "whole", "edge", "edge_default", "profile",
        "profiles", "edges", "distances", "durations", "instance"], "model", outs=False, state=True)
    return chk.finish()


def c28():
    chk = Check(
        "C28", "guarded-value equality of every component a solve is built "
        "from, with all of its arguments, with spec/py/solving.py")
    unit(chk, "solving", ["solve", "solveDefaults", "params", "paramsEqual",
                          "paramsDefaults", "file", "model", "modelDefaults",
                          "search", "replaced", "neighbours"], "forwarding", outs=False)
    unit(chk, "solving", ["command"], "command-line", outs=False, state=True)
    return chk.finish()


def c29():
    chk = Check(
        "C29", "guarded-value equality of every section read, every object "
        "built from them, the solution read and the lines written with "
        "spec/py/reading.py")
    unit(chk, "reading", [
        "counts", "type", "edge_weight", "depot_idcs", "backhauls", "demands",
        "coords", "service", "windows", "release", "prizes", "capacities",
        "reloads", "allowed", "vehicle_depots", "max_distances", "shifts",
        "max_reloads", "fixed", "unit", "exclusive", "pairs"], "sections",
         outs=False)
    unit(chk, "reading", [
        "locations", "depots", "clients", "groups", "shipments", "profiles",
        "vehicles", "matrices", "data", "read", "rounding"], "instance",
         outs=False)
    unit(chk, "reading", ["solution"], "solution", outs=False)
    unit(chk, "reading", ["written", "written_types"], "written", outs=False,
         state=True)
    return chk.finish()


def c30():
    chk = Check(
        "C30", "guarded-value equality, over whatever each solve returns, of "
        "the minimised fleet and its lower bound with spec/py/fleet.py")
    unit(chk, "fleet", ["fleet", "bound"], "fleet", outs=False)
    return chk.finish()


def c37():
    chk = Check(
        "C37", "guarded-value equality, over every sequence of search "
        "results, of every round of a run (search, acceptance, history, "
        "restart) with spec/py/rounds.py")
    unit(chk, "rounds", ["rounds"], "rounds", throws=False, outs=False)
    unit(chk, "ils", ["params"], "parameters", outs=False)
    return chk.finish()


CHECKS = {"C23": c23, "C24": c24, "C25": c25, "C26": c26, "C27": c27,
          "C28": c28, "C29": c29, "C30": c30, "C37": c37}
