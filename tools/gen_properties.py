#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that it stays readable)."""
import json
from pathlib import Path

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(),
         observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w)
                            for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))


prop("C01", "Pickling loses nothing",
     "Unpickling a pickled instance, any of its parts (locations, clients, "
     "vehicle types, ...), an activity, a route or a solution yields an object "
     "on which every "
     "public attribute and method returns the same value as on the original. "
     "In particular no field is dropped, swapped with another or replaced by "
     "a default on the way.",
     ["inputs"], "every picklable object, whatever values its fields hold",
     "The pickle tests compare one object per class with ==, and == ignores "
     "several fields; a dropped or swapped field that is zero in the sample "
     "goes unseen.",
     ["pyvrp/cpp/bindings.cpp", "pyvrp/cpp/Route.cpp", "pyvrp/cpp/Solution.cpp"],
     [("py::pickle getstate/setstate pairs", "pyvrp/cpp/bindings.cpp"),
      ("unserialising constructors", "pyvrp/cpp/Route.cpp, Solution.cpp")])

prop("C02", "Equality compares everything, and hash agrees with it",
     "Two instance-data objects (locations, clients, depots, shipments, groups, "
     "vehicle types, activities, whole instances, matrices, penalty functions, "
     "bit sets) compare equal exactly when all the values they were built from "
     "are equal; two routes or solutions of the same instance compare equal "
     "exactly when they make the same visits with the same vehicle types. "
     "Equality is symmetric and equal objects have equal hashes.",
     ["inputs"], "every pair of objects of the same class",
     "Tests vary a handful of fields one at a time; a field missing from the "
     "comparison, or compared with itself, only shows for a pair that differs "
     "in just that field.",
     ["pyvrp/cpp/Client.cpp", "pyvrp/cpp/Depot.cpp", "pyvrp/cpp/Location.cpp",
      "pyvrp/cpp/Shipment.cpp", "pyvrp/cpp/ClientGroup.cpp",
      "pyvrp/cpp/VehicleType.cpp", "pyvrp/cpp/ProblemData.cpp",
      "pyvrp/cpp/Route.cpp", "pyvrp/cpp/Solution.cpp", "pyvrp/cpp/Activity.h"],
     [("operator== / std::hash", "the classes' .cpp and .h files")])

prop("C03", "Instance objects reject invalid values and store valid ones",
     "Constructing a location, client, depot, shipment, client group, vehicle "
     "type or cost evaluator raises ValueError exactly for the documented "
     "invalid values (negative quantities, empty or inverted time windows, "
     "start windows outside the shift, zero vehicles or capacity below zero, "
     "required members of exclusive groups, ...), and otherwise every attribute "
     "reads back the value that was passed, load lists padded with zeros to "
     "equal length.",
     ["inputs"], "every combination of constructor arguments, including the "
     "boundary values of each check",
     "Tests sample one invalid value per check and a few valid objects; an "
     "off-by-one in a comparison, a check applied to the wrong argument or two "
     "swapped members need a specific combination.",
     ["pyvrp/cpp/Client.cpp", "pyvrp/cpp/Depot.cpp", "pyvrp/cpp/Location.cpp",
      "pyvrp/cpp/Shipment.cpp", "pyvrp/cpp/ClientGroup.cpp",
      "pyvrp/cpp/VehicleType.cpp", "pyvrp/cpp/CostEvaluator.cpp"],
     [("constructor checks", "the constructors of each class")])

prop("C04", "An instance is accepted only if it is consistent",
     "Building a ProblemData raises exactly when the parts do not fit: missing "
     "depots or vehicle types, matrices of the wrong number or shape or with "
     "non-zero diagonals, load lists of different lengths, references to "
     "locations, depots, groups, reload depots or profiles that do not exist, "
     "or groups and members that disagree. Every accepted instance can be "
     "indexed by any identifier it contains.",
     ["inputs"], "every combination of locations, clients, depots, shipments, "
     "vehicle types, matrices and groups",
     "Each rule is tested with one bad instance; the rules must hold for every "
     "element of every list, not only the sampled one.",
     ["pyvrp/cpp/ProblemData.cpp"],
     [("ProblemData::validate", "pyvrp/cpp/ProblemData.cpp")])

prop("C05", "replace() changes only what is asked for",
     "Replacing fields of a vehicle type or of an instance returns an object "
     "whose replaced fields have the given values and whose other fields all "
     "equal the original's; the original is unchanged.",
     ["inputs"], "every subset of fields and every value",
     "Tests replace a few fields of small objects and look at those fields, "
     "not at all the others.",
     ["pyvrp/cpp/VehicleType.cpp", "pyvrp/cpp/ProblemData.cpp",
      "pyvrp/cpp/bindings.cpp"],
     [("VehicleType::replace, ProblemData::replace", "the .cpp files")])

prop("C06", "Python attributes read the field they name and cannot be written",
     "Every attribute and accessor of the instance, route, schedule and "
     "solution classes that Python sees returns the value it is named after, "
     "and none of them lets Python code modify an instance, route or solution "
     "after construction; keyword arguments reach the parameter of the same "
     "name.",
     ["inputs", "programs"], "every attribute of every bound class, every "
     "program that uses them",
     "Tests read most attributes on objects where several fields share a value "
     "(often zero), and do not try to write to all of them.",
     ["pyvrp/cpp/bindings.cpp", "pyvrp/_pyvrp.pyi"],
     [("def_readonly / def_property_readonly / py::arg", "pyvrp/cpp/bindings.cpp")])

prop("C07", "Bad indices from Python raise, they do not crash",
     "Indexing an instance, route, solution container or bit set from Python "
     "with an index that is out of range raises IndexError (or ValueError at "
     "construction) instead of reading out of bounds or crashing the process.",
     ["inputs"], "every index argument of the main module's API",
     "Tests try one out-of-range index on some accessors; the unchecked ones "
     "are undefined behaviour that may look fine in a test.",
     ["pyvrp/cpp/bindings.cpp", "pyvrp/cpp/ProblemData.cpp",
      "pyvrp/cpp/Route.cpp", "pyvrp/cpp/RandomNumberGenerator.cpp"],
     [("bounds checks before element access", "bindings.cpp and accessors")])

prop("C08", "Python never holds a dangling reference into C++",
     "Every object Python obtains by reference from another object keeps that "
     "owner alive, and every object that stores a reference to a Python-owned "
     "argument keeps that argument alive; everything else is handed out by "
     "value. No order of deleting Python variables leads to a use after free.",
     ["histories", "programs"], "every order in which Python objects are "
     "created and dropped",
     "Use after free depends on the garbage collector's schedule and usually "
     "goes unnoticed in tests that keep everything alive.",
     ["pyvrp/cpp/bindings.cpp", "pyvrp/cpp/search/bindings.cpp"],
     [("keep_alive, return_value_policy::reference_internal", "the bindings")])

prop("C09", "Same seed, same result",
     "With the same instance, parameters, seed and an iteration-based stopping "
     "criterion, a solve returns the same solution, cost trace and penalties: "
     "all randomness is drawn from the seeded generator, and no result depends "
     "on wall-clock time, addresses, hash order or state left by an earlier "
     "call.",
     ["inputs", "histories", "programs"], "every instance, seed and parameter "
     "set, and every number of previous solves in the same process",
     "Tests repeat a few short runs; nondeterminism (address or hash order, "
     "stale state) shows only on some inputs or platforms.",
     ["pyvrp/cpp", "pyvrp/solve.py", "pyvrp/IteratedLocalSearch.py"],
     [("RandomNumberGenerator passed by reference", "pyvrp/cpp/RandomNumberGenerator.h")])

prop("C10", "Routes that cannot be executed are rejected",
     "Constructing a route raises exactly when its vehicle type or a depot, "
     "client or shipment it visits is unknown, or it uses more trips than the vehicle allows, visits a "
     "pickup or delivery twice, delivers before or without picking up, leaves a "
     "pickup undelivered, or carries a shipment across a reload depot.",
     ["inputs"], "every sequence of activities for every vehicle type",
     "Tests check one sequence per rule; interleavings of shipments, reloads "
     "and repeated visits are unbounded.",
     ["pyvrp/cpp/Route.cpp"], [("Route::validate", "pyvrp/cpp/Route.cpp")])

prop("C11", "A Solution is structurally consistent or is rejected",
     "Constructing a solution raises exactly when it has an empty route, more "
     "routes than vehicles in total or of a type, a client or shipment planned "
     "more than once, or two members of a mutually exclusive group; otherwise "
     "its lists of unplanned activities and its counts of missing required "
     "clients, shipments and groups are exactly what the routes leave out.",
     ["inputs"], "every list of routes over every instance",
     "Tests build small solutions on fixed instances; the counts and the "
     "rejections must hold for every combination of routes.",
     ["pyvrp/cpp/Solution.cpp"],
     [("Solution constructor", "pyvrp/cpp/Solution.cpp")])

prop("C12", "Solution statistics are the totals over its routes",
     "Every statistic of a solution (distance, duration, overtime, their costs, "
     "time warp, excess load per dimension, excess distance, fixed vehicle cost, "
     "prizes, numbers of clients, shipments, trips and routes) is the sum of "
     "that statistic over its routes, and uncollected prizes are the prizes of "
     "all clients and shipments minus those collected.",
     ["inputs"], "every solution",
     "Tests compare totals on solutions where several terms are zero.",
     ["pyvrp/cpp/Solution.cpp"],
     [("Solution::evaluate", "pyvrp/cpp/Solution.cpp")])

prop("C13", "Feasible means no violation of any kind",
     "A route or solution reports itself feasible exactly when it has no excess "
     "load in any dimension, no excess distance, no time warp and, for a "
     "solution, misses no required client, shipment or group; each of the "
     "has_excess_* and has_time_warp flags is set exactly when the matching "
     "quantity is positive.",
     ["inputs"], "every route and solution",
     "Tests cover some violations one at a time, not each dimension and each "
     "combination.",
     ["pyvrp/cpp/Solution.cpp", "pyvrp/cpp/Route.cpp"],
     [("isFeasible, isComplete, hasExcessLoad, ...", "Route.cpp, Solution.cpp")])

prop("C14", "The objective is the documented one, on both sides of the search",
     "The penalised cost of a solution is the sum over its non-empty routes of "
     "distance cost, duration cost, fixed vehicle cost and the penalties for "
     "excess load per dimension, time warp and excess distance, plus all "
     "uncollected prizes; the cost is that value when feasible and the maximum "
     "otherwise. The search's own route cost and its exact delta cost use the "
     "same terms.",
     ["inputs"], "every solution, route and set of penalty weights",
     "Tests evaluate a few solutions by hand; a missing or doubled term for "
     "some route types, or a difference between the two implementations, only "
     "shows with those terms non-zero.",
     ["pyvrp/cpp/CostEvaluator.h", "pyvrp/cpp/CostEvaluator.cpp",
      "pyvrp/cpp/Route.cpp", "pyvrp/cpp/Solution.cpp",
      "pyvrp/cpp/search/Route.cpp"],
     [("CostEvaluator::penalisedCost, cost, deltaCost", "CostEvaluator.h and "
       "specialisations")])

prop("C15", "Load, duration and time-warp algebra is the documented one",
     "Concatenating route segments yields the load, excess load, duration, time "
     "warp, earliest and latest start, and release time that executing the "
     "concatenated visits would, and building a segment from a client, depot, "
     "shipment step or vehicle uses that object's own times and loads; splitting "
     "a trip at a depot adds up its duration, time warp and excess load.",
     ["inputs"], "every pair of segments and all the values in them",
     "Tests check a few concatenations with small numbers; the case "
     "distinctions (waiting, time warp, release times, overflow guards) "
     "multiply.",
     ["pyvrp/cpp/DurationSegment.h", "pyvrp/cpp/DurationSegment.cpp",
      "pyvrp/cpp/LoadSegment.h", "pyvrp/cpp/LoadSegment.cpp"],
     [("merge, finaliseFront, finaliseBack, finalise and constructors",
       "DurationSegment.h, LoadSegment.h")])

prop("C16", "A route's statistics describe its own schedule",
     "A route's distance, duration, travel and service time, overtime, time "
     "warp, slack, loads, prizes, costs and schedule are those of driving its "
     "vehicle from its start depot along its activities in order to its end "
     "depot, using that vehicle type's profile, shift, capacities and unit "
     "costs, for every kind of activity.",
     ["inputs"], "every sequence of depot, client, pickup and delivery visits, "
     "and every vehicle type",
     "Tests pin the numbers of some routes; a wrong term for one kind of visit, "
     "trip or dimension only shows on routes that have it.",
     ["pyvrp/cpp/Route.cpp", "pyvrp/cpp/Route.h"],
     [("setSchedule, setDistance, setLoad, setOtherStatistics",
       "pyvrp/cpp/Route.cpp")])

prop("C17", "The search's route caches equal a fresh evaluation",
     "After a search route has been updated, its per-position cumulative "
     "distance, duration and load segments, trip numbers, feasibility and costs "
     "are what evaluating its nodes in order gives, and a proposed route "
     "(concatenation of segments) is evaluated with the same rules, including "
     "reload depots, release times and start and end depots.",
     ["inputs", "histories"], "every route and every history of edits",
     "Tests compare caches on a few routes; errors at particular positions "
     "(reload depots, first or last visit, several load dimensions) stay "
     "hidden.",
     ["pyvrp/cpp/search/Route.cpp", "pyvrp/cpp/search/Route.h"],
     [("Route::update, before/after/between segments, Proposal",
       "search/Route.cpp, search/Route.h")])

prop("C18", "Search never drops or doubles a required visit",
     "No local search move removes a required client, a required shipment or "
     "the last member of a required group, inserts a second member of a "
     "mutually exclusive group, or inserts something already planned; the "
     "solution a search returns plans at least everything required that fits "
     "a vehicle, and never twice.",
     ["inputs", "histories"], "every instance, start solution and sequence of "
     "moves",
     "Operators are tested on a few positions; the guard that protects a "
     "required visit is only exercised when dropping it would pay off.",
     ["pyvrp/cpp/search"],
     [("required/group guards in the operators' evaluate",
       "pyvrp/cpp/search/*Optional*.cpp, ReplaceGroup.cpp, "
       "RelocateAlternative.cpp"),
      ("ensureStructuralFeasibility", "pyvrp/cpp/search/LocalSearch.cpp")])

prop("C19", "Search keeps pickups, deliveries and trips legal",
     "No local search move separates a pickup from its delivery over different "
     "routes or trips, puts a delivery before its pickup, gives a vehicle more "
     "trips than it allows, or moves a start or end depot; every solution "
     "the search returns can be constructed.",
     ["inputs", "histories"], "every instance and every sequence of moves",
     "The guards matter only for particular positions (overlapping segments, "
     "reload depots between pickup and delivery, routes at their trip limit).",
     ["pyvrp/cpp/search"],
     [("splitsShipment / trip / overlap guards", "the operators' evaluate"),
      ("Route::insert's trip check", "pyvrp/cpp/search/Route.cpp")])

prop("C20", "A move does what was evaluated",
     "The routes an operator produces when a move is applied are the routes "
     "whose cost it evaluated, so an applied move changes the penalised cost by "
     "the evaluated amount, prizes included; moves that are not evaluated as "
     "improving are not applied.",
     ["inputs", "histories"], "every operator, every pair of positions",
     "Tests compare evaluated and realised cost on some moves; a mismatch for "
     "adjacent positions, equal routes or depots needs a specific layout.",
     ["pyvrp/cpp/search"],
     [("operators' evaluate and apply", "pyvrp/cpp/search/*.cpp, *.h"),
      ("deltaCost < 0 before apply", "pyvrp/cpp/search/LocalSearch.cpp")])

prop("C21", "Search never evaluates stale routes or stale caches",
     "Whenever a route has been modified during local search or perturbation it "
     "is brought up to date before any further move is evaluated or the "
     "solution is exported, operators forget what they cached about it, and "
     "state from an earlier search call never influences a later one.",
     ["histories"], "every sequence of moves and calls",
     "Stale state gives slightly wrong costs, which tests of end results on "
     "small instances tolerate.",
     ["pyvrp/cpp/search/LocalSearch.cpp",
      "pyvrp/cpp/search/PerturbationManager.cpp",
      "pyvrp/cpp/search/Solution.cpp", "pyvrp/cpp/search/Relocate.h",
      "pyvrp/cpp/search/RelocateAlternative.cpp",
      "pyvrp/cpp/search/RelocateShipment.cpp",
      "pyvrp/cpp/search/RelocateWithDepot.cpp"],
     [("LocalSearch::update, operators' init and update",
       "pyvrp/cpp/search")])

prop("C22", "Search input and output solutions are transferred completely",
     "A search starts from exactly the routes, vehicle types, trips and visits "
     "of the solution it is given, and returns a solution with exactly the "
     "routes it ended with, each with its own vehicle type and order of "
     "visits; nothing is lost, reordered or reassigned.",
     ["inputs"], "every solution on every instance",
     "Tests round-trip a few solutions of small instances, mostly with one "
     "vehicle type and one trip.",
     ["pyvrp/cpp/search/Solution.cpp", "pyvrp/cpp/search/LocalSearch.cpp"],
     [("search::Solution::load and unload", "pyvrp/cpp/search/Solution.cpp")])

prop("C23", "solve returns the best solution it ever saw",
     "The solution returned is never worse than the initial one or any "
     "candidate found during the run: a feasible candidate that is cheaper "
     "always becomes the best, the best is never replaced by a worse or "
     "infeasible one, and the reported iterations, runtime, cost and "
     "feasibility are those of this run and this best solution.",
     ["histories"], "every sequence of candidates a search can produce",
     "Tests run short searches and look at the end result, not at every "
     "possible order of improving and infeasible candidates.",
     ["pyvrp/IteratedLocalSearch.py", "pyvrp/Result.py"],
     [("IteratedLocalSearch.run", "pyvrp/IteratedLocalSearch.py")])

prop("C24", "Stopping criteria stop when they say, and are asked every round",
     "Every stopping criterion returns true exactly when its documented limit "
     "is reached (iterations, runtime, iterations without improvement, first "
     "feasible, any of several), rejects invalid limits, and the search consults "
     "it before every iteration with the current best cost.",
     ["inputs", "histories"], "every limit and every sequence of calls",
     "Tests call each criterion a few times; counters and resets must be right "
     "for every sequence of best values.",
     ["pyvrp/stop", "pyvrp/IteratedLocalSearch.py"],
     [("the criteria's __call__", "pyvrp/stop/*.py")])

prop("C25", "Penalties stay in bounds and move the right way",
     "Penalty weights always lie between the configured minimum and maximum; "
     "a penalty never decreases after too few feasible solutions of its kind, "
     "never increases after too many, and is only changed from the outcomes "
     "registered for that same constraint.",
     ["histories"], "every sequence of registered solutions and parameters",
     "Tests register a few solutions; clipping, window and direction errors "
     "need particular histories.",
     ["pyvrp/PenaltyManager.py"],
     [("PenaltyManager._compute/_register/init_from", "pyvrp/PenaltyManager.py")])

prop("C26", "Statistics record every iteration and survive a file round trip",
     "Each iteration of a run adds exactly one entry to every series of the "
     "statistics, from the solution of that kind; writing statistics to a file "
     "and reading them back gives equal statistics.",
     ["inputs", "histories"], "every run and every recorded value",
     "Tests round-trip one short run.",
     ["pyvrp/Statistics.py", "pyvrp/IteratedLocalSearch.py"],
     [("Statistics.collect, to_csv, from_csv", "pyvrp/Statistics.py")])

prop("C27", "Model builds exactly the instance that was described",
     "Every argument given to a Model method reaches the field of the same name "
     "in the instance that is built, in insertion order, references to "
     "locations, depots, groups and profiles resolve to the very objects that "
     "were passed, and each edge sets its distance and duration for exactly its "
     "endpoints and profiles.",
     ["inputs"], "every sequence of Model calls",
     "Tests build small models, mostly with default arguments and equal values.",
     ["pyvrp/Model.py"], [("Model.add_* and data()", "pyvrp/Model.py")])

prop("C28", "Solver options reach the component they configure",
     "Every option of solve(), Model.solve(), SolveParams (including its file "
     "form) and the command line reaches the component it is named after with "
     "the value given, and components not configured use their documented "
     "defaults.",
     ["configurations"], "every combination of options",
     "Tests set few options and mostly check that nothing fails.",
     ["pyvrp/solve.py", "pyvrp/Model.py", "pyvrp/cli.py",
      "pyvrp/search/LocalSearch.py"],
     [("argument forwarding", "solve.py, Model.py, cli.py")])

prop("C29", "Reading an instance file gives the instance it describes",
     "read() puts every section of an instance file into the matching field, "
     "rounding every number exactly once with the chosen function, and "
     "read_solution() of a written solution gives the same routes, vehicle "
     "types and trips.",
     ["inputs"], "every supported file and rounding function",
     "Tests read a few files and check some fields.",
     ["pyvrp/read.py"], [("read, read_solution, write_solution",
                          "pyvrp/read.py")])

prop("C30", "Fleet minimisation only ever returns a fleet that works",
     "minimise_fleet returns a vehicle type that equals the given one except "
     "for the number of vehicles, which is never more than given, at least one, "
     "and such that a feasible solution with that many vehicles was found "
     "(or the given number); it never raises on an accepted instance with one "
     "vehicle type.",
     ["inputs"], "every instance with one vehicle type",
     "Tests run it on two instances.",
     ["pyvrp/minimise_fleet.py"],
     [("minimise_fleet and its lower bound", "pyvrp/minimise_fleet.py")])

prop("C31", "Neighbourhoods are valid and of the requested size",
     "A computed neighbourhood lists for each activity at most the requested "
     "number of distinct other activities, never itself, a depot or a member "
     "of the same exclusive group, chosen by proximity as documented, and a "
     "search space rejects neighbourhoods that break those rules.",
     ["inputs"], "every instance and parameter set",
     "Tests check a few instances.",
     ["pyvrp/cpp/search/neighbourhood.cpp", "pyvrp/cpp/search/SearchSpace.cpp"],
     [("computeNeighbours, SearchSpace::setNeighbours",
       "pyvrp/cpp/search")])

prop("C32", "Names and nodes are owned exactly once",
     "Copying, moving, assigning and destroying instance objects, routes and "
     "search nodes never frees a string twice, leaks it, or leaves an object "
     "pointing at another's storage.",
     ["histories", "programs"], "every sequence of copies, moves and "
     "destructions",
     "Double frees and leaks depend on the order of copies and moves; the test "
     "suite does not run under a memory checker.",
     ["pyvrp/cpp/Client.cpp", "pyvrp/cpp/Depot.cpp", "pyvrp/cpp/Location.cpp",
      "pyvrp/cpp/Shipment.cpp", "pyvrp/cpp/ClientGroup.cpp",
      "pyvrp/cpp/VehicleType.cpp", "pyvrp/cpp/search/Route.cpp"],
     [("copy and move constructors, destructors", "the classes' .cpp files")])

prop("C33", "Bit sets, matrices and random numbers behave as documented",
     "A bit set's size, any, all, none, count and bitwise operations equal "
     "those on the individual bits, a matrix returns what was stored in that "
     "row and column, and the random number generator yields the documented "
     "xorshift sequence with rand() in [0, 1] and randint(n) below n.",
     ["inputs"], "every size, index and seed",
     "Tests sample a few sizes and seeds.",
     ["pyvrp/cpp/DynamicBitset.cpp", "pyvrp/cpp/Matrix.h",
      "pyvrp/cpp/RandomNumberGenerator.cpp",
      "pyvrp/cpp/PiecewiseLinearFunction.h"],
     [("the classes' methods", "the listed files")])

prop("C34", "Searching improves solution quality over time",
     "Given enough iterations, the search finds solutions close to the best "
     "known ones and keeps improving.",
     ["inputs"], "every instance", "Quality is statistical.",
     ["pyvrp/IteratedLocalSearch.py"], [("the whole search", "pyvrp")])

prop("C35", "No arithmetic overflow for documented value ranges",
     "For inputs within the documented value ranges, no cost, distance, "
     "duration or load computation overflows its integer type.",
     ["inputs"], "every instance within the documented ranges",
     "Overflow needs extreme values in long chains of additions.",
     ["pyvrp/cpp"], [("64-bit measures and guarded ternaries", "pyvrp/cpp")])

prop("C36", "Time limits are respected",
     "A solve with a runtime limit ends within one iteration of that limit, "
     "whatever the instance size.",
     ["inputs"], "every instance and limit", "Tests use tiny instances.",
     ["pyvrp/stop/MaxRuntime.py", "pyvrp/IteratedLocalSearch.py"],
     [("MaxRuntime", "pyvrp/stop/MaxRuntime.py")])

prop("C37", "Every round of the search: acceptance, history and restart",
     "In every round of a run the local search starts from the current "
     "solution; the candidate is accepted exactly when it is better than the "
     "current solution of history_length rounds ago (or than the current "
     "one); the history records the current cost and is skipped or cleared "
     "exactly as documented; after num_iters_no_improvement rounds without a "
     "new best, the run restarts from the best solution. Parameters out of "
     "range raise.",
     ["inputs", "histories"], "every sequence of search results, costs, and "
     "feasibilities, every history length and restart limit",
     "A wrong acceptance, history position or restart only changes which "
     "solutions are visited; a run still ends with a feasible result.",
     ["pyvrp/IteratedLocalSearch.py", "pyvrp/RingBuffer.py"],
     [("run", "pyvrp/IteratedLocalSearch.py"),
      ("RingBuffer", "pyvrp/RingBuffer.py")])

out = Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
