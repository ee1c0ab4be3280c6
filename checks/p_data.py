"""C02, C03, C04, C05: instance objects."""
from engine.check import Check
from engine.interp import Interp

from .common import got_want, program

VT = "pyvrp::VehicleType::VehicleType"
PD = "pyvrp::ProblemData::ProblemData"


def c03():
    chk = Check(
        "C03", "the values each instance class rejects and the fields it "
        "stores equal those written in spec/data.cpp, for all arguments")
    prog = program("data")
    I = Interp(prog)
    names = "location client depot shipment vehicle step groupMembers " \
        "activity evaluator".split()
    got_want(chk, I, prog, "data", names, "construction", split=True)
    got_want(chk, I, prog, "data", ["groupAdd", "vehicleTrips"],
             "construction")
    got_want(chk, I, prog, "data", ["groupView"], "construction", split=True)
    I = Interp(prog, copies=True)
    got_want(chk, I, prog, "data", [
        n + how for n in "location client depot shipment vehicle group".split()
        for how in ("Copy", "Move")], "copies", split=True)
    return chk.finish()


def c02():
    chk = Check(
        "C02", "every equality operator equals the conjunction over all "
        "stored values written in spec/data.cpp; hashes read only values "
        "that equality compares")
    prog = program("data", "util", "solution")
    I = Interp(prog)
    got_want(chk, I, prog, "data",
             [n + "Equal" for n in "location client depot shipment group "
              "vehicle activity data".split()], "equality")
    got_want(chk, I, prog, "util", ["matrixEqual", "pwlEqual"], "equality")
    got_want(chk, I, prog, "solution",
             "routeEqualOnly routeEqualSame solutionEqualOnly "
             "solutionEqualSame".split(), "equality")
    got_want(chk, I, prog, "solution", ["activityHash", "solutionHash"],
             "hash")
    I = Interp(prog, raw_bits=True)
    got_want(chk, I, prog, "util", ["bitsEqual"], "equality")
    return chk.finish()


def c04():
    chk = Check(
        "C04", "the condition under which constructing a ProblemData raises, "
        "and what it stores and hands out by index, equal those written in "
        "spec/data.cpp, for all arguments")
    prog = program("data")
    I = Interp(prog)
    got_want(chk, I, prog, "data", ["dataAccepts"], "consistency")
    I = Interp(prog, opaque=lambda f: f["qual"].endswith("::validate"))
    got_want(chk, I, prog, "data", ["dataWindows"], "consistency",
             throws=False)
    got_want(chk, I, prog, "data", ["data"], "consistency", split=True,
             throws=False)
    got_want(chk, I, prog, "data",
             ["data" + n for n in "Location Client Depot Group Shipment "
              "VehicleType Distances Durations".split()], "accessors")
    return chk.finish()


def c05():
    chk = Check(
        "C05", "replace() constructs its result from exactly the given "
        "values, and the object's own values where none is given",
        ["What the constructors accept and store is C03 and C04."])
    prog = program("data")
    I = Interp(prog, opaque=lambda f: f["qual"] in (VT, PD))
    got_want(chk, I, prog, "data", ["vehicleReplace", "dataReplace"],
             "replace")
    return chk.finish()


CHECKS = {"C02": c02, "C03": c03, "C04": c04, "C05": c05}
