"""C10, C16: routes."""
from engine.check import Check
from engine.interp import Interp

from .common import got_want, program, spec_table

R = "pyvrp::Route::"
D, L = "pyvrp::DurationSegment::", "pyvrp::LoadSegment::"
OPQ = {D + n for n in "merge finaliseFront finaliseBack duration timeWarp "
       "startEarly slack startLate endEarly endLate".split()} | \
      {L + n for n in "merge finalise excessLoad".split()}


def interp(prog, *more):
    return Interp(prog, opaque=lambda f: f["qual"] in OPQ or
                  f["qual"] in more)


def c10():
    chk = Check(
        "C10", "the condition under which constructing a Route raises equals "
        "the condition written in spec/route.cpp, for every data, activity "
        "list and vehicle type")
    prog = program("route")
    I = interp(prog)
    got_want(chk, I, prog, "route", ["accepts", "visits"], "route-rejections")
    return chk.finish()


def c16():
    chk = Check(
        "C16", "guarded-value equality of every Route statistic with the "
        "independent computation in spec/route.cpp",
        ["The segment operations are opaque here; C15 decides them."])
    prog = program("route")
    I = interp(prog, R + "validate")  # what it rejects is C10
    got_want(chk, I, prog, "route", ["stats"], "route-statistics",
             throws=False, split=True)
    rows = [(R + n, None, "want_" + n) for n in
            "numTrips numDepots numClients waitDuration endTime".split()]
    rows.append((R + "ScheduledActivity::duration", None,
                 "want_activityDuration"))
    spec_table(chk, I, prog, "route", rows, "route-statistics")
    return chk.finish()


CHECKS = {"C10": c10, "C16": c16}
