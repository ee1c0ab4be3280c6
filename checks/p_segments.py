"""C15: the segment algebra."""
from engine.check import Check
from engine.interp import Interp

from .common import program, spec_table

D, L = "pyvrp::DurationSegment::", "pyvrp::LoadSegment::"
C = dict(ctor=True)



def c15():
    chk = Check(
        "C15", "guarded-value equality of every segment operation with the "
        "reference semantics in spec/segments.cpp (result, exceptions and "
        "effects, on all paths)")
    prog = program("segments")
    I = Interp(prog)
    rows = []
    rows += [(D + "merge", r"Duration(,|\b const,| const,).*DurationSegment.*DurationSegment",
              "duration_merge"),
             (D + "merge", r"\(const DurationSegment &, const DurationSegment &\)",
              "duration_merge0")]
    for n in ("startEarly startLate duration timeWarp endEarly endLate "
              "prevEndLate releaseTime slack finaliseFront "
              "finaliseBack").split():
        rows.append((D + n, None, "duration_" + n,
                     dict(opaque={D + x for x in (
                         "merge", "finaliseFront", "endEarly", "endLate",
                         "duration", "timeWarp")})
                     if n == "finaliseBack" else {}))
    for sig, n in (("Client", "client"), ("Depot", "depot"),
                   ("Step", "step"), ("VehicleType", "vehicle")):
        rows.append((D + "DurationSegment", sig, "duration_of_" + n, dict(C)))
    rows.append((D + "DurationSegment", r"Duration, .*Duration, .*Duration",
                 "duration_init", dict(C)))
    for n in "merge load initial delta increase excessLoad finalise".split():
        rows.append((L + n, None, "load_" + n))
    for sig, n in (("Client", "client"), ("Shipment", "shipment"),
                   ("VehicleType", "vehicle")):
        rows.append((L + "LoadSegment", sig, "load_of_" + n, dict(C)))
    rows.append((L + "LoadSegment", r"Load, .*Load, .*Load", "load_init",
                 dict(C)))
    spec_table(chk, I, prog, "segments", rows, "segment-algebra")
    return chk.finish()


CHECKS = {"C15": c15}
