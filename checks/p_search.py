"""C17: the search's routes."""
from engine.check import Check

from .common import got_want, parallel, program
from .p_route import interp


def c17():
    chk = Check(
        "C17", "guarded-value equality of every cache update() fills, every "
        "accessor and segment, every proposal and every modification of a "
        "search route with the independent computation in "
        "spec/searchroute.cpp",
        ["The segment operations are opaque here; C15 decides them.",
         "Proposals of two to four segments, of any segment types."])
    prog = program("searchroute")

    def job(n, *opaque, **opt):
        return lambda c: got_want(c, interp(prog, *opaque), prog,
                                  "searchroute", [n], "search-route", **opt)
    update = "pyvrp::search::Route::update"
    parallel(chk, [job("facts", split=True)] + [
        job(n, split=True, outs=False) for n in ("update", "updateLoad")] + [
        job(n, split=True) for n in
        "after before between at client depot pickup delivery".split()] + [
        job(n + k) for k in "432" for n in
        ("distance", "duration", "excess", "fixed", "route")] + [
        job(n, update) for n in
        "insert pushBack remove swap vehicleType prev next".split()])
    return chk.finish()


CHECKS = {"C17": c17}
