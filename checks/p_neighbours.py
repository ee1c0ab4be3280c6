"""C31: neighbourhoods."""
from engine.check import Check
from engine.interp import Interp
from engine.randinterp import Model, S

from .common import got_want, program, spec_table

S_ = "pyvrp::search::"


class Members(Model):
    """The members of groups are clients."""
    effort = 400000

    def clients(self):
        return self.num(S(("size", S(("fld", S(("arg", 0)), "clients_")))))

    def draw(self, v):
        text = repr(v)
        r = self.rnd
        if v[0] == "size" and len(text) < 60:
            if "'clients_'" in text or "'shipments_'" in text:
                return r.choice((0, 1, 2, 2, 3))
            if "'vehicleTypes_'" in text:
                return r.choice((1, 1, 2, 3))
        if v[:1] == ("arg",) or v[1:] == (2,):
            return r.choice((0, 0, 1, 1, 2))
        if v[0] == "fld" and v[2] == "numNeighbours":
            return r.choice((1, 2, 3, 4, 9))
        if v[0] == "fld" and v[2] in ("unitDistanceCost", "unitDurationCost",
                                      "profile", "location", "twEarly",
                                      "serviceDuration"):
            return r.choice((0, 0, 1, 1, 2, 5))
        if v[0] == "fld" and v[2] == "twLate":
            return r.choice((3, 6, 9, 12, 50))
        if v[0] == "size" and text.endswith("'groups_'))") and \
                self.clients() == 0:
            return 0
        if v[0] == "elem" and "'groups_'" in text and "'clients_'" in text:
            return self.rnd.randrange(max(self.clients(), 1))
        w = super().draw(v)
        if v[0] == "fld" and v[2] == "weightWaitTime":
            return w
        return int(w)   # distances and durations are whole numbers


def c31():
    chk = Check(
        "C31", "guarded-value equality of the neighbours computed for every "
        "client and pickup, of the parameters accepted and of what a search "
        "space accepts with spec/neighbourhood.cpp",
        ["Differences between value graphs are only reported when a drawn "
         "instance of up to three clients, shipments and vehicle types tells "
         "them apart."])
    prog = program("neighbourhood")
    I = Interp(prog)
    I.vn.Model = Members
    got_want(chk, I, prog, "neighbourhood", ["params", "proximity", "client",
                                              "pickup"],
             "neighbours")
    J = Interp(prog)
    spec_table(chk, J, prog, "neighbourhood",
               [(S_ + "SearchSpace::setNeighbours", None,
                 "want_setNeighbours")], "search-space")
    return chk.finish()


CHECKS = {"C31": c31}
