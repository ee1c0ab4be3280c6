"""C33: bit sets, matrices, random numbers, penalty functions."""
from engine.check import Check
from engine.interp import Interp

from .common import got_want, program

BITS = ("New Of Equal Get Put All Any None Count Size And Or Xor Not Set "
        "Reset").split()
MAT = "Get Put Shape Fill Max Equal".split()
RNG = "Next Seed Rand Randint".split()
PWL = "Equal Eval Monotone Points Parts Bps Segs".split()


def c33():
    chk = Check(
        "C33", "guarded-value equality of every bit set, matrix, random "
        "number and penalty function operation with spec/util.cpp, bit sets "
        "seen as the blocks they are stored in")
    prog = program("util")
    I = Interp(prog, raw_bits=True)
    got_want(chk, I, prog, "util", ["bits" + n for n in BITS], "bit-sets")
    I = Interp(prog)
    got_want(chk, I, prog, "util", ["matrix" + n for n in MAT], "matrices")
    got_want(chk, I, prog, "util", ["rng" + n for n in RNG], "random-numbers")
    got_want(chk, I, prog, "util", ["pwl" + n for n in PWL],
             "penalty-functions")
    return chk.finish()


CHECKS = {"C33": c33}
