import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, mm, pacases as P, proofcases as pc


def make(seed):
    return P.make(seed, "follow")


def body(c):
    exe = mm.build()
    P.judge(c, exe, pc.pgen(make, pc.seeds(c, c.scale(1500, 18000))), {"assign", "letstep", "letvar", "unify", "initall", "initstep", "match", "save", "start"}, n=30)
    c.cov["rule"] = "sessions that rebuild a known proof in random order, with detours (deleting, undoing, initialising), using every way of naming a step; refusals, the completion message, SAVE NEW_PROOF in every format and the verdict on the saved proof"


if __name__ == "__main__":
    check.main("P15", body)
