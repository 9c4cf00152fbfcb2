import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, mm, pacases as P, proofcases as pc


def make(seed):
    return P.make(seed)


def body(c):
    exe = mm.build()
    P.judge(c, exe, pc.pgen(make, pc.seeds(c, c.scale(1800, 20000))), {"assign", "delete", "deletefloat", "letstep", "letvar", "unify", "initstep", "initall", "inituser", "start"}, n=25)
    c.cov["rule"] = "random sessions over random databases, following, leaving and contradicting a known proof; after each command the complete proof state is compared with what the command stands for"


if __name__ == "__main__":
    check.main("P14", body)
