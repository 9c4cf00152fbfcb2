import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, mm, pacases as P, proofcases as pc


def make(seed):
    return P.make(seed, "auto")


def body(c):
    exe = mm.build()
    P.judge(c, exe, pc.pgen(make, pc.seeds(c, c.scale(1500, 18000))), {"improve", "replace", "match"}, n=20)
    c.cov["rule"] = "random sessions dominated by IMPROVE (all depths and searches), REPLACE and MATCH, over random databases; every state after them compared with the specification"


if __name__ == "__main__":
    check.main("P16", body)
