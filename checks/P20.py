import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, listcases as L, mm, pacases as P, proofcases as pc


def make_new(seed):
    return P.make(seed, ["mixed", "wander", "auto"][seed % 3])


def body(c):
    exe = mm.build()
    n = c.scale(200, 3000)
    for part in range(0, n, 200):
        L.judge(c, exe, pc.pgen(L.make, pc.seeds(c, min(200, n - part))))
    n = c.scale(240, 4000)
    for part in range(0, n, 400):
        L.judge_new(c, exe, pc.pgen(make_new, pc.seeds(c, min(400, n - part))))
    c.cov["rule"] = ("stored proofs in every form and proofs being written, complete or not, listed under random combinations of "
                     "qualifiers; every row compared with the listing the specification computes")


if __name__ == "__main__":
    check.main("P20", body)
