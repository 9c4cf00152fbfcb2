import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, extcases as E, mm, proofcases as pc


def body(c):
    exe = mm.build()
    n = c.scale(600, 8000)
    for part in range(0, n, 200):
        E.judge(c, exe, pc.pgen(E.make, pc.seeds(c, min(200, n - part))))
    c.cov["rule"] = ("databases with nested scopes, local variables, redundant disjointness and comments and headings anywhere; "
                     "every extract compared with the one the specification computes and read back by the program")


if __name__ == "__main__":
    check.main("P22", body)
