import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, mm, pacases as P, proofcases as pc


def make(seed):
    return P.make(seed, "shorten")


def body(c):
    exe = mm.build()
    P.judge(c, exe, pc.pgen(make, pc.seeds(c, c.scale(1300, 16000))), {"minimize", "expand"}, n=20)
    c.cov["rule"] = "random sessions dominated by MINIMIZE_WITH (all qualifiers, label patterns) and EXPAND, over random databases; every state after them compared with the specification"


if __name__ == "__main__":
    check.main("P17", body)
