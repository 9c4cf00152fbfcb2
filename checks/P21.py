import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, mm, pagecases as G, proofcases as pc


def body(c):
    exe = mm.build()
    n = c.scale(170, 2600)
    for part in range(0, n, 200):
        G.judge(c, exe, pc.pgen(G.make, pc.seeds(c, min(200, n - part))))
    for part in range(0, 8 if c.thorough else 1):       # assertions that very many theorems refer to
        G.judge(c, exe, pc.pgen(G.make_crowded, pc.seeds(c, 7)))
    c.cov["rule"] = "random databases with comments and typesetting; every page written compared with the page the specification computes"


if __name__ == "__main__":
    check.main("P21", body)
