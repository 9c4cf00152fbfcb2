import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, mm, scriptcases as G, proofcases as pc


def body(c):
    exe = mm.build()
    n = c.scale(1500, 24000)
    for part in range(0, n, 800):
        G.judge(c, exe, pc.pgen(G.make, pc.seeds(c, min(800, n - part))))
    c.cov["rule"] = "random sessions of typed lines, answers, program arguments and nested command files; screen and logs compared with the specification's"


if __name__ == "__main__":
    check.main("P23", body)
