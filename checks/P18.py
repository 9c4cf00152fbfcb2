import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, mm, proofcases as pc, sesscases as S


def marked(seed):
    return S.make(seed, marks=True)


def body(c):
    exe = mm.build()
    S.judge(c, exe, pc.pgen(marked, pc.seeds(c, c.scale(1800, 30000))), "guard", n=30)
    c.cov["rule"] = "random sessions on databases whose comments carry the discouragement marks, near misses of them, and marks in comments that describe nothing; every editing command with and without /OVERRIDE, the setting switched on and off"


if __name__ == "__main__":
    check.main("P18", body)
