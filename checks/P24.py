import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, mm, toolcases as G


def body(c):
    exe = mm.build()
    r = check.model_check(c, "ToolLaws", cfg="ToolLawsT" if c.thorough else "ToolLaws")
    files = [x[1] for x in r.reports() if x[0] == "FILE"]
    cmds = [x[1] for x in r.reports() if x[0] == "CMDS"][0]
    jobs = [(f, cmds[i:i + 25]) for f in files for i in range(0, len(cmds), 25)]
    for part in range(0, len(jobs), 800):
        G.judge(c, mm.pmap(lambda x: G.small(exe, *x), jobs[part:part + 800]))
    G.judge(c, mm.pmap(lambda x: G.huge(exe, x), [c.rng.randrange(1 << 40) for _ in range(c.scale(16, 100))]))
    n = c.scale(400, 8000)
    for part in range(0, n, 1000):
        s = [c.rng.randrange(1 << 40) for _ in range(min(1000, n - part))]
        G.judge(c, mm.pmap(lambda x: G.one(exe, x), s))
    c.cov["rule"] = "random sessions of 14 commands on two or three files and their versions"


if __name__ == "__main__":
    check.main("P24", body)
