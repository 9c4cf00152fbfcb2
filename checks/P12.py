import os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, mm, proofcases as pc, sesscases as S


def bare(seed):
    return S.make(seed, marks=False)


def body(c):
    exe = mm.build()
    r = check.model_check(c, "SessionGen", cfg="SessionGen.cfg" if not c.thorough else "SessionGenT.cfg")
    hists = [x[1] for x in r.reports() if x[0] == "HIST"]
    if not hists:
        raise mm.NoAnswer("SessionGen gave no histories")
    rng = random.Random(c.seed)
    rng.shuffle(hists)
    half = c.scale(3500, 45000) // 2
    left = [h for h in hists if any(a == "edit" and b[:4] == "exit" for a, b in zip(h, h[1:])) or ("edit" in h and "back" in h)]
    hists = left[:half] + [h for h in hists if h not in left][:2 * half - len(left[:half])] if len(hists) < 20000 else hists[:2 * half]
    rng.shuffle(hists)
    bases = pc.pgen(bare, pc.seeds(c, 60))
    c.count("enumerated_histories", len(hists))
    S.judge(c, exe, [dict(bases[i % len(bases)], _ops=h, seed=c.seed * 1000003 + i) for i, h in enumerate(hists)], "work")
    S.judge(c, exe, pc.pgen(S.make, pc.seeds(c, c.scale(700, 12000))), "work", n=30)
    S.judge(c, exe, pc.pgen(S.make, pc.seeds(c, c.scale(60, 1000))), "work", n=150)
    c.cov["rule"] = "all sessions of reading, proving, editing, saving, writing (also in vain), erasing and leaving up to a length, enumerated by TLC; and random sessions with every editing command, every answer and every way for the input to end; after each command mode, stored proofs, new proof and files are compared"


if __name__ == "__main__":
    check.main("P12", body)
