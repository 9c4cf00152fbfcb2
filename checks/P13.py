import os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, mm, pacases as P, proofcases as pc


def make(seed):
    return P.make(seed, "history")


def body(c):
    exe = mm.build()
    r = check.model_check(c, "UndoGen", cfg="UndoGen.cfg" if not c.thorough else "UndoGenT.cfg")
    hists = [x[1] for x in r.reports() if x[0] == "HIST"]
    if not hists:
        raise mm.NoAnswer("UndoGen gave no histories")
    rng = random.Random(c.seed)
    if not c.thorough:
        hists = rng.sample(hists, 700)
    elif len(hists) > 20000:
        hists = rng.sample(hists, 20000)
    bases = pc.pgen(make, pc.seeds(c, 40))
    cases = []
    for i, h in enumerate(hists):
        cases.append(dict(bases[i % len(bases)], _ops=h + ["undo", "redo"] * 2, seed=c.seed * 1000003 + i))
    c.count("enumerated_histories", len(cases))
    focus = {"undo", "redo", "setundo"}
    P.judge(c, exe, cases, focus)
    P.judge(c, exe, pc.pgen(make, pc.seeds(c, c.scale(700, 9000))), focus, n=30)
    c.cov["rule"] = "all histories of edits, undos, redos and changes of the limit up to a length, and random long sessions with every editing command; after each command the complete proof state (labels, formulas, LET STEPs) is compared"


if __name__ == "__main__":
    check.main("P13", body)
