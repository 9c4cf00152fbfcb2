import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, depcases as dc, mm, proofcases as pc


def body(c):
    exe = mm.build()
    n = c.scale(600, 8000)
    for k in range(0, n, 1000):
        cases = pc.pgen(dc.make, pc.seeds(c, min(1000, n - k)))
        res = mm.pmap(lambda x: dc.ask(exe, x), cases)
        recs = []
        for x, bad in zip(cases, res):
            if bad:
                c.violation(bad[0], {"source": x["_text"], "commands": x["_cmds"], "output": bad[1]})
            else:
                recs.append(x)
        reps = check.validate(c, "DepsTrace", [dc.record(x) for x in recs])
        if len(reps) != len(recs):
            raise mm.NoAnswer("DepsTrace judged %d of %d" % (len(reps), len(recs)))
        c.traces(len(recs))
        for x in recs:
            for q in x["q"]:
                c.count(q["t"])
        for tag, i, bad in reps:
            if tag == "REJECT":
                x = recs[i - 1]
                j = min(bad) - 1
                c.violation("wrong answer to: %s" % x["_cmds"][j], {"source": x["_text"], "command": x["_cmds"][j], "answer": x["q"][j]["_out"]})
    c.cov["rule"] = "random databases with arbitrary reference graphs and proof trees in normal and compressed form, with unknown steps, wrong proofs and comments inside proofs; every query's answer compared in full"
    for x in recs[:2]:
        c.sample({"commands": x["_cmds"][:6], "statements": len(x["stmts"])})


if __name__ == "__main__":
    check.main("P10", body)
