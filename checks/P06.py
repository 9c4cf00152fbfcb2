import os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, gen, mm, obs, proofcases as pc, readcases as rc


def make(seed):
    rng = random.Random(seed)
    k = rng.random()
    if k < .8:
        st = rc.frames_db(rng, rng.choice([10, 25, 50, 100]))
    else:
        st = pc.strip(pc.make_db(rng, rng.choice([3, 8])).stmts)
    return rc.case({"main.mm": rc.lay_out(rng, rc.tokens(st))})


def body(c):
    exe = mm.build()
    n = c.scale(400, 8000)
    cases = pc.pgen(make, pc.seeds(c, n))
    stat = {"assertions": 0, "hypotheses": 0, "pairs": 0}
    for k in range(0, n, 1000):
        part = cases[k:k + 1000]
        res = rc.run_reads(exe, part, extra=["show statement * /full"])
        recs, idx = [], []
        for x, r in zip(part, res):
            if r[0] is None:
                c.violation("the program died on a well-formed source (exit status %s)" % r[3], {"files": x["_text"], "output_tail": r[1]})
                continue
            lst = obs.show_full(r[2][0]) if r[0] else []
            for e in lst:
                if e["k"] in "ap":
                    stat["assertions"] += 1
                    stat["hypotheses"] += len(e["hyps"])
                    stat["pairs"] += len(e["dv"]) + len(e["odv"])
            recs.append({"files": x["files"], "main": x["main"], "ok": r[0], "list": lst})
            idx.append((x, r))
        reps = check.validate(c, "ReadTrace", recs)
        if len(reps) != len(recs):
            raise mm.NoAnswer("ReadTrace judged %d of %d" % (len(reps), len(recs)))
        c.traces(len(recs))
        for tag, i, ok, bad, why in reps:
            if not bad:
                c.count("databases")
            if tag == "REJECT":
                x, r = idx[i - 1]
                again = rc.run_reads(exe, [x], extra=["show statement * /full"], per=1)[0]
                if bad or not ok:
                    what = "READ %s a source the specification %s" % ("accepts" if ok else "rejects", "rejects" if bad else "accepts")
                else:
                    what = "the statement list or the frame shown for %s is not the one the specification derives" % why
                c.violation(what, {"files": x["_text"], "label": why, "output": r[2][0][:20000] if r[2] else r[1]})
    c.cov.update(stat)
    c.cov["rule"] = "random nested-scope databases (up to depth 5, redeclared variables, $d groups up to 5); every labelled statement and frame compared"
    for x in cases[:3]:
        c.sample(x["_text"]["main.mm"][:600])


if __name__ == "__main__":
    check.main("P06", body)
