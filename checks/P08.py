import os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, mm, proofcases as pc, writecases as wc


def body(c):
    exe = mm.build()
    n = c.scale(2400, 20000)
    for k in range(0, n, 1000):
        cases = pc.pgen(wc.make, pc.seeds(c, min(1000, n - k)))
        res = mm.pmap(lambda x: wc.run(exe, x), cases)
        recs = []
        for x, bad in zip(cases, res):
            if bad:
                c.violation("%s reading and writing a source" % bad, {"files": {f: wc.show(p) for f, p in x["dir"]}, "steps": x["steps"]})
            else:
                recs.append(x)
        reps = check.validate(c, "WriteTrace", [{"dir": x["dir"], "steps": [{k: v for k, v in s.items() if k[0] != "_"} for s in x["steps"]]} for x in recs])
        if len(reps) != len(recs):
            raise mm.NoAnswer("WriteTrace judged %d of %d" % (len(reps), len(recs)))
        c.traces(len(recs))
        c.count("sessions", sum(len(x["steps"]) for x in recs))
        c.count("writes", sum(len(s["writes"]) for x in recs for s in x["steps"]))
        c.count("refused_reads", sum(1 for x in recs for s in x["steps"] if not s["_read"]))
        c.count("cut_short_by_invalid_database", sum(1 for x in recs if x.get("cut")))
        for tag, i, st, why in reps:
            if tag == "REJECT":
                x = recs[i - 1]
                c.violation("session %d differs in: %s" % (st, why), {"files": {f: wc.show(p) for f, p in x["dir"]}, "steps": x["steps"]})
    c.cov["rule"] = "random source trees (nested, repeated and already expanded inclusions, CR line ends, missing final newlines) read, then written whole or split once or twice, up to three sessions in the same directory; every file compared byte for byte"
    for x in recs[:2]:
        c.sample({"files": [f for f, _ in x["dir"]], "steps": [s["_cmds"] for s in x["steps"]]})


if __name__ == "__main__":
    check.main("P08", body)
