import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, markcases as M, mm, proofcases as pc


def body(c):
    exe = mm.build()
    n = c.scale(900, 12000)
    for k in range(0, n, 900):
        cases = pc.pgen(M.make, pc.seeds(c, min(900, n - k)))
        groups, i = [], 0
        while i < len(cases):
            m = c.rng.choice([1, 1, 2, 3])
            groups.append(cases[i:i + m])
            i += m
        ran = mm.pmap(lambda g: M.run(exe, g), groups)
        done = []
        for g, bad in zip(groups, ran):
            if bad:
                c.violation("%s while auditing a database" % bad, {"databases": ["\n".join(x["lines"]) for x in g], "commands": [[M.command(q) for q in x["qs"]] for x in g]})
            else:
                done += g
        reps = check.validate(c, "MarkupTrace", [M.record(x) for x in done])
        want = sum(len(x["qs"]) for x in done)
        if len(reps) != want:
            raise mm.NoAnswer("MarkupTrace judged %d of %d" % (len(reps), want))
        c.traces(want)
        for x in done:
            for q in x["qs"]:
                c.count("clean" if q["clean"] else "with_findings")
                for f in q["said"]:
                    c.count("finding_" + f[0].replace(" ", "_"))
        for tag, i, j, missing, invented, _ in reps:
            if tag == "REJECT":
                x = done[i - 1]
                q = x["qs"][j - 1]
                c.violation("%s: %s" % (M.command(q), "not reported: %s" % missing if missing else "reported without reason: %s" % invented if invented
                                        else "a finding twice, or wrongly clean"),
                            {"database": "\n".join(x["lines"]), "width": x["width"], "command": M.command(q), "missing": missing, "invented": invented, "output": q["_out"]})
    c.cov["rule"] = "random databases that keep and break the conventions (labels, symbols, lines, tags and dates, marks, axiom twins, mathboxes), several per session, each audited three times with random patterns and qualifiers"
    for x in done[:1]:
        c.sample({"database": "\n".join(x["lines"])[:1500], "command": M.command(x["qs"][0]), "output": x["qs"][0]["_out"][:1500]})


if __name__ == "__main__":
    check.main("P25", body)
