import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, layoutcases as L, mm, proofcases as pc


def body(c):
    exe = mm.build()
    n = c.scale(1800, 24000)
    for k in range(0, n, 1200):
        cases = pc.pgen(L.make, pc.seeds(c, min(1200, n - k)))
        res = mm.pmap(lambda x: L.run(exe, x), cases)
        recs = []
        for x, bad in zip(cases, res):
            if bad:
                c.violation("%s while reformatting a source" % bad, {"files": x["files"], "rewrap": x["rewrap"], "width": x["width"], "log": x.get("_log", "")[-2000:]})
            else:
                recs.append(x)
        reps = check.validate(c, "LayoutTrace", [L.record(x) for x in recs])
        if len(reps) != len(recs):
            raise mm.NoAnswer("LayoutTrace judged %d of %d" % (len(reps), len(recs)))
        c.traces(len(recs))
        for x in recs:
            c.count("rewrapped" if x["rewrap"] else "formatted")
            c.count("with_inclusion", int("i.mm" in x["files"]))
            c.count("split_source_differs_in_white_space", int(x["e"] != x["b"]))
        for tag, i, why in reps:
            if tag == "REJECT":
                x = recs[i - 1]
                c.violation("the reformatted source is not the source: " + why, {
                    "files": x["files"], "rewrap": x["rewrap"], "width": x["width"], "written plainly": x["a"], "reformatted": x["b"], "problem": why})
    c.cov["rule"] = "random databases with comments, markup, long words, tabs and blank lines between all tokens, some with an inclusion; written plainly, reformatted, split, read back and compared piece by piece"
    for x in recs[:1]:
        c.sample({"source": x["a"][:1500], "reformatted": x["b"][:1500], "rewrap": x["rewrap"]})


if __name__ == "__main__":
    check.main("P19", body)
