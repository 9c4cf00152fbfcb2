import itertools, os, random, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, depcases as dc, mm, proofcases as pc


def wild(c, exe):
    """Every pattern TLC enumerates, asked in a database with every short label."""
    r = check.model_check(c, "LabelGen", cfg="LabelGenT.cfg" if c.thorough else "LabelGen.cfg")
    cases = sorted((x[1], set(x[2])) for x in r.reports() if x[0] == "CASE" and x[1] != "?")
    k = 6 if c.thorough else 4
    labs = ["".join(w) for n in range(1, k + 1) for w in itertools.product("ab", repeat=n)]
    random.Random(c.seed).shuffle(labs)
    src = "$c w $.\n" + "".join("%s $a w $.\n" % l for l in labs)
    d = mm.scratch("lab-")
    with open(os.path.join(d, "db.mm"), "w") as f:
        f.write(src)

    def part(cs):
        r = mm.session(exe, ["read db.mm"] + ["show labels %s /linear" % p for p, _ in cs] + ["exit"], d, timeout=300)
        return [r.rc] + [r.out(i + 1) if i + 1 < len(r.chunks) else "?" for i in range(len(cs))]
    parts = [cases[i::8] for i in range(8)]
    for cs, outs in zip(parts, mm.pmap(part, parts)):
        if outs[0] != 0:
            c.violation("the program died (%s)" % outs[0], {"source": src, "commands": ["show labels " + p for p, _ in cs]})
        for (p, want), out in zip(cs, outs[1:]):
            got = re.findall(r"^\d+ (\S+) \$a$", out, re.M)
            if set(got) != want or len(got) != len(want):
                c.violation("wrong labels for pattern %s" % p, {"source": src, "command": "show labels %s /linear" % p, "wanted": sorted(want), "got": got})
    c.count("exhaustive_patterns", len(cases))


def body(c):
    exe = mm.build()
    wild(c, exe)
    n = c.scale(1500, 20000)
    for k in range(0, n, 1500):
        cases = pc.pgen(dc.make_find, pc.seeds(c, min(1500, n - k)))
        res = mm.pmap(lambda x: dc.ask_find(exe, x), cases)
        recs = []
        for x, bad in zip(cases, res):
            if bad:
                c.violation(bad[0], {"source": x["_text"], "commands": x["_cmds"], "output": bad[1]})
            else:
                recs.append(x)
        reps = check.validate(c, "FindTrace", [dc.record_find(x) for x in recs])
        if len(reps) != len(recs):
            raise mm.NoAnswer("FindTrace judged %d of %d" % (len(reps), len(recs)))
        c.traces(len(recs))
        for x in recs:
            for q in x["q"]:
                c.count(q["t"])
        for tag, i, bad in reps:
            if tag == "REJECT":
                x = recs[i - 1]
                j = min(bad) - 1
                c.violation("wrong answer to: %s" % x["_cmds"][j], {"source": x["_text"], "commands": x["_cmds"][:j + 1], "answer": x["q"][j]["_out"]})
    c.cov["rule"] = "random databases; random label matches of every form, symbol patterns derived from formulas, comment strings; answers compared in full and in order"
    for x in recs[:2]:
        c.sample({"commands": x["_cmds"][:6], "statements": len(x["stmts"])})


if __name__ == "__main__":
    check.main("P11", body)
