import os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, gen, mm, proofcases as pc, readcases as rc


def make(seed):
    rng = random.Random(seed)
    st = rc.frames_db(rng, rng.choice([8, 15, 30, 60]))
    k = rng.random()
    chars = False
    if k < .45:
        toks = rc.tokens(rc.edit_symbols(rng, st))
    elif k < .75:
        toks = rc.edit_tokens(rng, rc.tokens(st))
    elif k < .9:
        toks, chars = rc.tokens(st), True
        toks = rc.comment_in(rng, toks, 2)
    else:
        toks = rc.tokens(st)
    return rc.case({"main.mm": rc.lay_out(rng, toks, chars)})


def judge(c, exe, cases, what):
    res = rc.run_reads(exe, cases)
    recs, idx = [], []
    for x, r in zip(cases, res):
        if r[0] is None:
            c.violation("%s: READ did not finish normally (exit status %s)" % (what, r[3]),
                        {"files": x["_text"], "output_tail": r[1]})
            continue
        recs.append({"files": x["files"], "main": x["main"], "ok": r[0]})
        idx.append((x, r))
    reps = check.validate(c, "ReadTrace", recs)
    if len(reps) != len(recs):
        raise mm.NoAnswer("ReadTrace judged %d of %d" % (len(reps), len(recs)))
    c.traces(len(recs))
    for tag, n, ok, bad, why in reps:
        c.count("accepted" if not bad else "rejected_by_rule")
        for b in bad:
            c.cov.setdefault("rules", {})[b] = c.cov.setdefault("rules", {}).get(b, 0) + 1
        if tag == "REJECT":
            x, r = idx[n - 1]
            again = rc.run_reads(exe, [x], per=1)[0]
            c.violation("%s: READ %s a source that the specification %s" % (
                what, "accepts" if ok else "rejects", "rejects (%s)" % ", ".join(bad) if bad else "accepts"),
                {"files": x["_text"], "broken_rules": bad, "output": r[1][-1500:], "read_alone": again[0]})


def exhaustive(c, exe, cfg):
    r = check.model_check(c, "ReadGen", cfg=cfg)
    reps = [x for x in r.reports() if x[0] == "CASE"]
    reps.sort(key=lambda x: x[1])
    cases = [rc.case({"main.mm": " ".join(x[1]) + "\n"}) for x in reps]
    c.count("exhaustive_sources", len(cases))
    res = rc.run_reads(exe, cases, per=200)
    c.traces(len(cases))
    n = 0
    for x, y, z in zip(reps, cases, res):
        if z[0] is None or z[0] != x[2]:
            n += 1
            if n > 5:
                break
            c.violation("every short source (%s): specification says %s, READ says %s" % (
                cfg, "accept" if x[2] else "reject", {True: "accept", False: "reject", None: "(died)"}[z[0]]),
                {"files": y["_text"], "output": z[1][-1500:]})


def body(c):
    exe = mm.build()
    n = c.scale(900, 16000)
    cases = pc.pgen(make, pc.seeds(c, n))
    for k in range(0, n, 2000):
        judge(c, exe, cases[k:k + 2000], "random sources")
    for cfg in (["ReadGenS.cfg", "ReadGenT.cfg"] if not c.thorough else ["ReadGenST.cfg", "ReadGenTT.cfg"]):
        exhaustive(c, exe, cfg)
    c.cov["rule"] = "random sources, 90% edited at one or two places; every short statement sequence and token sequence of two alphabets"
    for x in cases[:3]:
        c.sample(x["_text"]["main.mm"][:600])


if __name__ == "__main__":
    check.main("P05", body)
