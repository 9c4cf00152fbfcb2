import os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, gen, mm, obs, proofcases as pc, readcases as rc


def make(seed):
    rng = random.Random(seed)
    k = rng.random()
    if k < .5:
        db = pc.make_db(rng, rng.choice([2, 4, 8]), steps=(3, 8))
        if rng.random() < .5:
            pc.bad_theorems(rng, db, .4)
        if rng.random() < .5:
            pc.compress_all(rng, db, .7)
        st = pc.strip(db.stmts)
    else:
        st = rc.frames_db(rng, rng.choice([8, 20, 40]))
    toks = rc.tokens(st)
    toks = rc.comment_in(rng, toks, rng.choice([0, 1, 5, 20]))
    files = rc.split_files(rng, toks) if rng.random() < .8 else {"main.mm": toks}
    if rng.random() < .15:      # something wrong with the inclusions or comments
        f = rng.choice(list(files))
        t = files[f]
        i = rng.randrange(len(t) + 1)
        k = rng.randrange(4)
        if k == 0:
            t[i:i] = ["$[", "missing.mm", "$]"]
        elif k == 1:
            t[i:i] = [rng.choice(["$)", "$]", "$(", "$["])]
        elif k == 2:
            j = [x for x in range(len(t)) if t[x] in ("$]", "$)", "$(", "$[")]
            if j:
                del t[rng.choice(j)]
        elif len(files) > 1:
            del files[rng.choice([n for n in files if n != "main.mm"])]
    return rc.case({n: rc.lay_out(rng, t) for n, t in files.items()})


EXTRA = ["show statement * /full", "verify proof *"]


def body(c):
    exe = mm.build()
    n = c.scale(500, 8000)
    cases = pc.pgen(make, pc.seeds(c, n))
    for k in range(0, n, 1000):
        part = cases[k:k + 1000]
        res = rc.run_reads(exe, part, extra=EXTRA)
        recs, idx = [], []
        for x, r in zip(part, res):
            if r[0] is None:
                c.violation("the program died reading a source with comments or inclusions (exit status %s)" % r[3],
                            {"files": x["_text"], "output_tail": r[1]})
                continue
            rec = {"files": x["files"], "main": x["main"], "ok": r[0], "list": obs.show_full(r[2][0]) if r[0] else []}
            if r[0]:
                ths = [e["l"] for e in rec["list"] if e["k"] == "p"]
                rec["vd"] = obs.verify_verdicts(r[2][1], ths) or {"": "ok"}
                if not ths:
                    del rec["vd"]
            recs.append(rec)
            idx.append((x, r))
        reps = check.validate(c, "ReadTrace", recs)
        if len(reps) != len(recs):
            raise mm.NoAnswer("ReadTrace judged %d of %d" % (len(reps), len(recs)))
        c.traces(len(recs))
        for tag, i, ok, bad, why in reps:
            c.count("rejected_sources" if bad else "accepted_sources")
            x, r = idx[i - 1]
            if not bad:
                c.count("files", len(x["files"]))
            if tag == "REJECT":
                again = rc.run_reads(exe, [x], extra=EXTRA, per=1)[0]
                if bad or not ok:
                    what = "READ %s a source the specification %s" % ("accepts" if ok else "rejects", "rejects (%s)" % bad if bad else "accepts")
                else:
                    what = "with comments and inclusions the program does not see the flattened database (%s differs)" % why
                c.violation(what, {"files": x["_text"], "differs": why, "output": [r[1][-1500:]] + r[2], "read_alone": again[0]})
    c.cov["rule"] = "databases with proofs cut into up to 4 levels of included files at arbitrary tokens, repeated and self inclusions, comments at arbitrary tokens; statements, frames and verdicts compared with the flattened source"
    for x in cases[:3]:
        c.sample(x["_text"]["main.mm"][:600])


if __name__ == "__main__":
    check.main("P07", body)
