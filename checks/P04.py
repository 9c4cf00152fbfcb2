import os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, formcases as fc, gen, mm, obs, proofcases as pc

HOW = [("/normal", "normal"), ("/packed", "packed"), ("/compressed", "compressed"), ("/explicit", "explicit"),
       ("/explicit/packed", "explicitpacked"), ("/compressed/fast", "compressed"), ("/packed/fast", "packed"),
       ("/explicit/packed/fast", "explicitpacked"), ("/compressed/old_compression", "compressed")]
SAVE = [("/normal", "normal"), ("/packed", "packed"), ("/compressed", "compressed"), ("/explicit", "explicit"),
        ("/explicit/packed", "explicitpacked"), ("/compressed/fast", "compressed"), ("/packed/fast", "packed"),
        ("/compressed/old_compression", "compressed")]


def make(seed):
    rng = random.Random(seed)
    if rng.random() < .05:
        db = pc.Wide(rng, rng.choice([18, 100, 119, 120, 121, 140, 160, 240, 640, rng.randint(21, 330)]))
    elif rng.random() < .2:
        db = pc.make_db(rng, 5, steps=(40, 100), maxlen=120, maxsize=500)
    else:
        db = pc.make_db(rng, rng.choice([6, 15]), steps=(8, 20, 40))
    for s in db.stmts:
        if s["k"] != "p":
            continue
        node = s["_node"]
        if rng.random() < .25:
            node = fc.holes(rng, node, rng.choice([.02, .1, .3]))
        how = rng.choice(["normal", "packed", "compressed", "compressed", "explicit", "explicitpacked"])
        if how == "compressed":
            mand = [h["l"] for h in db.frames[s["l"]]["hyps"]]
            ls, cs = gen.compress(node, mand, lambda l: l in db.frames, rng, share=rng.choice([0, .5, 1]),
                                  order=rng.choice([None, "shuffle"]))
            if "?" in ls:       # the tree compressor lists labels; an unknown step is a letter of its own
                s["pf"] = {"f": "t", "s": node.rpn()}
                s["_text"] = " ".join(node.rpn())
            else:
                s["pf"] = {"f": "c", "ls": ls, "cs": list(cs)}
                s["_text"] = gen.proof_text(s["pf"])
        else:
            t = fc.write_form(rng, node, db, s["l"], how)
            s["pf"] = {"f": "t", "s": t}
            s["_text"] = fc.glue(rng, t)
        if rng.random() < .12:
            s["pf"] = fc.spoil(rng, s["pf"], [x["l"] for x in db.stmts if x["k"] in "fea" and x["l"] != s["l"]] + [s["l"]])
            s["_text"] = gen.proof_text(s["pf"]) if s["pf"]["f"] == "c" else fc.glue(rng, s["pf"]["s"])
        s.pop("_node", None)
    return [dict(s) for s in db.stmts], rng.randrange(1 << 30)


def observe(exe, st, seed):
    rng = random.Random(seed)
    labels = [s["l"] for s in st if s["k"] == "p"]
    d = mm.scratch("pf-")
    with open(os.path.join(d, "db.mm"), "w") as f:
        f.write(fc.render(st))
    cmds, acts = ['read "db.mm"', "verify proof *"], [None, ("verify",)]

    def do(cmd, act=None):
        cmds.append(cmd)
        acts.append(act)

    def show(l, n):
        for q, how in rng.sample(HOW, n):
            do("show proof %s %s" % (l, q), ("show", l, how))
    for l in labels:
        show(l, 5)
    rounds = 2
    for r in range(rounds):
        do("set width %d" % rng.choice([79, 79, 50, 100, 200]))
        q, how = rng.choice(SAVE)
        hows = {}
        if rng.random() < .5:
            do("save proof * " + q)
            hows = {l: (how, "/fast" in q) for l in labels}
        else:
            for l in labels:
                q, how = rng.choice(SAVE)
                hows[l] = (how, "/fast" in q)
                do("save proof %s %s" % (l, q))
        do("set width 9999")
        for l in rng.sample(labels, min(3, len(labels))):
            show(l, 2)
        do("verify proof *", ("verify",))
        do("write source o%d.mm" % r, ("file", "o%d.mm" % r, hows))
        if rng.random() < .6:
            do("erase")
            do('read "o%d.mm"' % r, ("read",))
            do("verify proof *", ("verify",))
    do("exit")
    r = mm.session(exe, cmds, d, timeout=300)
    res = {"rc": r.rc, "tail": r.text[-600:], "obs": {l: [] for l in labels}, "verdicts": [], "bad": []}
    if r.rc != 0 or len(r.chunks) != len(cmds):
        res["died"] = "exit status %s after %d of %d commands: %s" % (r.rc, len(r.chunks), len(cmds), r.chunks[-1][1][-300:] if r.chunks else "")
        return res
    if not obs.read_ok(r.out(0)):
        res["bad"].append("the program rejected the source: " + r.out(0)[:500])
        return res
    for i, a in enumerate(acts):
        if a is None:
            continue
        o = r.out(i)
        if a[0] == "verify":
            res["verdicts"].append(obs.verify_verdicts(o, labels))
        elif a[0] == "read" and not obs.read_ok(o):
            res["bad"].append("the program rejected its own output: " + o[:500])
        elif a[0] == "show":
            pf = fc.shown(o)
            res["obs"][a[1]].append({"how": a[2], "fast": "/fast" in cmds[i], "shown": pf is not None, "file": False,
                                     "pf": pf or {"f": "t", "s": []}, "cmd": cmds[i]})
        elif a[0] == "file":
            p = os.path.join(d, a[1])
            ps = fc.proofs_of_source(open(p, encoding="latin-1").read()) if os.path.exists(p) else {}
            for s in st:
                if s["k"] == "p":
                    l = s["l"]
                    if l not in ps or ps[l][0] != s["m"]:
                        res["bad"].append("theorem %s lost or altered in the written source" % l)
                    else:
                        res["obs"][l].append({"how": a[2][l][0], "fast": a[2][l][1], "shown": True, "file": True, "pf": ps[l][1],
                                                   "cmd": "write source (" + a[2][l][0] + ")"})
    return res


def body(c):
    exe = mm.build()
    n = c.scale(240, 2400)
    for part in range(0, n, 100):
        dbs = pc.pgen(make, pc.seeds(c, min(100, n - part)))
        recs = mm.pmap(lambda x: observe(exe, *x), dbs)
        cases, idx = [], []
        for (st, seed), r in zip(dbs, recs):
            rep = {"database": fc.render(st), "session_seed": seed}
            if "died" in r:
                c.violation("re-encoding session died: " + r["died"], dict(rep, output_tail=r["tail"]))
                continue
            for b in r["bad"]:
                c.violation(b, rep)
            vs = r["verdicts"]
            for v in vs[1:]:
                for l in v:
                    if v[l] != vs[0][l]:
                        c.violation("the verdict on %s changed from %s to %s by re-encoding its proof" % (l, vs[0][l], v[l]), rep)
            if not vs:
                continue
            cases.append({"db": pc.strip(st), "obs": r["obs"], "said": vs[0]})
            idx.append((st, seed, vs[0]))
        reps = check.validate(c, "FormTrace", cases)
        want = sum(len(o) + 1 for x in cases for o in x["obs"].values())
        if len(reps) != want:
            raise mm.NoAnswer("FormTrace judged %d of %d texts" % (len(reps), want))
        for tag, d, l, k, v in reps:
            if k == 0:
                st, seed, v0 = idx[d - 1]
                c.count("verdict_" + v)
                if tag == "ACCEPT":
                    c.traces(1)
                else:
                    c.violation("VERIFY PROOF says %s about the written proof of %s, which is %s" % (v0[l], l, v),
                                {"database": fc.render(st), "session_seed": seed, "label": l})
                continue
            c.count("text_" + v.replace(" ", "_"))
            st, seed, v0 = idx[d - 1]
            o = cases[d - 1]["obs"][l][k - 1]
            if tag == "ACCEPT":
                c.traces(1)
                c.count("form_" + o["how"])
                if v0[l] == "error":
                    c.count("input_proof_wrong")
            else:
                c.violation("%s of %s: the proof text is %s (expected a %s proof with the steps of the original)" % (
                    o["cmd"], l, v, o["how"]), {"database": fc.render(st), "session_seed": seed, "label": l, "text": o["pf"]})
    c.sample(fc.render_stmt([s for s in dbs[0][0] if s["k"] == "p"][0]))
    c.cov["rule"] = "random theorems (a quarter with unknown steps) written in a random form, shown in five random forms, then twice saved in random forms, written to a source and read back"


check.main("P04", body)
