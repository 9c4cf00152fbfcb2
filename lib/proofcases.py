"""Databases full of right and wrong proofs, run through the real verifier, judged by ProofTrace.tla."""
import os, re
from . import gen, mm, obs
from .check import validate


def mutate(rng, db, s, toks, labels):
    """One random edit of a normal-format proof or of the statement it proves."""
    k = rng.randrange(9)
    t = list(toks)
    if k == 0:
        t[rng.randrange(len(t))] = rng.choice(labels)
    elif k == 1:
        del t[rng.randrange(len(t))]
    elif k == 2:
        t.insert(rng.randrange(len(t) + 1), rng.choice(labels))
    elif k == 3 and len(t) > 1:
        i, j = rng.sample(range(len(t)), 2)
        t[i], t[j] = t[j], t[i]
    elif k == 4:
        t[rng.randrange(len(t))] = "?"
    elif k == 5:
        m = s["m"]
        i = rng.randrange(len(m))
        pool = db.consts + db.avail()
        m[i] = rng.choice(pool if i else db.consts)
    elif k == 6:
        m = s["m"]
        if len(m) > 2:
            del m[rng.randrange(1, len(m))]
    elif k == 7:
        # same kind of label: another hypothesis or another assertion with as many hypotheses
        i = rng.randrange(len(t))
        l = t[i]
        if l in db.frames:
            n = len(db.frames[l]["hyps"])
            c = [x for x in db.frames if len(db.frames[x]["hyps"]) == n]
        else:
            c = [x for x in labels if x not in db.frames]
        if c:
            t[i] = rng.choice(c)
    else:
        m = s["m"]
        vs = [i for i in range(1, len(m)) if m[i] in db.vtype]
        if vs:
            i = rng.choice(vs)
            c = [v for v in db.vtype if db.vtype[v] == db.vtype[m[i]] and v in db.fhyp]
            if c:
                m[i] = rng.choice(c)
    return t


def make_db(rng, nthm, steps=(3, 8, 20, 40), drop_d=(0, 0, .3), **kw):
    """One database with nthm theorems; returns (db, statements)."""
    while True:
        try:
            db = gen.Db(rng, nvars=rng.randint(2, 4),
                        tcs=rng.choice([("wff",), ("wff", "class"), ("wff", "class", "setvar")]),
                        nsyn=rng.randint(1, 3), nax=rng.randint(2, 6), empties=rng.random() < .3,
                        maxd=rng.randint(2, 4))
            break
        except (IndexError, RecursionError):
            continue
    done = 0
    tries = 0
    while done < nthm and tries < nthm * 8:
        tries += 1
        r = db.theorem(steps=rng.choice(steps), drop_d=rng.choice(drop_d), twin=.2, **kw)
        if r is None:
            continue
        s, node = r
        done += 1
        toks = node.rpn()
        s["pf"] = {"f": "n", "s": toks}
        s["_node"] = node
    return db


class Wide:
    """A database with one theorem whose proof uses very many labels (numbers of several letters)."""

    def __init__(self, rng, k):
        self.stmts, self.frames, self.order, self.vtype = [], {}, [], {}
        self.consts = ["|-", "T"]
        m = ["|-", "T"]
        self.stmts.append({"k": "c", "l": "", "m": list(self.consts)})
        leaves = ["a%d" % i for i in range(k)]
        for l in leaves:
            self.put("a", l, m, [])
        self.stmts.append({"k": "{", "l": "", "m": []})
        hy = [{"k": "e", "l": l, "m": list(m)} for l in ("e1", "e2")]
        self.stmts += [dict(h) for h in hy]
        self.put("a", "bin", m, hy)
        th = rng.random() < .5
        if not th:
            self.stmts.append({"k": "}", "l": "", "m": []})
        x = leaves + [rng.choice(leaves) for _ in range(rng.randint(0, 6))] + (["e1", "e2", "e1"] if th else [])
        rng.shuffle(x)

        def tree(a):
            if len(a) == 1:
                return gen.Node(a[0], [], m)
            i = rng.randint(1, len(a) - 1) if len(a) < 12 else len(a) // 2
            return gen.Node("bin", [tree(a[:i]), tree(a[i:])], m)
        y = tree(x)
        sub = tree(rng.sample(leaves, 3))
        for _ in range(2):
            y = gen.Node("bin", [sub, gen.Node("bin", [y, sub], m)], m)
        s = self.put("p", "wide", m, hy if th else [])
        s["pf"], s["_node"] = {"f": "n", "s": y.rpn()}, y
        if th:
            self.stmts.append({"k": "}", "l": "", "m": []})
        self.used = {s["l"] for s in self.stmts}

    def put(self, k, l, m, hyps):
        s = {"k": k, "l": l, "m": list(m)}
        self.stmts.append(s)
        self.frames[l] = {"m": list(m), "hyps": hyps, "vars": set(), "dv": [], "pos": len(self.order), "k": k}
        self.order.append(l)
        return s


def bad_theorems(rng, db, rate):
    """Mutate the proofs of a share of the theorems, in place (statements keep their frames' labels)."""
    all_labels = [s["l"] for s in db.stmts if s["l"]]
    for s in db.stmts:
        if s["k"] == "p" and rng.random() < rate:
            t = s["pf"]["s"]
            loc = local_labels(db.stmts, s)
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                t = mutate(rng, db, s, t, loc if rng.random() < .8 else all_labels)
                if not t:
                    break
            s["pf"] = {"f": "n", "s": t}
            s.pop("_node", None)


def local_labels(stmts, target):
    """Labels usable near the target statement (rough: everything earlier)."""
    out = []
    for s in stmts:
        if s["l"]:
            out.append(s["l"])
        if s is target:
            break
    return out


def strip(stmts):
    return [{k: v for k, v in s.items() if not k.startswith("_")} for s in stmts]


def fix(stmts):
    """Make proofs uniform records for TLC."""
    out = []
    for s in strip(stmts):
        if s["k"] == "p" and s["pf"]["f"] == "c":
            s = dict(s)
            s["pf"] = {"f": "c", "ls": s["pf"]["ls"], "cs": list(s["pf"]["cs"])}
        out.append(s)
    return out


def run_verify(exe, text, labels, cmds=("verify proof *",), fname="db.mm"):
    d = mm.scratch("pv-")
    with open(os.path.join(d, fname), "w") as f:
        f.write(text)
    r = mm.session(exe, ['read "%s"' % fname, *cmds, "exit"], d, timeout=300)
    return r


def observe(exe, stmts, single=None):
    """(read accepted?, verdicts, raw text) for one database."""
    labels = [s["l"] for s in stmts if s["k"] == "p"]
    cmds = ["verify proof *"] if single is None else ["verify proof %s" % l for l in single]
    r = run_verify(exe, gen.render(stmts), labels, cmds)
    if r.rc != 0 or len(r.chunks) < 2:
        return None, {}, r
    return obs.read_ok(r.out(0)), obs.verify_verdicts(r.out(1), labels), r


def judge(c, exe, dbs, what):
    """Run all databases through the program and TLC; report violations."""
    recs = mm.pmap(lambda st: observe(exe, st), dbs)
    cases, idx, texts = [], [], []
    for st, (ok, v, r) in zip(dbs, recs):
        if ok is None:
            c.violation("%s: the program died (exit status %s) on a database" % (what, r.rc),
                        {"database": gen.render(st), "output_tail": r.text[-500:]})
            continue
        if not ok:
            c.count("databases_not_accepted")
            c.violation("%s: a well-formed database was rejected by READ" % what,
                        {"database": gen.render(st), "output": r.out(0)[-1500:]})
            continue
        cases.append({"db": fix(st), "obs": v})
        idx.append(st)
        texts.append(r.out(1))
    if not cases:
        return {}
    reps = validate(c, "ProofTrace", cases)
    want = sum(len(x["obs"]) for x in cases)
    if len(reps) != want:
        raise mm.NoAnswer("ProofTrace judged %d of %d theorems" % (len(reps), want))
    c.traces(want)
    stat = {}
    spec = {}
    for tag, d, l, ver, ob in reps:
        spec.setdefault(d, {})[l] = ver
        stat[ver] = stat.get(ver, 0) + 1
        if tag == "REJECT":
            st = idx[d - 1]
            again = observe(exe, st)
            c.violation("%s: theorem %s is %s by the specification but the program says %s" % (what, l, ver, ob),
                        {"database": gen.render(st), "label": l, "spec": ver, "program": ob, "read_again": again[1].get(l)})
    for d, vs in (spec.items() if c.pid == "P01" else ()):       # the closing line: all verified exactly when all are
        said = "All proofs in the database were verified" in texts[d - 1]
        if "any" not in vs.values() and said != all(x == "ok" for x in vs.values()):
            kinds = [k for k in LATE if k in texts[d - 1]]
            others = [e for e in re.split(r"(?=\?Error )", texts[d - 1])[1:] if not any(k in " ".join(e.split()) for k in LATE)]
            known = said and kinds and not others and "were not proved" not in texts[d - 1]
            c.violation("%s: the closing line says all proofs were verified is %s although %s%s" % (
                what, said, {x: sum(1 for y in vs.values() if y == x) for x in set(vs.values())},
                " (errors found only by " + "late checks: distinct variables, final result or ambiguity)" if known else ""),
                {"database": gen.render(idx[d - 1]), "spec": vs, "said_all_verified": said})
    return stat


LATE = ["disjoint variable ($d) violation", "does not match the statement being proved", "is not unique"]


# --- replaying exhaustive behaviours produced by TLC ----------------------------------------
def replay_batch(c, exe, prefix, cases, suffix, what):
    """cases: [(statements-before-the-theorem, theorem statement, statements-after, verdict)].
    All theorems of a batch live in one file; the program's verdict on each must be the model's."""
    size = max(1, (len(cases) + 7) // 8)
    parts = [cases[i:i + size] for i in range(0, len(cases), size)]

    def one(part):
        st = list(prefix)
        for n, (pre, th, post, ver) in enumerate(part):
            st += pre
            st.append(dict(th, l="T%d" % n))
            st += post
        st += suffix
        return observe(exe, st) + (st,)

    bad = 0
    for part, (ok, v, r, st) in zip(parts, mm.pmap(one, parts)):
        if ok is None:
            c.violation("%s: the program died (exit status %s)" % (what, r.rc),
                        {"database": gen.render(st)[:20000], "output_tail": r.text[-500:]})
            continue
        if not ok:
            c.violation("%s: a well-formed database was rejected by READ" % what,
                        {"database": gen.render(st)[:20000], "output": r.out(0)[-1500:]})
            continue
        for n, (pre, th, post, ver) in enumerate(part):
            got = v["T%d" % n]
            c.traces(1)
            if got == ver or (ver == "any" and got in ("error", "incomplete")):
                continue
            bad += 1
            if bad <= 5:
                one_st = list(prefix) + pre + [dict(th, l="T0")] + post + suffix
                again = observe(exe, one_st)
                c.violation("%s: specification says %s, program says %s" % (what, ver, got),
                            {"database": gen.render(one_st), "label": "T0", "spec": ver, "program": got,
                             "alone": again[1].get("T0")})


def exhaustive_steps(c, exe, cfg):
    """Every step sequence of ProofGen under cfg."""
    from .check import model_check
    r = model_check(c, "ProofGen", cfg=cfg)
    reps = r.reports()
    stmts = [x[1] for x in reps if x[0] == "DB"][0]
    i = [k for k, s in enumerate(stmts) if s["k"] == "p"][0]
    th = stmts[i]
    cases = [([], dict(th, pf={"f": "n", "s": x[1]}), [], x[2]) for x in reps if x[0] == "CASE"]
    cases.sort(key=lambda x: x[1]["pf"]["s"])
    c.count("exhaustive_step_sequences", len(cases))
    replay_batch(c, exe, stmts[:i], cases, stmts[i + 1:], "every step sequence (%s)" % cfg)
    return cases


def exhaustive_dv(c, exe, cfg):
    from .check import model_check
    r = model_check(c, "DvGen", cfg=cfg)
    reps = r.reports()
    pre = [x[1] for x in reps if x[0] == "DB"][0]
    cases = []
    for x in reps:
        if x[0] == "CASE":
            th = x[1]
            i = [k for k, s in enumerate(th) if s["k"] == "p"][0]
            cases.append((th[:i], dict(th[i], pf={"f": "n", "s": x[2]}), th[i + 1:], x[3]))
    c.count("exhaustive_distinct_variable_cases", len(cases))
    replay_batch(c, exe, pre, cases, [], "every distinct-variable case (%s)" % cfg)
    return cases


# --- parallel generation -----------------------------------------------------------------------
def pgen(fn, seeds):
    """Run fn(seed) for every seed in worker processes."""
    from multiprocessing import get_context
    with get_context("fork").Pool(8) as p:
        return p.map(fn, seeds, chunksize=1)


def seeds(c, n):
    return [c.rng.randrange(1 << 48) for _ in range(n)]


def exhaustive_codec(c, exe, cfg):
    from .check import model_check
    r = model_check(c, "CodecGen", cfg=cfg)
    reps = r.reports()
    db = [x for x in reps if x[0] == "DB"][0]
    cases = [([], dict(db[1][-1], pf={"f": "c", "ls": db[2], "cs": x[1]}), [], x[2]) for x in reps if x[0] == "CASE"]
    cases.sort(key=lambda x: x[1]["pf"]["cs"])
    c.count("exhaustive_letter_strings", len(cases))
    replay_batch(c, exe, db[1][:-1], cases, [], "every letter string (%s)" % cfg)


def compress_all(rng, db, rate=1.0):
    """Turn proofs that still have their tree into compressed form (in place)."""
    for s in db.stmts:
        if s["k"] == "p" and "_node" in s and rng.random() < rate:
            mand = [h["l"] for h in db.frames[s["l"]]["hyps"]]
            ls, cs = gen.compress(s["_node"], mand, lambda l: l in db.frames, rng, share=rng.choice([0, .5, 1, 1]),
                                  order=rng.choice([None, "shuffle"]))
            s["pf"] = {"f": "c", "ls": ls, "cs": list(cs)}


def mutate_compressed(rng, s, labels):
    pf = s["pf"]
    ls, cs = list(pf["ls"]), list(pf["cs"])
    k = rng.randrange(10)
    if k == 0 and cs:
        cs[rng.randrange(len(cs))] = rng.choice("ABCDETUVWXYZ?")
    elif k == 1 and cs:
        del cs[rng.randrange(len(cs))]
    elif k == 2:
        cs.insert(rng.randrange(len(cs) + 1), rng.choice("ABCDTUVYZ?"))
    elif k == 3 and ls:
        ls[rng.randrange(len(ls))] = rng.choice(labels)
    elif k == 4 and ls:
        del ls[rng.randrange(len(ls))]
    elif k == 5:
        ls.insert(rng.randrange(len(ls) + 1), rng.choice(labels))
    elif k == 6 and len(ls) > 1:
        i, j = rng.sample(range(len(ls)), 2)
        ls[i], ls[j] = ls[j], ls[i]
    elif k == 7:
        z = [i for i, ch in enumerate(cs) if ch == "Z"]
        if z:
            i = rng.choice(z)
            del cs[i]
            if rng.random() < .5:
                cs.insert(rng.randrange(len(cs) + 1), "Z")
        else:
            cs.insert(rng.randrange(len(cs) + 1), "Z")
    elif k == 8 and cs:
        cs[rng.randrange(len(cs))] = rng.choice("abz01*=_")
    elif cs:
        i = rng.randrange(len(cs))
        if cs[i] in gen.LET:
            cs[i] = gen.LET[(gen.LET.index(cs[i]) + rng.choice([1, -1])) % 20]
        elif cs[i] in gen.DIG:
            cs[i] = gen.DIG[(gen.DIG.index(cs[i]) + rng.choice([1, -1])) % 5]
    s["pf"] = {"f": "c", "ls": ls, "cs": cs}
