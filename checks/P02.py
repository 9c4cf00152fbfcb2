import os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, gen, mm, proofcases as pc


def make(seed):
    rng = random.Random(seed)
    while True:
        try:
            db = gen.Db(rng, nvars=rng.randint(3, 5), tcs=rng.choice([("wff",), ("wff", "class")]),
                        nsyn=rng.randint(1, 2), nax=1, maxd=4)
            break
        except (IndexError, RecursionError):
            pass
    # distinct pairs that hold for everything after them
    if rng.random() < .5:
        db.dvs(rng.sample(db.avail(), rng.randint(2, 3)))
    for _ in range(rng.randint(3, 6)):
        dv_axiom(rng, db)
    n = 0
    while n < 25:
        r = db.theorem(steps=rng.choice([4, 8, 16]), drop_d=rng.choice([0, .15, .5]), maxsize=60, maxlen=30)
        n += 1
        if r is None:
            continue
        s, node = r
        s["pf"] = {"f": "n", "s": node.rpn()}
        s["_node"] = node
    # distinct pairs that cannot matter: in scopes already closed, repeated, or about other variables
    out = []
    for s in pc.strip(db.stmts):
        if s["k"] == "{" and rng.random() < .2:
            out += [s, {"k": "{", "l": "", "m": []}, {"k": "d", "l": "", "m": rng.sample(db.avail(), 2)},
                    {"k": "}", "l": "", "m": []}]
            continue
        if s["k"] == "d" and rng.random() < .2:
            out.append({"k": "d", "l": "", "m": s["m"][::-1]})
        if s["k"] == "d" and rng.random() < .1:
            continue
        out.append(s)
    return out


def dv_axiom(rng, db):
    t = db.tcs[0]
    vs = rng.sample(db.avail(), min(len(db.avail()), rng.randint(2, 4)))
    db.open()
    for _ in range(rng.randint(1, 3)):
        db.dvs(rng.sample(vs, rng.randint(2, len(vs))))
    for _ in range(rng.choice([0, 0, 1])):
        db.hyp(["|-"] + db.try_expr(t, 1, vs)[0])
    m = []
    for _ in range(rng.randint(1, 3)):
        m += db.try_expr(t, rng.randint(0, 2), vs)[0] + [rng.choice(db.body)]
    db.assertion("a", db.label("dx"), ["|-"] + m)
    db.close()


def body(c):
    exe = mm.build()
    dbs = pc.pgen(make, pc.seeds(c, c.scale(90, 1000)))
    for k in range(0, len(dbs), 120):
        stat = pc.judge(c, exe, dbs[k:k + 120], "random distinct-variable databases")
        for v, n in stat.items():
            c.count("verdict_" + v, n)
    pc.exhaustive_dv(c, exe, "DvGenT.cfg")
    c.cov["rule"] = "axioms with random $d sets used under theorems whose $d sets are exact, too small, or repeated/irrelevant; plus every (list, list, pair set) over 4 variables"
    for x in [s for s in dbs[0] if s["k"] == "p"][:3]:
        c.sample(gen.render_stmt(x))


check.main("P02", body)
