import os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, depcases as dc, formcases as fc, gen, mm, proofcases as pc


def make(seed):
    rng = random.Random(seed)
    if rng.random() < .15:      # few but large theorems
        db = pc.make_db(rng, 8, steps=(60, 150), maxlen=250, maxsize=3000)
    else:
        db = pc.make_db(rng, rng.choice([10, 25, 40]))
    pc.bad_theorems(rng, db, .55)
    return pc.strip(db.stmts)


def make_small(seed):
    rng = random.Random(seed)
    db = pc.make_db(rng, rng.choice([2, 4, 6]))
    pc.bad_theorems(rng, db, rng.choice([0, .15, .3]))
    return pc.strip(db.stmts)


def make_wild(seed):
    """Proofs that are any trees of the right shape, and right proofs with unknown parts."""
    rng = random.Random(seed)
    if rng.random() < .4:
        while True:
            st = dc.graph_db(rng, 20, share=rng.choice([0, .5]), holes=rng.choice([.1, .5]))
            if not {s["l"] for s in st} & {x for s in st if s["k"] in "cv" for x in s["m"]}:
                return st
    db = pc.make_db(rng, 25, steps=(2, 3, 8))
    for s in db.stmts:
        if s["k"] == "p":
            s["pf"] = {"f": "n", "s": fc.holes(rng, s["_node"], rng.choice([.1, .3, .6])).rpn()}
    return pc.strip(db.stmts)


def body(c):
    exe = mm.build()
    dbs = pc.pgen(make, pc.seeds(c, c.scale(80, 900)))
    for k in range(0, len(dbs), 100):
        stat = pc.judge(c, exe, dbs[k:k + 100], "random databases")
        for v, n in stat.items():
            c.count("verdict_" + v, n)
    for k in range(0, 8 if c.thorough else 1):
        pc.judge(c, exe, pc.pgen(make_wild, pc.seeds(c, 60)), "unknown steps")
    for k in range(0, 8 if c.thorough else 1):      # few theorems, few mistakes: the closing line
        small = pc.pgen(make_small, pc.seeds(c, 120))
        pc.judge(c, exe, small, "small databases")
    for cfg in (["ProofGen1.cfg", "ProofGen2.cfg", "ProofGen3.cfg"] if not c.thorough else ["ProofGen1T.cfg", "ProofGen2T.cfg", "ProofGen3T.cfg"]):
        pc.exhaustive_steps(c, exe, cfg)
    c.cov["rule"] = "random databases, about half of the proofs edited at one to three places; plus every step sequence over two fixed databases up to the configured length"
    for x in [s for s in dbs[0] if s["k"] == "p"][:3]:
        c.sample(gen.render_stmt(x))


check.main("P01", body)
