import os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, gen, mm, proofcases as pc


def make(seed):
    rng = random.Random(seed)
    db = pc.make_db(rng, rng.choice([10, 25]), steps=(8, 20, 40))
    pc.compress_all(rng, db, .95)
    labels = [s["l"] for s in db.stmts if s["l"]]
    for s in db.stmts:
        if s["k"] == "p" and s["pf"]["f"] == "c" and rng.random() < .5:
            for _ in range(rng.choice([1, 1, 2])):
                pc.mutate_compressed(rng, s, labels)
    return pc.strip(db.stmts)


def make_wide(seed):
    """Theorems whose reference lists run past 20, 120 and 620 entries."""
    rng = random.Random(seed)
    n = rng.choice([18, 25, 119, 125, 140, 330, 619, 640, 700])
    St = lambda k, l, m, **kw: dict({"k": k, "l": l, "m": m}, **kw)
    nv = rng.choice([1, 1, 5, 25])
    vs = ["v%d" % i for i in range(nv)]
    st = [St("c", "", ["w", "|-", "&", "!"] + ["c%d" % i for i in range(n)]), St("v", "", vs)]
    st += [St("f", "f%d" % i, ["w", v]) for i, v in enumerate(vs)]
    if nv == 1:
        st.append(St("v", "", ["y"]))
        st.append(St("f", "fy", ["w", "y"]))
    x, y = (vs[0], "y") if nv == 1 else (vs[0], vs[1])
    st += [St("a", "and", ["w", "&", x, y]), St("a", "tru", ["|-", "!", x])]
    st += [St("a", "k%d" % i, ["w", "c%d" % i]) for i in range(n)]
    fl = {x: "f0", y: "fy" if nv == 1 else "f1"}
    atoms = ["k%d" % i for i in range(n)]
    sym = {"k%d" % i: ["c%d" % i] for i in range(n)}
    for i, v in enumerate(vs):
        sym["f%d" % i] = [v]
    N = gen.Node
    for t in range(3):
        use = rng.sample(atoms, rng.randint(max(1, n - 10), n))
        if nv > 1:
            use = ["f%d" % i for i in range(nv)] + use
        else:
            use = ["f0"] + use
        if rng.random() < .7:
            rng.shuffle(use)
        share = rng.random() < .6
        pairs = []
        cur = None
        for a in use:
            leaf = N(a, [], ["w"] + sym[a])
            if cur is None:
                cur = leaf
            else:
                if share and rng.random() < .3:
                    other = rng.choice(pairs) if pairs and rng.random() < .8 else N("and", [leaf, leaf], ["w", "&"] + leaf.f[1:] * 2)
                    pairs.append(other)
                    if len(other.f) < 8:
                        cur = N("and", [cur, other], ["w", "&"] + cur.f[1:] + other.f[1:])
                cur = N("and", [cur, leaf], ["w", "&"] + cur.f[1:] + leaf.f[1:])
        root = N("tru", [cur], ["|-", "!"] + cur.f[1:])
        mand = ["f%d" % i for i in range(nv)]
        ls, cs = gen.compress(root, mand, lambda l: l[0] in "kat", rng, order=rng.choice([None, "shuffle"]))
        s = St("p", "T%d" % t, root.f, pf={"f": "c", "ls": ls, "cs": list(cs)})
        if rng.random() < .45:
            pc.mutate_compressed(rng, s, ["k0", "and", "tru", "f0", "T%d" % t, "nope"])
        st.append(s)
    return st


def body(c):
    exe = mm.build()
    for name, fn, n in (("random", make, c.scale(70, 700)), ("wide", make_wide, c.scale(40, 300))):
        dbs = pc.pgen(fn, pc.seeds(c, n))
        for k in range(0, len(dbs), 100):
            stat = pc.judge(c, exe, dbs[k:k + 100], "compressed proofs, %s databases" % name)
            for v, m in stat.items():
                c.count("verdict_%s_%s" % (name, v), m)
        for x in [s for s in dbs[0] if s["k"] == "p"][:2]:
            c.sample(gen.render_stmt(x)[:600])
    pc.exhaustive_codec(c, exe, "CodecGen.cfg" if not c.thorough else "CodecGenT.cfg")
    c.cov["rule"] = "compressed proofs made from proof trees with random sharing and label order, half of them edited; reference lists up to 700 entries; plus every letter string up to the configured length"


check.main("P03", body)
