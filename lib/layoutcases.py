"""Sources with comments and white space everywhere, rewritten by WRITE SOURCE / FORMAT and / REWRAP (for LayoutTrace)."""
import os, random, re, shutil
from . import gen, mm, obs, proofcases as pc

WORDS = ["a", "the", "proof", "of", "x", "Lemma", "for", "(see", "also)", "e.g.", "i.e.,", "set", "is.", "That", "end?", "Yes!", "note:", "Then", "\"so\"", "'it'",
         "A.", "B", "p.", "123", "[Margaris]", "p. 49.", "(Contributed by N M, 5-Aug-1993.)", "...", "-", "_emph_", "x_1", "well-known", ".", ",", ";", "((", "))", "$c", "@", "#",
         "(New usage is discouraged.)", "(Proof modification is discouraged.)", "(Revised", "by", "MC,", "1-Jan-2020.)", "=-=-", "####", "c.", "Z"]


def ws(rng, wild):
    return rng.choice([" ", " ", "\n", "\n", "  ", "\n  ", "\n\n", " \n", "\n\n\n\n\n", "   \n   \n ", "\t", " \t "] if wild else [" ", " ", "\n", "\n  ", "\n\n"])


def comment(rng, labels, math, rich=True):
    n = rng.choice([0, 1, 1, 2, 3, 5, 8, 15, 30])
    w = []
    for _ in range(n):
        x = rng.random()
        if x < .72 or not rich:
            w.append(rng.choice(WORDS))
        elif x < .8:
            w.append(rng.choice(["~ %s", "~%s", "~ %s", "~ %s ,", "( ~ %s )", "(~%s)", "~ %s ."]) % rng.choice(labels))
        elif x < .9:
            m = " ".join(rng.choice(math) for _ in range(rng.randint(1, 6)))
            w.append(rng.choice(["` %s `", "`%s`", "` %s ` ,", "(` %s `)", "` %s `-type", "` %s `_1", "x` %s `.", "` %s ` ."]) % m)
        elif x < .93:
            w.append(rng.choice(["x", "ab", "long-"]) * rng.choice([20, 39, 60]))
        elif x < .96:
            w.append("http://us.metamath.org/" + "abc/" * rng.choice([1, 12, 25]) + "x.html")
        elif x < .965:
            w.append(rng.choice(["<HTML>", "</HTML>"]))
        else:
            w.append(rng.choice(["``", "~~", "` `` `", "~ ~~", "us.org/~~bob", "us.org/~~", "~~bob", "~~~", "a``b", "(``)"]))
    wild = rng.random() < .3
    out = "$("
    for y in w + ["$)"]:
        out += (ws(rng, wild) if rng.random() < .3 else " ") + y
    return out


def render(rng, stmts):
    labels = [s["l"] for s in stmts if s["l"]]
    math = sorted({x for s in stmts for x in s["m"]})
    wild = rng.random() < .3
    style = rng.choice(["plain", "plain", "line", "odd"])
    rate = {"plain": .35, "line": .6, "odd": .5}[style]
    rich = rng.random() < .8
    out = []
    starts = []

    def gap(k, many=False):
        """White space with perhaps comments in it, between two tokens."""
        s = ws(rng, wild)
        if rng.random() < (rate if many else .04 if style == "odd" else 0):
            for _ in range(rng.choice([1, 1, 1, 2, 3] if many else [1])):
                c = comment(rng, labels, math, rich)
                s += c + ("\n" if style == "plain" else ws(rng, wild))
        return s
    first = True
    for s in stmts:
        g = gap(s["k"], True)
        starts.append(len(out))
        out.append(g.lstrip() if first and rng.random() < .5 else g)
        first = False
        t = [s["l"]] if s["l"] else []
        kw = gen.KW[s["k"]]
        if s["l"]:
            out += [s["l"], gap("l")]
        out.append(kw)
        if s["k"] in "{}":
            continue
        for x in s["m"]:
            out += [gap("m"), x]
        if s["k"] == "p":
            out += [gap("m"), "$="]
            for x in gen.proof_text(s["pf"]).split():
                out += [gap("q"), x]
        out += [gap("q"), "$."]
    starts.append(len(out))
    out.append(gap("z", True))
    out.append("\n")
    ends = starts[1:] + [len(out)]
    return ["".join(out[a:b]) for a, b in zip(starts, ends)]


def db(seed):
    rng = random.Random(seed)
    while True:
        try:
            d = gen.Db(rng, nvars=rng.randint(1, 4), nsyn=rng.randint(0, 3), nax=rng.randint(1, 4))
            break
        except (IndexError, RecursionError):
            continue
    for _ in range(rng.randint(0, 4)):
        r = d.theorem(steps=rng.choice([1, 3, 6]))
        if r:
            s, node = r
            s["pf"] = {"f": "n", "s": node.rpn() if rng.random() < .85 else ["?"]}
    return pc.fix(d.stmts)


def make(seed):
    rng = random.Random(seed)
    st = db(seed)
    ch = render(rng, st)
    case = {"seed": seed, "stmts": st, "rewrap": rng.random() < .6, "width": rng.choice([79, 79, 79, 60, 120, 40]), "files": {}}
    if rng.random() < .35:
        lev, top = 0, [0]
        for n, s in enumerate(st):
            lev += {"{": 1, "}": -1}.get(s["k"], 0)
            if lev == 0:
                top.append(n + 1)
        i, j = sorted(rng.choice(top) for _ in range(2))
        inc = "".join(ch[i:j]) + "\n"
        case["files"]["i.mm"] = inc
        again = rng.choice(["", "", "$[ i.mm $]"])
        text = "".join(ch[:i]) + rng.choice(["\n", "\n\n", " "]) + "$[ i.mm $]" + rng.choice(["\n", "\n\n", " "]) + "".join(ch[j:]) + again + "\n"
        case["files"]["t.mm"] = text.lstrip() if i == 0 else text
    else:
        case["files"]["t.mm"] = "".join(ch)
    return case


def run(exe, case):
    """Write plainly, reformat, write again, read back.  Fills in the texts; returns a problem or None."""
    d = mm.scratch("lay-")
    try:
        for f, t in case["files"].items():
            with open(d + "/" + f, "w") as g:
                g.write(t)
        how = "REWRAP" if case["rewrap"] else "FORMAT"
        w = "SET WIDTH %d" % case["width"]
        cmds = ['READ "t.mm"', "VERIFY PROOF *", "WRITE SOURCE a.mm / KEEP_INCLUDES", w, "WRITE SOURCE b.mm / KEEP_INCLUDES / " + how, "SET WIDTH 9999",
                "WRITE SOURCE c.mm / KEEP_INCLUDES", "VERIFY PROOF *", "WRITE SOURCE s.mm / SPLIT", "ERASE", 'READ "s.mm"', "VERIFY PROOF *",
                "WRITE SOURCE e.mm / KEEP_INCLUDES"]
        r = mm.session(exe, cmds, d, timeout=20)
        case["_log"] = r.text
        if r.rc != 0 or len(r.chunks) < len(cmds):
            return "the program stopped (exit status %s)" % r.rc
        outs = [x for _, x in r.chunks]
        for n in "abcse":
            p = d + "/%s.mm" % n
            case[n] = open(p, encoding="latin-1").read() if os.path.exists(p) else ""
        labs = [s["l"] for s in case["stmts"] if s["k"] == "p"]
        case["va"], case["vc"], case["vb"] = [[[l, v] for l, v in sorted(obs.verify_verdicts(outs[k], labs).items())] for k in (1, 7, 11)]
        case["read"] = obs.read_ok(outs[0]) and obs.read_ok(outs[10])
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def record(case):
    return {"a": list(case["a"]), "b": list(case["b"]), "rewrap": case["rewrap"], "width": case["width"], "va": case["va"], "vb": case["vb"], "vc": case["vc"],
            "same": case["b"] == case["c"], "read": case["read"], "e": [] if case["e"] == case["b"] else list(case["e"])}
