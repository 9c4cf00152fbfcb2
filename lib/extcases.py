"""WRITE SOURCE /EXTRACT (judged by ExtractTrace.tla)."""
import os, random, re

from . import check, depcases as dc, gen, mm, obs, proofcases as pc

DECO = {1: "####", 2: "#*#*", 3: "=-=-", 4: "-.-."}
WORDS = ["a", "theorem", "of", "the", "(Contributed", "by", "NM,", "5-Aug-1993.)", "lemma", "Here", "x.", "<I>so</I>", "_em_", "1", "half"]


def enrich(rng, st):
    """Spread declarations out, add symbols nothing uses, pairs given more than once, scopes around scopes."""
    out = []
    n = 0
    for s in st:
        if s["k"] in "cv" and len(s["m"]) > 1 and rng.random() < .7:
            i = rng.randint(1, len(s["m"]) - 1)
            for m in (s["m"][:i], s["m"][i:]):
                out.append({"k": s["k"], "l": "", "m": m})
        elif s["k"] == "c" and rng.random() < .3:
            out.append(dict(s, m=s["m"] + ["uc%d" % len(out)]))
        else:
            out.append(s)
    st, out = out, []
    depth = 0
    act, saved = [], []
    for s in st:
        if depth == 0 and rng.random() < .06:
            out.append({"k": "c", "l": "", "m": ["spare%d" % n]})
            n += 1
        if rng.random() < .04:
            out.append({"k": "v", "l": "", "m": ["lone%d" % n]})
            n += 1
        if depth and rng.random() < .04:
            v = "in%d" % n
            n += 1
            out += [{"k": "{", "l": "", "m": []}, {"k": "v", "l": "", "m": ["same" if "same" not in act else v]},
                    {"k": "}", "l": "", "m": []}]
        if len(act) > 1 and s["k"] in "ape" and rng.random() < .15:
            out.append({"k": "d", "l": "", "m": rng.sample(act, rng.randint(2, min(4, len(act))))})
        out.append(s)
        if s["k"] == "{":
            depth += 1
            saved.append(list(act))
        elif s["k"] == "}":
            depth -= 1
            act = saved.pop()
        elif s["k"] == "v":
            act += s["m"]
    return out


def words(rng, labels, math, n):
    ps = []
    while n > 0:
        n -= 1
        r = rng.random()
        if r < .3 and labels:
            ps.append({"r": rng.choice(labels) if rng.random() < .9 else "nosuch", "w": []})
        elif r < .36:
            ps.append({"r": "", "w": ["~~"]})
        elif r < .4 and labels:
            ps.append({"r": "", "w": ["~~", rng.choice(labels)]})
        elif r < .44:
            ps.append({"r": "", "w": ["~", "http://x.org/%s" % rng.choice(["a~~b", "q"])]})
        elif r < .52:
            w = [rng.choice(math) for _ in range(rng.randint(1, 3))]
            if rng.random() < .4 and labels:
                w += ["~", rng.choice(labels)]
            ps.append({"r": "", "w": ["`"] + w + ["`"]})
        else:
            ps.append({"r": "", "w": [rng.choice(WORDS + labels)]})
    return ps


def spaced(rng, ps, first=" "):
    """Text of the pieces, each preceded by white space."""
    t = ""
    sp = [" ", " ", " ", "\n", "  ", "\n     "]
    for p in ps:
        for w in (["~", p["r"]] if p["r"] else p["w"]):
            s = rng.choice(sp) if t else first
            if "\n" in s and w[:1] in "#=-":
                s = " "
            t += s + w
    return t


def comment(rng, labels, math, kind=None):
    """(record, text)"""
    k = kind or rng.choice("nnnnnhhhhxx")
    if k == "h":
        lev = rng.randint(1, 4)
        d = DECO[lev] * rng.choice([1, 3, 19]) + rng.choice(["", DECO[lev][:2]])
        title = [rng.choice(WORDS) for _ in range(rng.randint(1, 3))]
        ps = words(rng, labels, math, rng.choice([0, 0, 1, 4]))
        t = "$(" + rng.choice(["\n", "\n", " \n"]) + d + "\n" + "  " * rng.randint(0, 9) + " ".join(title) + "\n" + d + "\n"
        t += rng.choice(["", "\n", "\n\n"]) + spaced(rng, ps, rng.choice(["", "  "])) if ps else ""
        return {"k": "h", "lev": lev, "ti": [d] + title + [d], "ps": ps}, t.rstrip(" ") + rng.choice(["\n", " "]) + "$)"
    if k == "x":
        v = rng.randrange(3)
        ps = words(rng, labels, math, rng.randint(0, 3))
        if v == 0:
            return {"k": "x", "lev": 0, "ti": [], "ps": []}, "$( $j usage 'a' avoids 'b';%s $)" % spaced(rng, ps)
        if v == 1:
            return {"k": "x", "lev": 0, "ti": [], "ps": []}, "$( see%s $[ other.mm $] $)" % spaced(rng, ps)
        return {"k": "x", "lev": 0, "ti": [], "ps": []}, "$( so%s\n%s and more $)" % (spaced(rng, ps), DECO[rng.randint(1, 4)])
    if k == "t":
        w = ["$t", "/*", "x", "*/", "htmldef", '"x"', "as", "'<I>x</I>';", "htmldef", '"y"', "as", "'", "~", rng.choice(labels), "';"]
        return {"k": "t", "lev": 0, "ti": w, "ps": []}, "$(%s %s" % (rng.choice(["", "\n "]), " ".join(w)) + rng.choice([" ", "\n"]) + "$)"
    ps = words(rng, labels, math, rng.randint(0, 8))
    return {"k": "n", "lev": 0, "ti": [], "ps": ps}, "$(%s%s$)" % (spaced(rng, ps), rng.choice([" ", "\n"]))


def note(rng, ts):
    """Comments between the words of a statement's body; returns words as written."""
    out = []
    for t in ts:
        if rng.random() < .05:
            out += rng.choice([["$(", "in", "$)"], ["$(", "~", "zz", "$)"], ["$(", "$)"]])
        out.append(t)
    return out


def ws(rng):
    return rng.choice([" ", " ", "\n", "\n\n", "  ", "\n  ", "\t", "\n\t"])


def render(rng, st, rich):
    """(source records, text)"""
    labels = [s["l"] for s in st if s["l"]]
    math = [x for s in st if s["k"] in "cv" for x in s["m"] if "~" not in x and "`" not in x] or ["x"]
    src, text = [], ""
    tat = rng.randrange(len(st) + 1) if rng.random() < .6 else -1
    for i, s in enumerate(st + [{"k": "", "l": "", "m": []}]):
        sec, txt = [], ""
        kinds = [None] * rng.choice([0, 0, 1, 2, 4] if rng.random() < rich else [0])
        if i == tat:
            kinds.insert(rng.randint(0, len(kinds)), "t")
        cut = rng.randint(0, len(kinds)) if s["l"] and rng.random() < .15 else len(kinds)
        if i:
            txt += ws(rng)
        for j, k in enumerate(kinds + [None]):
            if j == cut and s["l"]:
                txt += s["l"] + ws(rng)
            if j < len(kinds):
                r, t = comment(rng, labels, math, k)
                sec.append(r)
                txt += t + ws(rng)
        x = {"k": s["k"], "l": s["l"], "m": list(s["m"]), "b": [], "sec": sec}
        if s["k"] == "p":
            x["pf"] = s["pf"]
            x["b"] = note(rng, s["m"]) + ["$="] + note(rng, gen.proof_text(s["pf"]).split())
        elif s["k"] and s["k"] not in "{}":
            x["b"] = note(rng, s["m"])
        if s["k"]:
            txt += gen.KW[s["k"]]
            if s["k"] not in "{}":
                txt += " " + "".join(w + rng.choice([" "] * 9 + ["\n", "\n  "]) for w in x["b"]) + "$."
        src.append(x)
        text += txt
    return src, text.rstrip("\t ") + "\n"


def make(seed):
    rng = random.Random(seed)
    if rng.random() < .65:
        db = pc.make_db(rng, rng.choice([4, 8, 12]), steps=(4, 8, 20))
        for s in db.stmts:
            if s["k"] != "p":
                continue
            node = s.pop("_node")
            if rng.random() < .4:
                mand = [h["l"] for h in db.frames[s["l"]]["hyps"]]
                ls, cs = gen.compress(node, mand, lambda l: l in db.frames, rng, share=rng.choice([0, .5, 1]), order=rng.choice([None, "shuffle"]))
                s["pf"] = {"f": "c", "ls": ls, "cs": list(cs)}
        st = pc.strip(db.stmts)
    else:
        while True:
            st = dc.graph_db(rng, rng.choice([6, 12, 20]), share=rng.choice([0, .5]))
            if not {s["l"] for s in st} & {x for s in st if s["k"] in "cv" for x in s["m"]}:
                break
    st = enrich(rng, st)
    src, text = render(rng, st, rng.choice([.1, .5, .9]))
    ps = []
    for _ in range(4):
        p = dc.pattern(rng, st)
        ps.append(p)
    return src, text, ps


# --- reading what was written -----------------------------------------------------------------------
def items(text):
    """The file as MMExtract writes it; ValueError when it is no sequence of statements and comments."""
    t = text.split()
    out, i = [], 0
    kw = {v: k for k, v in gen.KW.items()}

    def comm(i):
        j = i + 1
        while t[j] != "$)":
            if t[j] == "$(":
                raise ValueError("comment in a comment")
            j += 1
        return j + 1
    try:
        while i < len(t):
            if t[i] == "$(":
                j = comm(i)
                out.append({"k": "(", "l": "", "b": t[i + 1:j - 1]})
                i = j
                continue
            l = ""
            if t[i][0] != "$":
                l = t[i]
                i += 1
                while t[i] == "$(":
                    j = comm(i)
                    out.append({"k": "(", "l": "", "b": t[i + 1:j - 1]})
                    i = j
            if t[i] not in kw:
                raise ValueError("no keyword: " + t[i])
            k = kw[t[i]]
            i += 1
            b = []
            if k not in "{}":
                while t[i] != "$.":
                    if t[i] == "$(":
                        j = comm(i)
                        b += t[i:j]
                        i = j
                    else:
                        b.append(t[i])
                        i += 1
                i += 1
            out.append({"k": k, "l": l, "b": b})
    except IndexError:
        raise ValueError("the file ends within a statement or comment")
    return out


HEAD = re.compile(r"^\$\( Extracted from: ((?:(?!\$\)).)*)\$\)\n\$\( Created (\S+ \S+ \S+) using \"READ '([^']*)'\" then\n"
                  r"   \"WRITE SOURCE '([^']*)' /EXTRACT (.*)\" \$\)")


def body(text):
    """(header match, rest)"""
    m = HEAD.match(text)
    if not m:
        raise ValueError("header: %r" % text[:200])
    return m, text[m.end():]


def clean(it):
    return [x for x in it if not (x["k"] == "(" and (x["b"][:2] in (["Unused", "constants"], ["Unused", "variables"])
                                                     or x["b"][:1] == ["Created"]))]


def settled(it):
    """The definitions may move among the comments around them."""
    return [x for x in it if x["b"][:1] != ["$t"]], [x for x in it if x["b"][:1] == ["$t"]]


def observe(exe, case):
    src, text, pats = case
    d = mm.scratch()
    r = {"bad": [], "died": "", "q": []}
    with open(os.path.join(d, "in.mm"), "w") as f:
        f.write(text)
    cmds = ["read in.mm", "verify proof *"]
    for j, p in enumerate(pats):
        cmds.append("write source e%d.mm /extract %s" % (j, p))
    cmds += ["write source e%d.mm /extract %s" % (len(pats), pats[0]), "write source all.mm"]
    for j, p in enumerate(pats):
        cmds += ["erase", "read e%d.mm" % j, "verify proof *", "write source f%d.mm /extract *" % j]
    run = mm.session(exe, cmds, d)
    r["tail"] = run.text[-1500:]
    if run.rc != 0 or "BUG CHECK" in run.text:
        r["died"] = "status %s" % run.rc
        return r
    ls = [s["l"] for s in src if s["k"] == "p"]
    was = obs.verify_verdicts(run.out(1), ls)

    def load(n):
        with open(os.path.join(d, n), encoding="latin-1") as f:
            return f.read()
    if load("all.mm") != text:
        r["bad"].append("the source is not written as it was after extracting from it")
    for j, p in enumerate(pats):
        if not os.path.exists(os.path.join(d, "e%d.mm" % j)):
            r["bad"].append("nothing was written for " + p)
            break
    else:
        for j, p in enumerate(pats):
            a = load("e%d.mm" % j)
            try:
                h, rest = body(a)
                if (h.group(3), h.group(4), h.group(5)) != ("in.mm", "e%d.mm" % j, p):
                    raise ValueError("header: " + h.group(0))
                it = clean(items(rest))
                if j == 0 and body(load("e%d.mm" % len(pats)))[1] != rest:
                    r["bad"].append("the same statements extracted twice give different files")
                again = body(load("f%d.mm" % j))[1]
                # an extract of everything in the extract
                if settled(clean(items(again))) != settled(it):
                    r["bad"].append("an extract of %s is changed by extracting from it" % p)
            except ValueError as e:
                r["bad"].append("the extract of %s is no database: %s" % (p, e))
                it = None
            base = len(pats) + 4 + 4 * j
            rd, ver = run.out(base + 1), run.out(base + 2)
            if it is None:
                continue
            kept = [x["l"] for x in it if x["k"] == "p"]
            if it and not obs.read_ok(rd):
                r["bad"].append("the extract of %s cannot be read: %s" % (p, rd[-600:]))
            now = obs.verify_verdicts(ver, kept)
            r["q"].append({"pat": list(p), "out": it, "was": {l: was.get(l, "none") for l in kept}, "now": now})
    return r


def judge(c, exe, cases):
    recs = mm.pmap(lambda x: observe(exe, x), cases)
    js, idx = [], []
    for (src, text, pats), r in zip(cases, recs):
        rep = {"source": text, "patterns": pats}
        if r["died"]:
            c.violation("the extracting session died: " + r["died"], dict(rep, output_tail=r["tail"]))
            continue
        for b in r["bad"]:
            c.violation(b, dict(rep, output_tail=r["tail"]))
        if r["q"]:
            js.append({"src": src, "lc": {s["l"]: list(s["l"]) for s in src if s["l"]} or {"none": ["n"]}, "q": r["q"]})
            idx.append((rep, r))
    want = sum(len(x["q"]) for x in js)
    if not want:
        return
    reps = check.validate(c, "ExtractTrace", js)
    if len(reps) != want:
        raise mm.NoAnswer("ExtractTrace judged %d of %d extracts" % (len(reps), want))
    for tag, k, j, v in reps:
        rep, r = idx[k - 1]
        q = js[k - 1]["q"][j - 1]
        if tag == "ACCEPT":
            c.traces(1)
            c.count("extracts")
            for x in q["out"]:
                c.count("kept_" + x["k"])
        else:
            c.violation("the extract of %s is not what is needed: %s" % ("".join(q["pat"]), v), dict(rep, pattern="".join(q["pat"]), written=q["out"], was=q["was"], now=q["now"]))
