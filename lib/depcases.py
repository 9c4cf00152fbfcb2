"""Databases with arbitrary reference graphs, and sessions asking about dependencies and labels."""
import random, re
from . import gen, mm, proofcases as pc


def labels(rng, n, style=None):
    """n distinct labels; several share prefixes, and parts of each other."""
    out = []
    al = rng.choice(["ab", "abc", "ax-1.", "aB9_-."])
    while len(out) < n:
        if out and rng.random() < .5:
            b = rng.choice(out)
            l = b[:rng.randint(0, len(b))] + "".join(rng.choice(al) for _ in range(rng.randint(0, 2)))
            if rng.random() < .3:
                l = rng.choice(al) + l
        else:
            l = "".join(rng.choice(al) for _ in range(rng.randint(1, 4)))
        if l and l not in out and l not in ("wff", "|-", "a", "con", "prn", "aux", "nul"):
            out.append(l)
    return out


def graph_db(rng, nth, share=0, holes=.1, broken=.05, long=False):
    """Assertions with random frames whose proofs are any trees of the right shape."""
    labs = labels(rng, 6 + 4 * nth + 10)
    lab = iter(labs)
    vs = ["x", "y", "z"][:rng.randint(1, 3)]
    st = [{"k": "c", "l": "", "m": ["|-", "wff"]}, {"k": "v", "l": "", "m": vs}]
    fl = {}
    for v in vs:
        fl[v] = next(lab)
        st.append({"k": "f", "l": fl[v], "m": ["wff", v]})
    frames, order = {}, []

    def frame(hy, m):
        used = {t for h in hy for t in h["m"] if t in vs} | {t for t in m if t in vs}
        return [{"k": "f", "l": fl[v]} for v in vs if v in used] + [{"k": "e", "l": h["l"]} for h in hy]

    def tree(size, T):
        """random tree of about the given size"""
        cand = [l for l in order if size > 1 or not frames[l]]
        loc = [fl[v] for v in vs] + [h["l"] for h in T]
        if size <= 1 or not cand or rng.random() < .1:
            if rng.random() < holes * .5:
                return gen.Node("?", [], [])
            z = [l for l in order if not frames[l]]
            return gen.Node(rng.choice(z) if z and rng.random() < .25 else rng.choice(loc), [], [])
        l = rng.choice(cand[-8:] if rng.random() < .6 else cand)
        n = len(frames[l])
        if n == 0:
            return gen.Node(l, [], [])
        return gen.Node(l, [tree((size - 1) // n, T) for _ in range(n)], [])

    for i in range(2 + rng.randint(0, 4) + nth):
        ax = i < 2 or rng.random() < .25
        scope = rng.random() < .6
        hy = []
        if scope:
            st.append({"k": "{", "l": "", "m": []})
            for _ in range(rng.choice([1, 1, 2, 3])):
                h = {"k": "e", "l": next(lab), "m": ["|-"] + [rng.choice(vs) for _ in range(rng.randint(0, 2))]}
                hy.append(h)
                st.append(h)
        m = [rng.choice(["|-", "|-", "|-", "wff"])] + [rng.choice(vs) for _ in range(rng.randint(0, 2))]
        l = next(lab)
        if ax:
            st.append({"k": "a", "l": l, "m": m})
        else:
            n = tree(rng.choice([1, 3, 8, 20]) if not long else rng.choice([8, 20, 40]), hy)
            toks = n.rpn()
            comp = rng.random() < .5
            fr = frame(hy, m)
            # the mandatory hypotheses have to be in database order (all $f precede)
            mand = [h["l"] for h in fr]
            if comp:
                ls, cs = gen.compress(n, mand + ["?"], lambda x: x in frames, rng=rng, share=share)
                ls = [x for x in ls if x != "?"]
                pf = recode(n, mand, frames, rng, share)
            else:
                pf = {"f": "n", "s": toks}
            if rng.random() < broken:
                if pf["f"] == "n":
                    k = rng.randrange(3)
                    pf["s"] = toks + [rng.choice(order or [fl[vs[0]]])] if k == 0 else toks[1:] if k == 1 and len(toks) > 1 else toks + ["nosuch"]
                elif pf["cs"]:
                    pf["cs"] = pf["cs"] + [rng.choice("ABCD")]
            st.append({"k": "p", "l": l, "m": m, "pf": pf})
        frames[l] = fr if not ax else frame(hy, m)
        order.append(l)
        if scope:
            st.append({"k": "}", "l": "", "m": []})
    return st


def recode(n, mand, frames, rng, share):
    """Compressed record of a tree that may contain '?' leaves."""
    holes = 0

    def mark(x):
        nonlocal holes
        if x.lab == "?":
            holes += 1
            return gen.Node("?%d" % holes, [], [])
        return gen.Node(x.lab, [mark(k) for k in x.kids], [])
    t = mark(n)
    q = ["?%d" % i for i in range(1, holes + 1)]
    # "?" leaves are encoded as extra labels first, then replaced
    ls, cs = gen.compress(t, mand, lambda x: x in frames, rng=rng, share=share, order="shuffle")
    if not q:
        return {"f": "c", "ls": ls, "cs": list(cs)}
    real = [x for x in ls if not x.startswith("?")]
    num = {}
    for i, x in enumerate(list(mand) + ls):
        num[i + 1] = x
    idx = {x: i + 1 for i, x in enumerate(list(mand) + real)}
    out = ""
    cur = ""
    base, nb = len(mand) + len(ls), len(mand) + len(real)
    for c in cs:
        if c == "Z":
            out += "Z"
            continue
        cur += c
        if c <= "T":
            v = decode(cur)
            cur = ""
            if v > base:
                out += gen.encode(nb + v - base)
            elif num[v].startswith("?"):
                out += "?"
            else:
                out += gen.encode(idx[num[v]])
    return {"f": "c", "ls": real, "cs": list(out)}


def decode(w):
    v = 0
    for c in w[:-1]:
        v = v * 5 + (ord(c) - ord("U") + 1)
    return v * 20 + ord(w[-1]) - ord("A") + 1


def text(rng, st, notes=.0):
    """Source text; comments may stand between the tokens of proofs."""
    out = []
    for s in st:
        if s["k"] == "p" and rng.random() < notes:
            t = gen.proof_text(s["pf"]).split()
            cut = t.index(")") + 1 if t[:1] == ["("] else len(t)
            i = rng.randint(0 if t[:1] != ["("] else 1, cut)
            t[i:i] = [rng.choice(["$( a note $)", "$( x ) y $)", "$( ( $)", "$( %s $)" % rng.choice(st)["l"]])]
            out.append("%s $p %s $= %s $." % (s["l"], " ".join(s["m"]), " ".join(t)))
        else:
            out.append(gen.render_stmt(s))
    return "\n".join(out) + "\n"


def pattern(rng, st):
    ls = [s["l"] for s in st if s["l"]]
    asr = [s["l"] for s in st if s["k"] in "ap"]

    def one():
        k = rng.randrange(12)
        l = rng.choice(asr if rng.random() < .8 else ls)
        if k < 2:
            return l
        if k == 2:
            return "*"
        if k == 3:
            return l[:rng.randint(0, len(l))] + "*"
        if k == 4:
            return "*" + l[rng.randint(0, len(l) - 1):]
        if k == 5:
            i = rng.randrange(len(l))
            return l[:i] + "?" + l[i + 1:]
        if k == 6:
            i, j = sorted((rng.randint(0, len(l)), rng.randint(0, len(l))))
            return l[:i] + "*" + l[j:]
        if k == 7:
            i = rng.randint(0, len(l))
            return "*" + l[i:i + 1] + "*" + rng.choice(["", "?", "b", "*"])
        if k in (8, 9):
            return rng.choice(asr + [""]) + "~" + rng.choice(asr + [""])
        if k == 10:
            return "#%d" % rng.randint(1, len(st) + 1)
        return "@%d" % rng.randint(1, len(asr) + 1)
    while True:
        p = ",".join(one() for _ in range(rng.choice([1, 1, 1, 2, 3])))
        if p not in ("?", "~"):
            return p


TR = re.compile(r'^(?:The proof of statement|Statement) "([^"]+)" (?:uses the following earlier statements|assumes the following axioms \(\$a statements\)):$|^The proof of statement "([^"]+)" traces back to ".*" via:$', re.M)


def parse_trace(out):
    """The list is the last line of its block; reports of wrong proofs may come before it."""
    ans = []
    ms = list(TR.finditer(out))
    for m, nxt in zip(ms, ms[1:] + [None]):
        blk = [x for x in out[m.end():nxt.start() if nxt else len(out)].split("\n") if x.strip()]
        unp = []
        w = [i for i, x in enumerate(blk) if x.startswith("Warning: The following traced statement(s) were not proved")]
        if w:
            unp = blk[w[0] + 1].split()
            blk = blk[:w[0]]
        got = [re.sub(r"\(\$[aef]\)$", "", x) for x in blk[-1].split() if x != "(None)"] if blk else ["!"]
        ans.append({"T": m.group(1) or m.group(2), "got": got, "unp": unp})
    return ans


def parse_usage(out):
    ans = []
    lines = out.split("\n")
    for i, l in enumerate(lines):
        m = re.match(r'^Statement "([^"]+)" (?:is not referenced in the proof of any statement\.|(?:is directly referenced in|directly or indirectly affects) the proofs? of (\d+) statements?:)', l)
        if m:
            got = []
            for x in lines[i + 1:]:
                if not x.startswith("  "):
                    break
                got += [y for y in x.split() if y != "(None)"]
            ans.append({"l": m.group(1), "cnt": int(m.group(2) or 0), "got": got})
    return ans


def parse_tree(out, T):
    edges, unp = [], []
    path = {}
    for l in out.split("\n"):
        m = re.match(r'^( *)(\S+) \$([ap])  "', l)
        if m:
            d = len(m.group(1)) // 3
            path[d] = m.group(2)
            if d:
                edges.append([path[d - 1], m.group(2)])
            continue
        m = re.match(r"^( +)(\S.*) \(shown above\)$", l)
        if m:
            d = len(m.group(1)) // 3
            edges += [[path[d - 1], x] for x in m.group(2).split()]
            continue
        m = re.match(r"^ +\*\*\* Statement (\S+) has not been proved\.$", l)
        if m:
            unp.append(m.group(1))
    return {"T": T, "edges": edges, "unp": unp}


CNT = re.compile(r"actual proof has (-?\d+) steps\.\s+Backtracking, a total of (-?\d+) different subtheorems are used\.\s+"
                 r"The statement and subtheorems have a total of (-?\d+) actual steps\.\s+If subtheorems used only once were eliminated,"
                 r" there would be a total of (-?\d+) subtheorems, and the statement and subtheorems would have a total of (-?\d+) steps\.\s+"
                 r"The proof would have (\d*)( =~ \S+ x 10\^\d+)? steps if fully expanded back to axiom references\.\s+"
                 r"The maximum path length is (-?\d+)\.\s+A longest path is: (.*) \.")


def about(t):
    """The number in powers of ten: tenths and exponent."""
    if not t:
        return []
    a, b = re.match(r" =~ (\S+) x 10\^(\d+)", t).groups()
    return [int(round(float(a) * 10)), int(b)]


def parse_count(out, T):
    m = CNT.search(out)
    if not m:
        return None
    return {"T": T, "plen": int(m.group(1)), "subs": int(m.group(2)), "tot": int(m.group(3)), "subs2": int(m.group(4)),
            "tot2": int(m.group(5)), "num": [int(x) for x in reversed(m.group(6))], "about": about(m.group(7)), "far": int(m.group(8)),
            "path": [x for x in m.group(9).split() if x != "<-"]}


def parse_labels(out):
    return [[int(a), l, k] for a, l, k in re.findall(r"^(\d+) (\S+) \$([aefp])$", out, re.M)]


def make(seed):
    """(case, commands): the case's queries wait for their answers."""
    rng = random.Random(seed)
    share = rng.choice([0, 0, .5, 1])
    st = graph_db(rng, rng.choice([4, 10, 20, 30]), share=share, holes=rng.choice([0, .1, .3]), broken=rng.choice([0, 0, .15]),
                  long=rng.random() < .3)
    if not any(s["k"] == "p" for s in st):
        return make(seed + 7919)
    txt = text(rng, st, notes=rng.choice([0, 0, .5]))
    thms = [s["l"] for s in st if s["k"] == "p"]
    q, cmds = [], []
    for _ in range(10):
        ess = rng.random() < .5
        pat = rng.choice(thms) if rng.random() < .7 else pattern(rng, st)
        ax, match, to = rng.random() < .3, rng.random() < .3, rng.random() < .35
        mp = pattern(rng, st) if match else ""
        tp = (rng.choice([s["l"] for s in st if s["k"] in "ap"]) if rng.random() < .7 else pattern(rng, st)) if to else ""
        q.append({"t": "trace", "pat": pat, "ess": ess, "ax": ax, "match": mp, "to": tp})
        cmds.append("show trace_back %s%s%s%s%s" % (pat, " /essential" if ess else rng.choice(["", " /all"]) if False else "", " /axioms" if ax else "",
                                                    " /match %s" % mp if match else "", " /to %s" % tp if to else ""))
    for _ in range(12):
        pat = rng.choice([s["l"] for s in st if s["l"]]) if rng.random() < .7 else pattern(rng, st)
        rec, al = rng.random() < .4, rng.random() < .4
        q.append({"t": "usage", "pat": pat, "rec": rec, "all": al})
        cmds.append("show usage %s%s%s" % (pat, " /recursive" if rec else rng.choice(["", " /direct"]), " /all" if al else ""))
    for _ in range(4):
        T = rng.choice(thms)
        ess = rng.random() < .5
        q.append({"t": "tree", "T": T, "ess": ess})
        cmds.append("show trace_back %s /tree%s" % (T, " /essential" if ess else ""))
    if share == 0:
        for _ in range(4):
            T = rng.choice(thms[-8:])
            ess = rng.random() < .5
            q.append({"t": "count", "T": T, "ess": ess})
            cmds.append("show trace_back %s /count_steps%s" % (T, " /essential" if ess else ""))
    return {"stmts": st, "q": q, "_cmds": cmds, "_text": txt}


def ask(exe, case):
    """Run one session and fill in the answers."""
    import os, shutil
    d = mm.scratch("dep-")
    with open(os.path.join(d, "db.mm"), "w") as f:
        f.write(case["_text"])
    r = mm.session(exe, ["set width 9999", "read db.mm"] + case["_cmds"] + ["exit"], d, timeout=60)
    shutil.rmtree(d, ignore_errors=True)
    if r.rc != 0 or len(r.chunks) < len(case["_cmds"]) + 2:
        return "the program died (%s)" % r.rc, r.text[-1500:]
    for i, (q, cmd) in enumerate(zip(case["q"], case["_cmds"])):
        out = r.out(i + 2)
        if q["t"] == "trace":
            q["ans"] = parse_trace(out)
        elif q["t"] == "usage":
            q["ans"] = parse_usage(out)
        elif q["t"] == "tree":
            q.update(parse_tree(out, q["T"]))
        elif q["t"] == "count":
            p = parse_count(out, q["T"])
            if p is None:
                return "no answer to %s" % cmd, out[-1500:]
            q.update(p)
        elif q["t"] == "labels":
            q["ans"] = parse_labels(out)
        q["_out"] = out
    return None


def record(case):
    """The case as TLC reads it."""
    qs = []
    for q in case["q"]:
        x = {k: v for k, v in q.items() if k[0] != "_"}
        for k in ("pat", "match", "to"):
            if k in x:
                x[k] = list(x[k])
        qs.append(x)
    st = pc.fix(case["stmts"])
    return {"stmts": st, "q": qs, "lc": {s["l"]: list(s["l"]) for s in st if s["l"]}}


# ---- SHOW LABELS and SEARCH -------------------------------------------------
SYM = ["x", "xy", "y", "yx", "(", ")", "->", "x'", "x?", "wff", "|-", ",", "*", "~", "=x"]
WORDS = ["Axiom", "of", "the", "x", "AX", "xiom", "(x)", "~", "lemma,", "Lemma.", "a-b"]


def find_db(rng):
    """Statements of every kind with formulas over overlapping symbols, and comments."""
    n = rng.choice([5, 12, 30, 60])
    labs = iter(labels(rng, 4 * n + 10))
    syms = rng.sample(SYM, rng.randint(3, 8))
    vs, cs = [], []
    for s in syms:
        (vs if rng.random() < .5 else cs).append(s)
    st = [{"k": "c", "l": "", "m": cs + ["TC"]}]
    if vs:
        st.append({"k": "v", "l": "", "m": vs})
    for v in vs:
        st.append({"k": "f", "l": next(labs), "m": ["TC", v]})
    fm = lambda: ["TC"] + [rng.choice(syms) for _ in range(rng.choice([0, 1, 2, 3, 4, 6]))]
    depth = 0
    while n > 0:
        r = rng.random()
        if r < .15 and depth < 3:
            st.append({"k": "{", "l": "", "m": []})
            depth += 1
        elif r < .3 and depth:
            st.append({"k": "}", "l": "", "m": []})
            depth -= 1
        elif r < .5 and depth:
            st.append({"k": "e", "l": next(labs), "m": fm()})
        else:
            n -= 1
            if rng.random() < .5:
                st.append({"k": "a", "l": next(labs), "m": fm()})
            else:
                st.append({"k": "p", "l": next(labs), "m": fm(), "pf": {"f": "n", "s": ["?"]}})
    st += [{"k": "}", "l": "", "m": []}] * depth
    for s in st:
        s["_cm"] = [[rng.choice(WORDS) for _ in range(rng.randint(1, 6))] for _ in range(rng.choice([0, 0, 1, 1, 1, 2]))]
    return st


def find_text(rng, st):
    out = []
    for s in st:
        for c in s["_cm"]:
            w = c[0]
            for x in c[1:]:
                w += rng.choice([" ", " ", "  ", "\n     "]) + x
            out.append("$( " + w + rng.choice([" ", "  ", "\n  "]) + "$)" + rng.choice([" ", "\n"]))
        out.append(gen.render_stmt(s) + "\n")
    return "".join(out)


def symbols(rng, st):
    """A symbol pattern: tokens of a formula, some replaced."""
    src = rng.choice([s["m"] for s in st if s["l"]])
    i = rng.randint(0, len(src) - 1)
    t = list(src[i:i + rng.randint(1, 4)])
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        k = rng.randrange(8)
        j = rng.randrange(len(t)) if t else 0
        if k == 0:
            t.insert(rng.randint(0, len(t)), rng.choice(["$*", "$*", "$"]))
        elif not t:
            continue
        elif k == 1:
            t[j] = "$?"
        elif k == 2:
            t[j] = rng.choice(["$?$?", "??", "?"])
        elif k == 3:
            del t[j]
        elif k in (4, 5) and t[j][0] != "$":
            h = rng.randint(0, len(t[j]) - 1)
            t[j] = t[j][:h] + rng.choice(["$?", "$*", "?", "$"]) + t[j][h + rng.randint(0, 1):]
        elif k == 6:
            t[j] = rng.choice(SYM)
        elif k == 7 and len(t) > 1:
            t[j] = "$*"
    return t or ["$*"]


def make_find(seed):
    rng = random.Random(seed)
    st = find_db(rng)
    asr = [s["l"] for s in st if s["k"] in "ap"]
    thm = [s["l"] for s in st if s["k"] == "p"]
    if not thm:
        return make_find(seed + 7919)
    txt = find_text(rng, st)
    num = {s["l"]: i + 1 for i, s in enumerate(st) if s["l"]}
    changed, proving = set(), 0
    q, cmds = [], []
    for _ in range(24):
        r = rng.random()
        if r < .08:
            p = pattern(rng, st)
            cmds.append("save proof %s /%s" % (p, rng.choice(["normal", "compressed"])))
            q.append({"t": "save", "pat": p, "_p": 1})
            continue
        if r < .13:
            l = rng.choice(thm)
            cmds += ["prove %s" % l, "exit"]
            q += [{"t": "prove", "T": l, "_p": 1}, {"t": "skip", "_p": 1}]
            continue
        pat = pattern(rng, st)
        if rng.random() < .15:
            pat = rng.choice(["=", "%", "%", pat + ",%", "%," + pat])
        if rng.random() < .45:
            al = rng.random() < .5
            q.append({"t": "labels", "pat": pat, "all": al})
            w = rng.choice(["", " /linear"])
            cmds.append("show labels %s%s%s" % (pat, " /all" if al else "", w))
        elif rng.random() < .7:
            if rng.random() < .6:
                pat = "*"
            al, jn = rng.random() < .4, rng.random() < .4
            t = symbols(rng, st)
            q.append({"t": "search", "pat": pat, "all": al, "join": jn, "sym": [list(x) for x in t]})
            cmds.append("search %s %s%s%s" % (pat, (lambda c: c + " ".join(t) + c)('"' if "'" in " ".join(t) else rng.choice("'\"")),
                                              " /all" if al else "", " /join" if jn else ""))
        else:
            if rng.random() < .6:
                pat = "*"
            al = rng.random() < .5
            ws = rng.choice([c for s in st for c in s["_cm"]] or [["x"]])
            s = " ".join(ws)
            i = rng.randint(0, len(s) - 1)
            s = s[i:i + rng.randint(1, 12)].strip() or "x"
            s = rng.choice([s, s.upper(), s.lower(), s.swapcase()])
            q.append({"t": "notes", "pat": pat, "all": al, "str": list(s)})
            cmds.append('search %s "%s" /comments%s' % (pat, s, " /all" if al else ""))
    return {"stmts": st, "q": q, "_cmds": cmds, "_text": txt}


FOUND = re.compile(r'^(\d+) (\S+) ((?:\$[aefp]).*)$', re.M)
NOTED = re.compile(r'^(\d+) (\S+) \$([aefp]) "(.*)"$', re.M)


def parse_find(q, out):
    if q["t"] == "labels":
        # columns of "number label $type"
        q["ans"] = [[int(a), l, k] for a, l, k in re.findall(r"(?:^|  +)(\d+) (\S+) \$([aefp])(?=\s|$)", out, re.M)]
    elif q["t"] == "search":
        q["ans"] = [[int(a), l, r.split()] for a, l, r in FOUND.findall(out)]
    elif q["t"] == "notes":
        q["ans"] = [[int(a), l, k, c.split()] for a, l, k, c in NOTED.findall(out)]
    elif q["t"] == "save":
        q["ans"] = re.findall(r'^The proof of "(\S+)" has been reformatted', out, re.M)
    q["_out"] = out


def ask_find(exe, case):
    import os, shutil
    d = mm.scratch("find-")
    with open(os.path.join(d, "db.mm"), "w") as f:
        f.write(case["_text"])
    r = mm.session(exe, ["set width 9999", "read db.mm"] + case["_cmds"] + ["exit", "y"], d, timeout=60)
    shutil.rmtree(d, ignore_errors=True)
    if r.rc != 0 or len(r.chunks) < len(case["_cmds"]) + 2:
        return "the program died (%s)" % r.rc, r.text[-1500:]
    for i, q in enumerate(case["q"]):
        parse_find(q, r.out(i + 2))
    return None


def record_find(case):
    qs = []
    for q in case["q"]:
        x = {k: v for k, v in q.items() if k[0] != "_"}
        x["pat"] = list(x.get("pat", ""))
        qs.append(x)
    st = [{"k": s["k"], "l": s["l"], "m": s["m"]} for s in case["stmts"]]
    cm = [(s["_cm"] or [[]])[-1] for s in case["stmts"]]
    toks = {t for s in st for t in s["m"]} | {s["l"] for s in st if s["l"]} | {"$e", "$a", "$p"}
    return {"stmts": st, "q": qs, "lc": {t: list(t) for t in toks}, "cm": cm, "cc": {w: list(w) for c in cm for w in c}}
