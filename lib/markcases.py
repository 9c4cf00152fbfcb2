"""Databases with conventions kept and broken, and what VERIFY MARKUP says about them (judged by MarkupTrace.tla)."""
import random, re, shutil
from . import mm, obs

MONTHS = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()
WORDS = ["the", "rule", "of", "detachment.", "a", "set", "(see", "also)", "by", "Revised", "Contributed", "x.", "1-Jan-2000."]
NAMES = ["NM", "N. Megill", "Ann B. Cox", "?who?", "DAW", "Mario C", "O'Cat"]


def date(rng, base=None):
    d = base or (rng.choice([1, 30, 31, rng.randint(1, 31), rng.randint(1, 31)]), rng.randint(1, 12), rng.choice([1993, 1994, 1999, 2000, 2005, 2019, 2020, 2021]))
    if base and rng.random() < .8:       # a date near another one
        d = list(base)
        k = rng.randrange(3)
        d[k] = max(1, min((31, 12, 2030)[k], d[k] + rng.choice([-1, 0, 1])))
        if rng.random() < .3:
            k = rng.randrange(3)
            d[k] = max((1, 1, 1993)[k], min((31, 12, 2030)[k], d[k] + rng.choice([-2, 1, 2])))
        if rng.random() < .35:          # around the turn of a month or year
            m = base[1] % 12 + 1
            d = rng.choice([[1, m, base[2] + (m == 1)], [31, base[1], base[2]], [30, base[1], base[2]], [1, base[1], base[2]],
                            [31, (base[1] - 2) % 12 + 1, base[2] - (base[1] == 1)]])
        d = tuple(d)
    x = rng.random()
    y = d[2]
    if x < .88:
        return d, "%d-%s-%d" % (d[0], MONTHS[d[1] - 1], y)
    if x < .92:
        return d, "%02d-%s-%d" % (d[0], MONTHS[d[1] - 1], y)
    if x < .95:
        return d, "%d-%s-%02d" % (d[0], MONTHS[d[1] - 1], y % 100)
    return d, rng.choice(["5-aug-1993", "1993-08-05", "Aug-1993", "5-Augu-1993", "today", "5/8/1993"])


def tag(rng, how, base):
    d, t = date(rng, base)
    x = rng.random()
    who = rng.choice(NAMES) if x < .9 else rng.choice(["", "A, B", "A,", "Z"])
    sep = "," if rng.random() < .94 else ""
    end = ".)" if rng.random() < .95 else rng.choice([")", ".", "."])
    return d, (how + " " + who + sep + " " + t + end).split()


def description(rng):
    """The words of a description."""
    w = [rng.choice(WORDS) for _ in range(rng.choice([0, 1, 3, 6, 14]))]
    x = rng.random()
    hows = ["(Contributed by"] if x < .93 else [] if x < .96 else ["(Contributed by"] * 2
    hows += [rng.choice(["(Revised by", "(Proof shortened by"]) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]
    if rng.random() < .12:
        rng.shuffle(hows)
    base = None
    for h in hows:
        later = base
        if base and rng.random() < .6:      # mostly in order
            later = (rng.randint(1, 31), rng.randint(1, 12), min(2030, base[2] + rng.randint(1, 3)))
            base, t = later, None
            t = tag(rng, h, later)
            base, t = t
        else:
            base, t = tag(rng, h, base)
        w += t
        if rng.random() < .2:
            w += [rng.choice(WORDS) for _ in range(rng.randint(1, 3))]
    for m in ("(Proof modification is discouraged.)", "(New usage is discouraged.)"):
        y = rng.random()
        if y < .25:
            k = rng.choice([0, len(w)])
            w[k:k] = m.split()
        elif y < .3:
            w += m.replace("is ", rng.choice(["is", "was ", ""])).split()
    return w


def label(rng, used, k):
    while True:
        x = rng.random()
        if k == "a" and x < .75:
            l = rng.choice(["ax-", "ax-", "df-", "ax", "df", "AX-"]) + rng.choice("1 2 3 4 mp gen 5OLD 6ALT".split())
        elif k == "p" and x < .4:
            l = "ax" + rng.choice("1 2 3 4 mp gen 5OLD -7".split())
        elif x < .5:
            l = rng.choice("con CON aux prn nul com1 LPT9 lpt10 com0 clock mm Mmx mmset xcon com mM1".split())
        else:
            l = rng.choice(["th", "id", "a1i", "syl"]) + rng.choice(["", "_x", "OLD", "ALT", "old", "_", "OLDX", "ALTOLD"]) + str(rng.randint(1, 40)) * (rng.random() < .5)
        if l not in used and l != "mathbox":
            used.add(l)
            return l


def make_db(rng):
    consts = ["wff", "|-", "p", "q"] + rng.sample(["@", "a@b", "?", "what?", "#", "->"], rng.randint(0, 2))
    st, used = [], {"x", "y", "z", "mathbox"} | set(consts)
    S = lambda k, l, m, **kw: st.append(dict({"k": k, "l": l, "m": m, "w": [], "box": "", "pf": {"f": "n", "s": []}}, **kw))
    S("c", "", consts)
    vs = ["x", "y", "z"] + (["u?"] if rng.random() < .1 else [])
    S("v", "", vs)
    fl = {}
    for v in vs:
        fl[v] = rng.choice(["w%s", "w%s", "w_%s"]) % v.strip("?")
        used.add(fl[v])
        S("f", fl[v], ["wff", v])
    facts = []       # theorems without hypotheses: label, variables of the frame (in order), formula
    forms = [["|-", "p", "x"], ["|-", "q", "x"], ["|-", "p", "y"], ["|-", "p", "p", "x", "y"], ["|-", "q", "x", "y", "z"]]
    big = rng.random() < .6
    nb = 0
    boxed = False
    N = rng.randint(3, 12)
    for i in range(N):
        head = ""
        if big and not boxed and i >= N // 3:
            S("a", "mathbox", ["wff", "q", "x"], w=[] if rng.random() < .5 else description(rng))
            facts.append(("mathbox", ["x"], ["wff", "q", "x"]))
            boxed = True
            nb = 1
        if boxed and rng.random() < (.8 if nb == 1 else .4):
            head = rng.choice(["Ann", "Bob B", "Cy", "D"]) + str(nb)
            nb += 1
        if head and rng.random() < .15:      # a declaration first
            S("v", "", ["b%d" % nb], box=head)
            l = "wb%d" % nb
            used.add(l)
            S("f", l, ["wff", "b%d" % nb])
            fl["b%d" % nb] = l
            facts.append((l, None, None))
            head = ""
        k = "a" if rng.random() < .45 else "p"
        hy = rng.random() < .25
        dv = rng.random() < .3
        l = label(rng, used, k)
        opened = hy or dv
        if opened:
            S("{", "", [], box=head)
            head = ""
        if dv:
            S("d", "", rng.choice([["x", "y"], ["x", "y"], ["y", "z"], ["x", "y", "z"]]))
        hs = []
        if hy:
            for j in range(rng.choice([1, 1, 2])):
                e = rng.choice(["%s.%d", "%s_%d"]) % (l, j + 1)
                used.add(e)
                hs.append((e, rng.choice(forms[:3])))
                S("e", e, list(hs[-1][1]))
        m = list(rng.choice(forms[:2]) if rng.random() < .6 else rng.choice(forms))
        if k == "a" and rng.random() < .2:
            m[0] = "wff"
        pf = ["?"]
        if k == "p":
            can = [f for f in facts if f[1] is not None]
            c = []
            if can and rng.random() < .85:
                t = rng.choice(can[-4:] if rng.random() < .5 else can)
                m, pf = list(t[2]), [fl[v] for v in t[1]] + [t[0]]
                news = [f for f in facts if f[1] is None]
                if news and len(t[1]) == 1 and rng.random() < .4:      # a variable of some mathbox in place of the other
                    f = rng.choice(news)[0]
                    v = [x for x in fl if fl[x] == f][0]
                    m, pf = [v if x == t[1][0] else x for x in m], [f, t[0]]
            elif hs and rng.random() < .7:
                m, pf = list(hs[-1][1]), [hs[-1][0]]
        S(k, l, m, w=description(rng) if rng.random() < .92 else [], pf={"f": "n", "s": pf}, box=head)
        if not hs:
            facts.append((l, [v for v in fl if v in m], m))
        if opened:
            S("}", "", [])
    return st


def fill(rng, words, width, indent):
    lines, cur = [], ""
    for w in words:
        if cur and len(cur) + 1 + len(w) > width:
            lines.append(cur)
            cur = indent
        cur += (" " if cur.strip() else "") + w
    return lines + [cur]


def render(rng, st, top, width):
    """(lines of the file)."""
    wild = rng.random() < .5
    L = []
    if top is not None:
        L.append("$( t.mm - Version of %s $)" % top)
    syms = [x for s in st if s["k"] in "cv" for x in s["m"]]
    L.append("$( $t")
    for x in syms:
        for d in ("latexdef", "htmldef", "althtmldef"):
            L.append('%s "%s" as "%s";' % (d, x, "T"))
    L.append("$)")
    for s in st:
        if s["box"]:
            bar = "#*" * 30
            heads = [s["box"]] if rng.random() < .9 else ["No one", s["box"]]
            for h in heads:
                L += ["$(", bar, "   Mathbox for " + h, bar, "$)"]
        if s["k"] in "ap":
            if rng.random() < .1:
                L.append("$( A remark. (Contributed by QQ, 1-Jan-2030.) (New usage is discouraged.) $)")
                if not s["w"]:
                    L[-1] = ""
            if s["w"]:
                L += fill(rng, ["$("] + s["w"] + ["$)"], 58, "   ")
        kw = {"{": "${", "}": "$}"}.get(s["k"], "$" + s["k"])
        t = ([s["l"]] if s["l"] else []) + [kw] + s["m"]
        if s["k"] == "p":
            t += ["$="] + s["pf"]["s"]
        if s["k"] not in "{}":
            t.append("$.")
        L += fill(rng, t, 58, "  ")
    for i in range(len(L)):
        x = rng.random()
        if not wild or x > .12 or "Mathbox" in L[i] or L[i].startswith("#*"):
            continue
        if x < .03:
            L[i] += rng.choice([" ", "  "])
        elif x < .05:
            L[i] = "\t" + L[i] + "\t" * rng.choice([0, 0, 1])
        elif x < .12 and L[i] and not L[i].startswith(("$(", " ")):
            n = width - len(L[i]) + rng.choice([-1, 0, 1, 2, 9])
            if 0 < n < 300:
                L[i] = " " * n + L[i]
    return L + ([""] if rng.random() < .2 else [])


RX = [
    (r'In statement "(\S+)" at line \d+ in file "[^"]*"\. *Underscores', "underscore"),
    (r'In statement "(\S+)" at line \d+ in file "[^"]*"\. *To workaround', "reserved"),
    (r'In the \$a statement "(\S+)" at line \d+ in file "[^"]*", the label does not start', "prefix"),
    (r'The token "(\S+)" declared at line \d+ in file "[^"]*" has an "@"', "at"),
    (r'The token "(\S+)" declared at line \d+ in file "[^"]*" has a "\?"', "question"),
    (r'The assertions for statements "(\S+)" and', "assertions"),
    (r'Statement "(\S+)" has \d+ mandatory hypotheses but', "hypothesis count"),
    (r'The mandatory distinct variable pairs for statements "(\S+)" and', "distinct"),
    (r'The mandatory hypotheses of statements "(\S+)" and', "hypotheses"),
    (r'Line number (\d+) ends with a space', "space"),
    (r'Line number (\d+) has (\d+) characters', "long"),
    (r'Line number (\d+) contains a tab', "tab"),
    (r'Contributor "\?who\?" should be updated in statement "(\S+)"\.', "contributor"),
    (r'Reviser "\?who\?" should be updated in statement "(\S+)"\.', "reviser"),
    (r'Statement "(\S+)" is a \$a but has a "\(Proof mod', "axiom discouraged"),
    (r'Statement "(\S+)" has suffix "\w+" but has no "\(Proof mod', "proof mark"),
    (r'Statement "(\S+)" has suffix "\w+" but has no "\(New us', "usage mark"),
    (r'There is no "Version of "()', "no version"),
    (r'The Version date "(\S*)" at the top', "bad version"),
    (r'The "Version of" date (\S+) at the top', "old version"),
    (r'The proof of (?:statement )?"(\S+)" in the mathbox for "?([^"]+?)"?(?: at line \d+ in file "[^"]*")? references (?:statement )?"(\S+)" in the mathbox for "?([^"]+?)"?(?: at line.*)?\.(?:  ?\(Use.*)?$', "mathbox"),
]
AT = r' comment above statement \d+, label "(\S+)"\.'
RX += [(r + ".*" + AT, k) for r, k in [
    (r'There is no "\(Contributed by\.\.\.\)" in the', "none"),
    (r'There is more than one "\(Contributed', "many"),
    (r'There is no comma between contributor', "commaC"), (r'There is no comma between reviser', "commaR"),
    (r'There is no comma between proof shortener', "commaS"),
    (r'There is a comma in the contributor', "nameC"), (r'There is a comma in the reviser', "nameR"),
    (r'There is a comma in the proof shortener', "nameS"),
    (r'"\(Contributed by\.\.\.\)" is placed after', "after"),
    (r'There is a formatting error in a "\(Contr', "form"),
    (r'There is a formatting error in the "\(Contributed by\.\.\.\)" date', "dateC"),
    (r'There is a formatting error in the "\(Revised by\.\.\.\)" date', "dateR"),
    (r'There is a formatting error in the "\(Proof shortened by\.\.\.\)" date', "dateS"),
    (r'The "\(Contributed by\.\.\.\)" date is not earlier', "early"),
    (r'The "\(Revised by\.\.\.\)" and "\(Proof shortened by\.\.\.\)" dates are in the wrong order', "order")]]
RX = [(re.compile(a), b) for a, b in RX]


def findings(out):
    """The warnings of one audit as [kind, about, n]."""
    recs = []
    for l in out.split("\n"):
        if l.startswith("?"):
            recs.append(l)
        elif l.startswith("  ") and recs and not (recs[-1].endswith("or less):")):
            recs[-1] += " " + l.strip()
        elif l.startswith("  ") and recs:
            recs[-1] += "|"
    res = []
    for r in recs:
        r = r.rstrip("|")
        x = r[len("?Warning: "):] if r.startswith("?Warning: ") else None
        hit = None
        for rx, k in RX:
            m = x is not None and rx.match(x)
            if m:
                g = m.groups()
                hit = [k, g[0] + ":" + g[1] if k == "long" else " ".join(g)]
                break
        hit = hit or ["unknown", r]
        res.append(hit + [1 + sum(1 for y in res if y[:2] == hit)])
    return res


def make(seed):
    rng = random.Random(seed)
    top = rng.choice([None, "", "x"]) if rng.random() < .2 else "x"
    if top == "x":
        top = date(random.Random(rng.random()))[1]
        while top == "5-Augu-1993":
            top = date(rng)[1]
        if rng.random() < .15:
            top = rng.choice(["0-Jan-2030", "32-Jan-2030", "31-Dec-2030", "1-Jan-1990", "99-Aug-2020", "5-Agu-2030", "1-anF-2030", "5-JAN-2030"])
    if top == "":
        top = None
    st = make_db(rng)
    width = rng.choice([79, 79, 60, 100, 120])
    labs = [s["l"] for s in st if s["l"]]
    qs = []
    for _ in range(3):
        pat = "*"
        if rng.random() < .3:
            l = rng.choice(labs)
            pat = rng.choice([l, l[:2] + "*", "*" + l[-1:], l[:1] + "?*", "ax*", "?" * len(l)])
        qs.append({"pat": pat, "date": rng.random() < .8, "top": rng.random() < .5, "under": rng.random() < .7, "box": rng.random() < .8,
                   "verbose": rng.random() < .3})
    return {"seed": seed, "stmts": st, "lines": render(rng, st, top, width), "top": top or "", "width": width, "qs": qs}


def command(q):
    return "VERIFY MARKUP %s%s%s%s%s%s" % (q["pat"], "" if q["date"] else " / DATE_SKIP", " / TOP_DATE_CHECK" if q["top"] else "",
                                           "" if q["under"] else " / UNDERSCORE_SKIP", "" if q["box"] else " / MATHBOX_SKIP", " / VERBOSE" if q["verbose"] else "")


def run(exe, cases):
    """One session auditing several databases in turn.  Fills in what was said; returns a problem or None."""
    d = mm.scratch("mk-")
    try:
        cmds, at = [], []
        for i, x in enumerate(cases):
            with open(d + "/t%d.mm" % i, "w") as f:
                f.write("".join(l + "\n" for l in x["lines"]))
            if i:
                cmds.append("ERASE")
            cmds += ["SET WIDTH 9999", 'READ "t%d.mm"' % i, "SET WIDTH %d" % x["width"]]
            at.append((len(cmds) - 2, len(cmds)))
            cmds += [command(q) for q in x["qs"]]
        r = mm.session(exe, cmds, d, timeout=60)
        if r.rc != 0 or len(r.chunks) < len(cmds):
            return "the program stopped (exit status %s): %s" % (r.rc, r.text[-800:])
        if "BUG CHECK" in r.text:
            return "internal error: " + r.text[r.text.index("BUG CHECK") - 300:][:600]
        for x, (k, j) in zip(cases, at):
            if not obs.read_ok(r.out(k)):
                return "the source was rejected: " + r.out(k)[:600]
            for n, q in enumerate(x["qs"]):
                o = r.out(j + n)
                q["said"] = findings(o)
                q["clean"] = "No errors were found." in o
                q["_out"] = o
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def record(x):
    return {"db": [dict(s, c=list(s["l"])) for s in x["stmts"]], "lines": x["lines"], "top": x["top"], "width": x["width"],
            "qs": [dict({k: v for k, v in q.items() if k != "_out"}, pat=list(q["pat"])) for q in x["qs"]]}
