"""Web pages: what SHOW STATEMENT /HTML and /ALT_HTML write (judged by PageTrace.tla)."""
import glob, html, os, random, re

from . import check, formcases as fc, gen, listcases as L, mm, obs, pacases as P, proofcases as pc

WORDS = "First axiom the of a proof uses also see here not and it is deduction Theorem form".split()


class PageDb(P.PaDb):
    def add_axiom(self, label=None):
        r = self.rng
        while label is None or label in self.used:
            label = r.choice(["ax-", "ax-", "df-", "q"]) + str(r.randint(1, 99))
        self.used.add(label)
        sv = self.avail("setvar") if "setvar" in self.tcs else []
        ov = [v for v in self.avail() if v not in sv]
        if not sv or not ov or r.random() < .4:
            return super().add_axiom(label)
        # set variables that may, or may not, occur in what is put for the others
        self.open()
        m = ["|-"]
        for _ in range(6):
            m = max(m, ["|-"] + self.try_expr(self.tcs[0], 3)[0], key=lambda x: len(set(x)) - len(x) // 12)
        for _ in range(r.randint(1, 3)):
            p = [r.choice(sv), r.choice(ov)]
            r.shuffle(p)
            if r.random() < .3:
                p += [v for v in sv if v not in p][:1]
            self.dvs(p)
        self.assertion("a", label, m)
        self.close()
        return label


def rename(db, l, new):
    for s in db.stmts:
        if s["l"] == l:
            s["l"] = new
    db.order = [new if x == l else x for x in db.order]
    db.frames = {new if x == l else x: f for x, f in db.frames.items()}
    for t in db.syntax:
        db.syntax[t] = [new if x == l else x for x in db.syntax[t]]


def make_db(rng, crowded=False):
    while not crowded and rng.random() < .1:      # without variables
        try:
            db = PageDb(rng, nvars=0, tcs=("wff",), nsyn=rng.randint(1, 2), nax=rng.randint(1, 2), maxd=1)
            for l, new in zip(list(db.syntax["wff"]), "vw"):
                rename(db, l, new)
            return db
        except (IndexError, RecursionError):
            continue
    while True:
        try:
            db = PageDb(rng, nvars=rng.randint(2, 3), tcs=rng.choice([("wff",), ("wff", "class"), ("wff", "class", "setvar"), ("wff", "setvar")]),
                        nsyn=rng.randint(1, 3), nax=rng.randint(2, 6), maxd=3)
        except (IndexError, RecursionError):
            continue
        done = tries = 0
        n = rng.choice([2, 4, 6])
        while done < n and tries < n * 8:
            tries += 1
            if rng.random() < .12:
                db.add_axiom()
            r = db.theorem(steps=rng.choice((2, 4, 8, 14)), maxlen=24, maxsize=80, twin=.25)
            if r is None:
                continue
            s, node = r
            s["pf"] = {"f": "n", "s": node.rpn()}
            s["_node"] = node
            done += 1
        if done:
            if not crowded or crowd(rng, db):
                return db


def crowd(rng, db):
    """Very many theorems that all use the same assertion."""
    l = rng.choice([x for x in db.order if db.frames[x]["m"][0] == "|-" and all(h["k"] == "f" for h in db.frames[x]["hyps"])] or [""])
    if not l:
        return False
    f = db.frames[l]
    if any(h["l"] not in db.fhyp.values() for h in f["hyps"]) or f["dv"]:
        return False
    for i in range(rng.randint(80, 100)):
        t = "%s%s%d" % ("x" * rng.randint(44, 52), l, i)
        db.assertion("p", t, f["m"])
        db.stmts[-1]["_node"] = gen.Node(l, [gen.Node(h["l"], [], h["m"]) for h in f["hyps"]], f["m"])
    return True


def derive(db, fh, t, m, i):
    """The derivation, in RPN, of the expression of type t at m[i:], and where it ends; None when there is none."""
    if i < len(m) and m[i] in fh and db.vtype[m[i]] == t:
        return [fh[m[i]]], i + 1
    for l in db.syntax[t]:
        f = db.frames[l]
        at, sub = i, {}
        for x in f["m"][1:]:
            if x in f["vars"]:
                if x in sub:
                    break
                r = derive(db, fh, db.vtype[x], m, at)
                if r is None:
                    break
                sub[x], at = r
            elif at < len(m) and m[at] == x:
                at += 1
            else:
                break
        else:
            return [y for h in f["hyps"] for y in sub[h["m"][1]]] + [l], at
    return None


def certificate(db, l, m):
    """A derivation that the formula is a wff, from the hypotheses of assertion l."""
    r = derive(db, {h["m"][1]: h["l"] for h in db.frames[l]["hyps"] if h["k"] == "f"}, "wff", m, 1)
    if r is None or r[1] != len(m):
        raise ValueError("no derivation of %s" % m)
    return {"m": m, "c": r[0]}


TAGS = ["Monk2", "A1", "TakeutiZaring"]


# --- comments -----------------------------------------------------------------------------------
def piece(t, s="", m=()):
    return {"t": t, "s": s, "m": list(m), "n": 0}


def comment(rng, db, labels):
    """Random pieces of a comment, and its text."""
    out, text = [], ""
    math = False
    for _ in range(rng.choice([1, 3, 6, 12])):
        x = rng.random()
        if x < .55:
            w = rng.choice(WORDS)
            out.append(piece("w", w))
            t = w
        elif x < .7:
            l = rng.choice(labels)
            out.append(piece("l", l))
            t = rng.choice(["~ ", "~", "~\n"]) + l
        elif x < .82 and not math:
            m = db.try_expr(db.tcs[0], rng.randint(0, 2))[0] if rng.random() < .8 else \
                [rng.choice(db.body + list(db.vtype)) for _ in range(rng.randint(1, 5))]
            out.append(piece("m", "", m))
            t = "` " + rng.choice([" ", " ", "\n  "]).join(m) + " `"
        elif x < .87:
            u = "http://" + "".join(rng.choice("abc.x/") for _ in range(6)) + "a"
            out.append(piece("u", u))
            t = "~ " + u
        elif x < .90:
            w = rng.choice(WORDS)
            out.append(piece("e", w))
            t = "_" + w + "_"
        elif x < .915:
            w = rng.choice(WORDS)
            out += [piece("w", rng.choice("AB")), piece("b", w)]
            t = out[-2]["s"] + "_" + w
        elif x < .93:
            w = rng.choice(TAGS)
            out.append(piece("r", w))
            t = "[" + w + "]"
        elif x < .95:
            c = rng.choice("~`[")
            out.append(piece("w", c))
            t = c * 2
        elif x < .97 and out and out[-1]["t"] != "p":
            out.append(piece("p"))
            text += "\n\n"
            continue
        else:
            c = rng.choice("<>")
            out.append(piece("w", c))
            t = c
        math = out[-1]["t"] == "m"
        text += (" " if not text or not text[-1].isspace() else "") + t
        if rng.random() < .25:
            c = rng.choice([".", ",", ";"])
            out.append(piece("w", c))
            text += rng.choice(["", " "]) if out[-2]["t"] in ("w", "e", "m", "b", "r") else " "
            text += c
        text += rng.choice([" ", " ", "  ", "\n   "])
    while out and out[-1]["t"] == "p":
        out.pop()
    if not out:
        return [piece("w", "A")], " A "
    return out, text.rstrip() + " "


# --- typesetting ----------------------------------------------------------------------------------
class Typeset:
    def __init__(self, rng, db, extra=()):
        toks = list(db.consts) + list(extra) + list(db.vtype)
        rng.shuffle(toks)
        self.code, self.back = {}, {}
        lines = []
        for i, t in enumerate(toks):
            for alt, kw, tag in ((0, "htmldef", "TT"), (1, "althtmldef", "VAR")):
                e = html.escape(t, quote=True).replace("&#x27;", "&#39;")
                s = "%s<%s>%s</%s>%s" % (rng.choice(["", " "]), tag, e, tag, rng.choice(["", " "]))
                q = rng.choice("\"'")
                k = rng.randint(1, len(s) - 1)
                s = q + s + q if rng.random() < .8 else q + s[:k] + q + rng.choice([" + ", "+", "\n  + "]) + q + s[k:] + q
                p = "'" if "'" not in t and rng.random() < .5 else '"'
                lines.append("%s %s%s%s as %s;" % (kw, p, t, p, s))
        rng.shuffle(lines)
        lines.append('htmltitle "Some Pages"; htmlhome \'<A HREF="mmset.html"><IMG SRC="a.gif">\';')
        lines.append('htmlbibliography "mmset.html";')
        self.text = "$( $t\n" + "\n".join(lines) + "\n$)\n"


def unmath(s, alt):
    tag = "VAR" if alt else "TT"
    rest = re.sub(r"<%s>[^<]*</%s>" % (tag, tag), "", s)
    rest = re.sub(r"</?SPAN[^>]*>", "", rest)
    if rest.strip() not in ("", "&nbsp;"):
        raise ValueError("formula: %r" % s[:200])
    return [html.unescape(x) for x in re.findall(r"<%s>([^<]*)</%s>" % (tag, tag), s)]


PINK = r'&nbsp;<SPAN CLASS=r STYLE="color:#[0-9A-F]{6}">(\d+)</SPAN>'


def one(rx, t, what, opt=False):
    m = re.findall(rx, t)
    if len(m) == 0 and opt:
        return None
    if len(m) != 1:
        raise ValueError("%d times: %s" % (len(m), what))
    return m[0]


def links(t, nums):
    """A list of links to assertions with their numbers."""
    out = []
    rest = t
    for m in re.finditer(r'<A HREF="([^"]+)\.html"(?: TITLE="[^"]*")?>([^<]*)</A>\s*' + PINK, t):
        if m.group(1) != m.group(2):
            raise ValueError("link to %s named %s" % (m.group(1), m.group(2)))
        nums.append({"l": m.group(1), "n": int(m.group(3))})
        out.append(m.group(1))
        rest = rest.replace(m.group(0), " ", 1)
    return out, rest


def describe(t, alt, nums):
    """The pieces of a description."""
    tag = "VAR" if alt else "TT"
    out = []
    rx = re.compile(r'<A HREF="([^"]+)\.html">([^<]*)</A>(?:%s)?|<A HREF="(http[^"]*)">([^<]*)</A>(?:%s)?|'
                    r'((?:<SPAN [^>]*>)?\s*(?:<%s>[^<]*</%s>\s*)+(?:</SPAN>)?)|<I>([^<]*)</I>|<P STYLE="margin-bottom:0em">|'
                    r'<SUB><FONT SIZE="-1">([^<]*)</FONT></SUB>|\[<A HREF="mmset\.html#([^"]*)">([^<]*)</A>\]|(&lt;|&gt;|&amp;)|([A-Za-z]+)|([^\s<&])|(\s+)|(.)' % (PINK, PINK, tag, tag), re.S)
    for m in rx.finditer(t):
        if m.group(0).startswith("<P ") and out and out[-1]["t"] == "p":
            continue                # an empty paragraph
        if m.group(1):
            if m.group(1) != m.group(2):
                raise ValueError("link: " + m.group(0))
            out.append(dict(piece("l", m.group(1)), n=int(m.group(3) or -1)))
        elif m.group(4):
            out.append(dict(piece("u", m.group(4)), n=int(m.group(6) or 0)))
            if m.group(4) != m.group(5):
                raise ValueError("link: " + m.group(0))
        elif m.group(7):
            out.append(piece("m", "", unmath(m.group(7), alt)))
        elif m.group(8):
            out.append(piece("e", m.group(8)))
        elif m.group(0).startswith("<P"):
            out.append(piece("p"))
        elif m.group(9):
            out.append(piece("b", m.group(9)))
        elif m.group(10):
            out.append(piece("r", m.group(10)))
            if m.group(10) != m.group(11):
                raise ValueError("link: " + m.group(0))
        elif m.group(12) or m.group(13) or m.group(14):
            out.append(piece("w", html.unescape(m.group(0))))
        elif m.group(16):
            raise ValueError("description: %r" % t[m.start():m.start() + 80])
    return out


def page(t, alt):
    """What a page says; ValueError when it is not a page."""
    if not t.startswith("<!DOCTYPE") or not t.rstrip().endswith("</BODY></HTML>"):
        raise ValueError("not a complete page")
    t = re.sub(r"\s+", " ", t)
    if "$t" in t:
        pass
    nums = []
    r = {}
    m = one(r'<CENTER><B><FONT SIZE="\+1">([A-Z][A-Za-z ]+) <FONT COLOR="#006633">(\S+)</FONT></FONT></B>' + PINK, t, "title")
    r["kind"], name, r["num"] = m[0], m[1], int(m[2])
    if "<TITLE>%s - " % name not in t:
        raise ValueError("title")
    m = one(r'<A HREF="(\S+)\.html"> &lt; (Previous|Wrap)</A>', t, "previous")
    r["prev"], r["wrapp"] = m[0], m[1] == "Wrap"
    m = one(r'<A HREF="(\S+)\.html">(Next|Wrap) &gt;</A>', t, "next")
    r["next"], r["wrapn"] = m[0], m[1] == "Wrap"
    m = one(r"<B>Description: </B>(.*?)</TD></TR></TABLE></CENTER>", t, "description", True)
    r["desc"] = describe(m, alt, nums) if m is not None else []
    m = one(r'SUMMARY="(Hypothes[ie]s)"> <CAPTION><B>Hypothes[ie]s</B></CAPTION> <TR><TH>Ref </TH><TH>Expression</TH></TR> (.*?)</TABLE>', t,
            "hypotheses", True)
    r["hyps"] = []
    if m:
        for a, b in re.findall(r"<TR ALIGN=LEFT><TD>(\S+?)</TD><TD>(.*?)</TD></TR>", m[1]):
            r["hyps"].append({"l": a, "m": unmath(b, alt)})
        if (len(r["hyps"]) == 1) != (m[0] == "Hypothesis"):
            raise ValueError("number of hypotheses")
    m = one(r'SUMMARY="Assertion"> <CAPTION><B>Assertion</B></CAPTION> <TR><TH>Ref </TH><TH>Expression</TH></TR> (.*?)</TABLE>', t, "assertion")
    m = one(r'<TR ALIGN=LEFT><TD><FONT COLOR="#006633"><B>(\S+)</B></FONT></TD><TD>(.*?)</TD></TR>', m, "assertion")
    if m[0] != name:
        raise ValueError("assertion of " + m[0])
    r["asr"] = unmath(m[1], alt)
    m = one(r'#distinct">Distinct variable</A> (groups?): (.*?)</CENTER>', t, "distinct variables", True)
    r["pairs"] = []
    if m:
        r["pairs"] = [unmath(g.replace(",", ""), alt) for g in m[1].split("&nbsp;")[1:]]
        if (m[0] == "groups") != (len(r["pairs"]) > 1):
            raise ValueError("number of groups")
    m = one(r'#allowedsubst">Allowed substitution</A> (hints?): (.*?)</CENTER>', t, "allowed substitutions", True)
    r["subst"] = []
    if m:
        for g in m[1].split("&nbsp;")[1:]:
            x = re.fullmatch(r"\s*(.*?)\((<(?:TT|VAR)>.*|\s*<(?:TT|VAR)>.*)\)\s*(?:</SPAN>)?\s*", g)
            if not x:
                raise ValueError("substitutions: " + g)
            v = unmath(x.group(1), alt)
            r["subst"].append({"v": v[0] if len(v) == 1 else "", "s": unmath(x.group(2).replace(",", ""), alt)})
    m = one(r'#dvnote1">Dummy variables?</A> (.*?) (?:is|are mutually distinct and) distinct from all other variables', t, "dummies", True)
    r["dummies"] = unmath(m, alt) if m else []
    r["rows"] = []
    m = one(r'SUMMARY="(Proof of theorem|Detailed syntax breakdown of (?:axiom|definition))">(.*?)</TABLE>', t, "proof", True)
    if m:
        want = {"Theorem": "Proof of theorem", "Axiom": "Detailed syntax breakdown of axiom",
                "Definition": "Detailed syntax breakdown of definition"}.get(r["kind"])
        if m[0] != want:
            raise ValueError("proof table of a %s: %s" % (r["kind"], m[0]))
        body = m[1].split("<TH>Expression</TH></TR>", 1)[1]
        for x in re.split(r"(?=<TR ALIGN=LEFT>)", body):
            if not x.strip():
                continue
            y = re.fullmatch(r'<TR ALIGN=LEFT><TD>(\d+)</TD><TD>(.*?)</TD><TD>(.*?)</TD><TD><A NAME="(\d+)"></A>\s*'
                             r'<SPAN CLASS=i>((?:\. )*)(\d+)</SPAN>(.*?)</TD></TR>\s*', x)
            if not y or y.group(1) != y.group(4) or y.group(5).count(".") + 1 != int(y.group(6)):
                raise ValueError("row: " + x)
            refs = []
            if y.group(2) != "&nbsp;":
                for g in y.group(2).split(", "):
                    z = re.fullmatch(r'<A HREF="#(\d+|\?)">(\d+|\?)</A>', g)
                    if not z or z.group(1) != z.group(2):
                        raise ValueError("reference: " + g)
                    refs.append(z.group(1))
            src = y.group(3)
            if "<A" in src:
                ls, rest = links(src, nums)
                if len(ls) != 1 or rest.strip():
                    if re.fullmatch(r'<A HREF="\?\.html">\?</A>', src):
                        ls = ["?"]
                    else:
                        raise ValueError("reference: " + src)
                src = ls[0]
            r["rows"].append({"n": int(y.group(1)), "refs": refs, "src": src, "d": int(y.group(6)) - 1, "f": unmath(y.group(7), alt)})
    m = one(r'<CENTER>(?:This syntax is primitive\.|See definition) (.*?)</CENTER>', t, "first use", True)
    r["first"] = ""
    if m:
        r["first"] = links(m, nums)[0][0]
        if r["first"].startswith("ax-") != ("The first axiom using it is" in m):
            raise ValueError("first use: " + m)
    m = one(r"<B>Syntax hints:</B>(.*?)</FONT></TD></TR>", t, "hints", True)
    r["hints"] = []
    if m:
        for g in re.split(r"&nbsp;(?!<SPAN CLASS=r)", m)[1:]:
            a = g.index("<A HREF")
            s = unmath(g[:a], alt)
            r["hints"].append({"s": s[0] if len(s) == 1 else "" if not s else "?", "l": links(g[a:], nums)[0][0]})
    for f, x in (("axioms", "This theorem was proved from axioms:"), ("defs", "This theorem depends on definitions:"),
                 ("refby", "This (?:theorem|axiom|definition) is referenced by:")):
        m = one(r"<B>%s</B>(.*?)</FONT></TD></TR>" % x, t, x, True)
        r[f], rest = links(m or "", nums)
        if m is not None and re.sub(r"&nbsp;|\s", "", rest) != ("" if r[f] else "(None)"):
            raise ValueError("%s %s" % (x, m))
        if f == "refby" and (m is None) != (r["kind"] == "Syntax Definition"):
            raise ValueError("references")
    r["gaps"] = []
    if "WARNING: This theorem has an incomplete proof." in t:
        r["gaps"] = [name]
    m = one(r"depends on the following unproved theorem\(s\): (.*?)</B>", t, "unproved", True)
    if m:
        r["gaps"] = re.findall(r'<A HREF="(\S+)\.html">', m)
        if r["gaps"] == [name]:
            raise ValueError("unproved theorem: only itself")
    if "severe error" in t:
        raise ValueError("severe error")
    r["nums"] = nums
    return name, r


# --- databases and sessions -------------------------------------------------------------------------
def make_crowded(seed):
    return make(seed, True)


def make(seed, crowded=False):
    """One session: one or two databases, each with the pages asked for."""
    rng = random.Random(seed)
    out = []
    for _ in range(1 if crowded else rng.choice([1, 1, 2])):
        db = make_db(rng, crowded)
        L.write_proofs(rng, db)
        labels = list(db.order)
        com, text = {}, {}
        for l in labels:
            if rng.random() < .85:
                com[l], text[l] = comment(rng, db, labels)
            else:
                com[l], text[l] = [], None
        cert = {l: [certificate(db, l, db.frames[l]["m"])] if db.frames[l]["m"][0] == "|-" else [] for l in labels}
        for l in labels:
            if db.frames[l]["k"] == "p":
                cert[l] += [certificate(db, l, h["m"]) for h in db.frames[l]["hyps"] if h["k"] == "e"]
        extra = []
        st = [dict(s) for s in db.stmts]
        if rng.random() < .5:
            extra = ["c0%d" % i for i in range(rng.randint(1, 4))]
            st.insert(0, {"k": "c", "l": "", "m": extra})
        ts = Typeset(rng, db, extra)
        out.append({"db": st, "com": com, "cert": cert, "lab3": {l: l[:3] for l in labels}, "_text": render(rng, st, text, ts)})
    return out, rng.randrange(1 << 30)


def render(rng, st, text, ts):
    out = []
    for s in st:
        t = fc.render([s])
        if s["k"] in "ap" and text.get(s["l"]):
            t = "$(" + text[s["l"]] + "$)" + rng.choice([" ", "\n"]) + t
        out.append(t)
    if rng.random() < .5:
        return "".join(out) + ts.text
    return ts.text + "".join(out)


def observe(exe, dbs, seed):
    rng = random.Random(seed)
    d = mm.scratch("pg-")
    res = {"obs": [], "bad": [], "died": None, "cmds": []}
    plan = []
    for i, x in enumerate(dbs):
        with open(os.path.join(d, "db%d.mm" % i), "w") as f:
            f.write(x["_text"])
    with open(os.path.join(d, "mmset.html"), "w") as f:
        f.write("<HTML>\n%s\n</HTML>\n" % "\n".join('<A NAME="%s"></A>' % t for t in TAGS))
    # every page command is a session of its own part of the list; pages are read after the session
    labels = [list(x["lab3"]) for x in dbs]
    cmds = []
    for i, x in enumerate(dbs):
        if i:
            cmds.append("erase")
        cmds.append('read "db%d.mm"' % i)
        sub = []
        last = i == len(dbs) - 1
        for _ in range(rng.choice([1, 2]) if last else 1):
            alt = rng.random() < .5
            crowded = len(labels[i]) > 60
            if crowded:
                pat = rng.choice(["?", "??", "???", "????", "?????", "?*-??"])
            elif last and rng.random() < .6:
                pat = "?*"
            else:
                pat = rng.choice(labels[i] + ["?" * rng.randint(1, 6), "ax-*", "*x*"[1:]])
            cmds.append("show statement %s /%s/no_versioning" % (pat, "alt_html" if alt else "html"))
            sub.append((pat, alt))
        plan.append(sub)
    cmds.append("exit")
    res["cmds"] = cmds
    r = mm.session(exe, cmds, d, timeout=300)
    if r.rc != 0 or len(r.chunks) != len(cmds):
        i = len(r.chunks) - 1
        m = re.search(r"DETECTED BUG (\d+)", r.text)
        res["died"] = "exit status %s after %d of %d commands%s: %s" % (r.rc, len(r.chunks), len(cmds), ", bug %s" % m.group(1) if m else "",
                                                                      cmds[min(i, len(cmds) - 1)])
        res["tail"] = r.text[-600:]
        return res
    # the last page command that matches a label leaves its page
    left = {}
    for i, sub in enumerate(plan):
        for pat, alt in sub:
            for l in labels[i]:
                if match(pat, l):
                    left[l] = (i, alt)
    files = {os.path.basename(p)[:-5] for p in glob.glob(d + "/*.html")} - {"mmset"}
    for w in re.findall(r"^\?(?:Error|Warning).*", r.text, re.M):
        if "has no comment" not in w and "was not declared in any" not in w:
            res["bad"].append("unexpected " + w)
    if files != set(left):
        res["bad"].append("pages %s instead of %s" % (sorted(files - set(left)), sorted(set(left) - files)))
    seen = [{l: [] for l in ls} for ls in labels]
    res["names"] = {}
    for l in sorted(files & set(left)):
        i, alt = left[l]
        t = open(os.path.join(d, l + ".html"), encoding="latin-1").read()
        try:
            name, p = page(t, alt)
            if name != l:
                raise ValueError("page of " + name)
            seen[i][l].append({"page": p})
            res["names"][(i, l)] = t
        except ValueError as e:
            res["bad"].append("the page of %s: %s" % (l, e))
    res["obs"] = seen
    return res


def match(pat, l):
    return re.fullmatch("".join(".*" if c == "*" else "." if c == "?" else re.escape(c) for c in pat), l) is not None


def judge(c, exe, sessions):
    recs = mm.pmap(lambda x: observe(exe, *x), sessions)
    cases, idx = [], []
    for (dbs, seed), r in zip(sessions, recs):
        rep = {"databases": [x["_text"] for x in dbs], "commands": r["cmds"]}
        if r["died"]:
            c.violation("the session died: " + r["died"], dict(rep, output_tail=r.get("tail", "")))
            continue
        for b in r["bad"]:
            c.violation(b[:300], rep)
        for i, x in enumerate(dbs):
            o = {}
            for l, ps in r["obs"][i].items():
                last = 0
                for p in ps:
                    for q in p["page"]["desc"]:
                        if q["t"] == "l":
                            last = q["n"]
                        elif q["t"] == "u" and q["n"]:
                            if q["n"] == last:
                                c.violation("a URL in a description is followed by a statement number (that of the label before it)",
                                            dict(rep, label=l))
                                q["n"] = 0
                o[l] = [p["page"] for p in ps]
            if any(o.values()):
                cases.append({"db": pc.strip(x["db"]), "lab3": x["lab3"], "com": x["com"], "cert": x["cert"], "obs": o})
                idx.append((rep, r, i))
    want = sum(len(o) for x in cases for o in x["obs"].values())
    if not want:
        return
    reps = check.validate(c, "PageTrace", cases)
    if len(reps) != want:
        raise mm.NoAnswer("PageTrace judged %d of %d pages" % (len(reps), want))
    for tag, d, l, k, v in reps:
        rep, r, i = idx[d - 1]
        if tag == "ACCEPT":
            if v[0] == "unfit":
                c.count("not_judged")
                continue
            c.traces(1)
            c.count("page_" + cases[d - 1]["obs"][l][0]["kind"].split()[0])
        else:
            c.violation("the page of %s says the wrong thing about: %s" % (l, ", ".join(v[1]) if len(v) > 1 else v[0]),
                        dict(rep, label=l, page=cases[d - 1]["obs"][l][0], expected=v, html=r["names"][(i, l)]))
