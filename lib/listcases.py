"""Listings of proofs: what SHOW PROOF and SHOW NEW_PROOF display (judged by ListTrace.tla)."""
import os, random, re

from . import check, formcases as fc, gen, mm, obs, pa, pacases as P, proofcases as pc

NOOPT = {"all": False, "from": 0, "to": 0, "depth": 0, "renumber": False, "unknown": False, "notunified": False,
         "reverse": False, "lemmon": False, "norep": False, "page": False}


def options(rng, n, new=False):
    """A random set of qualifiers: (text, meaning)."""
    o = dict(NOOPT)
    q = []
    dense = rng.choice([.1, .2, .4])

    def on(p=None):
        return rng.random() < (dense if p is None else p)
    if on(.4):
        o["all"] = True
        q.append("/all")
    elif on(.2):
        q.append("/essential")
    if on():
        o["from"] = rng.randint(1, n + 1)
        q.append("/from_step %d" % o["from"])
    if on():
        o["to"] = rng.randint(1, n + 2)
        q.append("/to_step %d" % o["to"])
    if on():
        o["depth"] = rng.randint(1, 6)
        q.append("/depth %d" % o["depth"])
    if on(.4):
        o["renumber"] = True
        q.append("/renumber")
    if on(.25 if new else .15):
        o["unknown"] = True
        q.append("/unknown")
    if new and on(.25):
        o["notunified"] = True
        q.append("/not_unified")
    if on():
        o["reverse"] = True
        q.append("/reverse")
    if on(.5):
        o["lemmon"] = True
        q.append("/lemmon")
        if on(.5):
            o["norep"] = True
            q.append("/no_repeated_steps")
        if on(.3):
            q.append("/start_column %d" % rng.choice([1, 10, 20, 33, 50]))
    rng.shuffle(q)
    return " ".join(q), o


ROW = re.compile(r"^( *(\d+))(( -\d+)?) ( *)(?:(\d+):)?(\S+?)(?:=(\S+))? +\$([aepf?]) ?(.*)$")
PLAIN = re.compile(r"^( *(\d+))(()) ( *)(?:(\d+):)?(\S+?)(?:=(\S+))? +\$([aepf?]) ?(.*)$")
LEM = re.compile(r"^ *(\d+) (.*?) +\$([aepf?]) ?(.*)$")
SRC = re.compile(r"^ +=(\S+) +  = (.*)$|^ +=(\S+)  = (.*)$")
LSRC = re.compile(r"^ +(\(User\))? *= (.*)$")


def rows(text, o):
    """The rows of a listing; ValueError for anything else."""
    out = []
    for l in text.split("\n"):
        if not l.strip():
            continue
        if o["lemmon"]:
            m = LEM.match(l)
            if m:
                n, mid, ty, f = m.groups()
                t = mid.split()
                loc = ""
                if re.fullmatch(r"@\d+:", t[-1]):
                    loc = t.pop()[1:-1]
                if len(t) not in (1, 2):
                    raise ValueError("line: " + l)
                out.append({"n": int(n), "loc": loc, "tgt": "", "src": t[-1], "refs": t[0].split(",") if len(t) == 2 else [],
                            "d": 0, "rel": "", "ty": ty, "f": f.split(), "s": [], "u": []})
                continue
            m = LSRC.match(l)
            if m and out:
                out[-1]["u" if m.group(1) else "s"] = m.group(2).split()
                continue
            raise ValueError("line: " + l)
        m = (ROW if o["unknown"] else PLAIN).match(l)
        if m:
            num, n, rel, _, sp, loc, tgt, src, ty, f = m.groups()
            d = -1 if o["unknown"] or (loc and not sp) else len(sp) + (len(loc) + 1 if loc else 0)
            if d > 0 and d % 2:
                raise ValueError("odd indentation: " + l)
            out.append({"n": int(n), "loc": loc or "", "tgt": tgt, "src": src or "", "refs": [], "d": d // 2 if d > 0 else d,
                        "rel": rel.strip(), "ty": ty, "f": f.split(), "s": [], "u": []})
            continue
        m = SRC.match(l)
        if m and out:
            lab = m.group(1) or m.group(3)
            f = (m.group(2) if m.group(1) else m.group(4)).split()
            if lab == "(User)":
                out[-1]["u"] = f
            elif not out[-1]["src"]:
                out[-1]["src"] = lab
                out[-1]["s"] = f
            else:
                raise ValueError("line: " + l)
            continue
        raise ValueError("line: " + l)
    return out


def summary(text):
    out = []
    for l in text.split("\n")[1:]:
        if not l.strip() or l.startswith("Statement "):
            if l.startswith("Statement "):
                out.append({"l": l.split()[1], "k": "", "m": [], "hyps": []})
            continue
        m = re.match(r"^  (\S+) \$([aepf]) (.*?)( \$= \.\.\.)? \$\.$", l)
        if not m or not out:
            raise ValueError("line: " + l)
        x = {"l": m.group(1), "k": m.group(2), "m": m.group(3).split()}
        if x["k"] in "ef":
            out[-1]["hyps"].append(x)
        elif x["l"] == out[-1]["l"] and not out[-1]["k"] and (x["k"] == "p") == bool(m.group(4)):
            out[-1].update(k=x["k"], m=x["m"])
        else:
            raise ValueError("line: " + l)
    return out


def substitutions(lines):
    s = []
    if lines and lines[0] == "    (None)":
        return [], lines[1:]
    if not lines or lines[0] != "    Variable  Substituted with":
        raise ValueError("substitutions: %r" % lines[:1])
    i = 1
    while i < len(lines) and lines[i].startswith("     "):
        t = lines[i].split()
        s.append({"v": t[0], "x": t[1:]})
        i += 1
    return s, lines[i:]


def detail(text):
    ls = [l for l in text.split("\n") if l.strip()]
    m = re.match(r"^Proof step (\d+):  (?:(\S+?):)?(\S+?)=(\S+) \$([aepf?]) ?(.*)$", ls[0])
    if not m:
        raise ValueError("line: " + ls[0])
    r = {"n": int(m.group(1)), "loc": m.group(2) or "", "tgt": m.group(3), "src": m.group(4), "ty": m.group(5), "f": m.group(6).split(),
         "from": 0, "hyps": [], "up": {"l": "", "k": "", "n": 0}, "asr": [], "hyp": [], "ssub": [], "tsub": []}
    t = ls[1]
    m = re.search(r'assigns step (\d+) \(via local label reference "(\S+?)"\)', t)
    if m:
        r["from"] = int(m.group(1))
        if m.group(2) != r["src"]:
            raise ValueError("local label: " + t)
    else:
        m = re.search(r'assigns source "(\S+)" \(\$([aepf])\)', t)
        if not m or m.group(1) != r["src"] or m.group(2) != r["ty"]:
            raise ValueError("source: " + t)
    m = re.search(r' to target "(\S+)" \(\$([aepf])\)\.', t)
    if m:
        if m.group(1) != r["tgt"]:
            raise ValueError("target: " + t)
    elif "the final assertion being proved." not in t:
        raise ValueError("target: " + t)
    m = re.search(r"also declares the local label (\S+), which", t)
    if (m.group(1) if m else "") != r["loc"]:
        raise ValueError("declared label: " + t)
    m = re.search(r"The source assertion requires the hypothes[ie]s (.*?\))\.  The", t)
    if m:
        r["hyps"] = [{"l": a, "k": b, "n": int(c)} for a, b, c in re.findall(r'"(\S+?)" \(\$([ef]), step (\d+)\)', m.group(1))]
    elif r["ty"] in "ap" and not r["from"] and "The source assertion requires no hypotheses." not in t:
        raise ValueError("hypotheses: " + t)
    m = re.search(r'The parent assertion of the target hypothesis is "(\S+?)" \(\$([ap]),\s*step (\d+)\)\.', t)
    if m:
        r["up"] = {"l": m.group(1), "k": m.group(2), "n": int(m.group(3))}
    elif "The target has no parent" not in t:
        raise ValueError("parent: " + t)
    ls = ls[2:]
    while ls:
        if ls[0].startswith("The source assertion before substitution was:") or ls[0].startswith("The target hypothesis before"):
            src = "source" in ls[0]
            m = re.match(r"^    (\S+) \$([aepf]) (.*)$", ls[1])
            if not m or m.group(1) != (r["src"] if src else r["tgt"]):
                raise ValueError("line: " + ls[1])
            r["asr" if src else "hyp"] = m.group(3).split()
            if not re.match(r"^The following substitutions? w(as|ere) made to the (source assertion|target hypothesis):$", ls[2]):
                raise ValueError("line: " + ls[2])
            s, rest = substitutions(ls[3:])
            if (len(s) == 1) != ("substitution was" in ls[2]):
                raise ValueError("line: " + ls[2])
            r["ssub" if src else "tsub"] = s
            ls = rest
        else:
            raise ValueError("line: " + ls[0])
    return r


# --- databases --------------------------------------------------------------------------------
def odd_theorems(rng, db):
    """Assertions with an essential hypothesis of a syntax typecode, and theorems using them."""
    t = rng.choice(db.tcs)
    v = rng.choice(db.avail(t))
    db.open()
    h = [t, v] if rng.random() < .6 else [t] + db.try_expr(t, 1)[0]
    db.hyp(h)
    lab = db.label("odd")
    m = ["|-"] + db.try_expr(db.tcs[0], 1)[0]
    db.assertion("a", lab, m)
    db.close()
    for _ in range(rng.randint(1, 2)):
        f = db.frames[lab]
        sub, kids = {}, []
        for hy in f["hyps"]:
            if hy["k"] == "f":
                e, n = db.try_expr(hy["m"][0], rng.choice([0, 0, 1, 2]))
                sub[hy["m"][1]] = e
                kids.append(n)
        kids2 = []
        it = iter(kids)
        for hy in f["hyps"]:
            if hy["k"] == "f":
                kids2.append(next(it))
            else:
                g = gen.subst(hy["m"], sub)
                n = db.parse(g[0], g[1:])
                if n is None:
                    return
                kids2.append(n)
        node = gen.Node(lab, kids2, gen.subst(f["m"], sub))
        for p in f["dv"]:
            a, b = tuple(p)
            return
        s = db.assertion("p", db.label("th"), node.f)
        s["pf"] = {"f": "n", "s": node.rpn()}
        s["_node"] = node


def make(seed):
    rng = random.Random(seed)
    db = pc.make_db(rng, rng.choice([4, 8]), steps=(4, 8, 20, 40) if rng.random() < .8 else (40, 100), maxlen=80, maxsize=300)
    if rng.random() < .4:
        odd_theorems(rng, db)
    write_proofs(rng, db)
    return [dict(s) for s in db.stmts], rng.randrange(1 << 30)


def write_proofs(rng, db):
    """Write every proof in some form, some with holes."""
    for s in db.stmts:
        if s["k"] != "p":
            continue
        node = s["_node"]
        if rng.random() < .3:
            node = fc.holes(rng, node, rng.choice([.02, .1, .3]))
        how = rng.choice(["normal", "packed", "compressed", "compressed"])
        if how == "compressed":
            mand = [h["l"] for h in db.frames[s["l"]]["hyps"]]
            ls, cs = gen.compress(node, mand, lambda l: l in db.frames, rng, share=rng.choice([0, .5, 1]),
                                  order=rng.choice([None, "shuffle"]))
            if "?" not in ls:
                s["pf"] = {"f": "c", "ls": ls, "cs": list(cs)}
                s["_text"] = gen.proof_text(s["pf"])
        if how != "compressed" or "_text" not in s:
            t = fc.write_form(rng, node, db, s["l"], "packed" if how == "packed" else "normal")
            s["pf"] = {"f": "t", "s": t}
            s["_text"] = fc.glue(rng, t)
        s.pop("_node", None)


def proof_len(s):
    return len([x for x in (s["pf"]["s"] if s["pf"]["f"] == "t" else s["pf"]["cs"]) if x not in (":", "=")])


HEAD = re.compile(r'(?m)^Proof of "(\S+)":\n')


def observe(exe, st, seed, depth=6):
    rng = random.Random(seed)
    ths = [s for s in st if s["k"] == "p"]
    labels = [s["l"] for s in ths]
    d = mm.scratch("ls-")
    with open(os.path.join(d, "db.mm"), "w") as f:
        f.write(fc.render(st))
    cmds, acts = ['read "db.mm"'], [None]
    for s in ths:
        n = proof_len(s)
        for _ in range(depth):
            q, o = options(rng, n)
            cmds.append("show proof %s %s" % (s["l"], q))
            acts.append(("list", s["l"], o))
        a = rng.random() < .5
        cmds.append("show proof %s /statement_summary%s" % (s["l"], " /all" if a else ""))
        acts.append(("summary", s["l"], a))
        for _ in range(3):
            k = rng.randint(1, n) if rng.random() < .95 else rng.choice([-1, n + 50])
            cmds.append("show proof %s /detailed_step %d" % (s["l"], k))
            acts.append(("detail", s["l"], k))
        cmds.append("show proof %s /size" % s["l"])
        acts.append(("size", s["l"], len(" $= " + s["_text"] + " ") - 3))
    for pat in ("*", "?" * len(rng.choice(labels))):
        q, o = options(rng, 20)
        cmds.append("show proof %s %s" % (pat, q))
        acts.append(("many", [l for l in labels if pat == "*" or len(l) == len(pat)], o))
    cmds.append("exit")
    r = mm.session(exe, cmds, d, timeout=300)
    res = {"obs": {l: [] for l in labels}, "cmds": {l: [] for l in labels}, "bad": [], "died": None, "tail": r.text[-600:]}
    if r.rc != 0 or len(r.chunks) != len(cmds):
        i = len(r.chunks) - 1
        m = re.search(r"DETECTED BUG (\d+)", r.text)
        res["died"] = "exit status %s after %d of %d commands%s: %s" % (r.rc, len(r.chunks), len(cmds), ", bug %s" % m.group(1) if m else "",
                                                                      cmds[min(i, len(cmds) - 1)])
        return res
    if not obs.read_ok(r.out(0)):
        res["bad"].append("the program rejected the source: " + r.out(0)[:500])
        return res

    def add(l, x, cmd):
        res["obs"][l].append(x)
        res["cmds"][l].append(cmd)
    for i, a in enumerate(acts):
        if a is None:
            continue
        o = r.out(i)
        try:
            if "?Error" in o and a[0] in ("list", "detail"):
                add(a[1], {"what": "error"}, cmds[i])
            elif a[0] == "list":
                add(a[1], {"what": "list", "o": a[2], "rows": rows(o, a[2])}, cmds[i])
            elif a[0] == "summary":
                add(a[1], {"what": "summary", "all": a[2], "rows": summary(o)}, cmds[i])
            elif a[0] == "detail":
                ref = re.search(r"(?m)^\?", o) is not None
                add(a[1], {"what": "detail", "k": a[2], "refused": ref, "row": {} if ref else detail(o)}, cmds[i])
            elif a[0] == "size":
                m = re.match(r'The proof source for "(\S+)" has (\d+) characters\.', o)
                add(a[1], {"what": "size", "n": int(m.group(2)) if m and m.group(1) == a[1] else -1, "len": a[2]}, cmds[i])
            else:
                parts = HEAD.split(o)
                if parts[0].strip() or parts[1::2] != a[1]:
                    res["bad"].append("%s lists %s instead of %s" % (cmds[i], parts[1::2], a[1]))
                    continue
                for l, t in zip(parts[1::2], parts[2::2]):
                    add(l, {"what": "error"} if "?Error" in t else {"what": "list", "o": a[2], "rows": rows(t, a[2])}, cmds[i])
        except ValueError as e:
            res["bad"].append("%s: not a listing: %s" % (cmds[i], e))
    return res


def judge(c, exe, dbs):
    """Listings of stored proofs."""
    recs = mm.pmap(lambda x: observe(exe, *x), dbs)
    cases, idx = [], []
    for (st, seed), r in zip(dbs, recs):
        rep = {"database": fc.render(st), "session_seed": seed}
        if r["died"]:
            c.violation("the listing session died: " + r["died"], dict(rep, output_tail=r["tail"]))
            continue
        for b in r["bad"]:
            c.violation(b, rep)
        cases.append({"db": pc.strip(st), "obs": r["obs"]})
        idx.append((rep, r))
    report(c, cases, idx)


def report(c, cases, idx):
    want = sum(len(o) for x in cases for o in x["obs"].values())
    if not want:
        return
    reps = check.validate(c, "ListTrace", cases)
    if len(reps) != want:
        raise mm.NoAnswer("ListTrace judged %d of %d listings" % (len(reps), want))
    for tag, d, l, k, v in reps:
        rep, r = idx[d - 1]
        o = cases[d - 1]["obs"][l][k - 1]
        if tag == "ACCEPT":
            if v == "skip":
                c.count("not_judged")
                continue
            c.traces(1)
            c.count("listing_" + o["what"])
            for q in o.get("o", {}):
                if o["o"][q]:
                    c.count("with_" + q)
        else:
            c.violation("%s does not list the proof of %s as it is" % (r["cmds"][l][k - 1], l),
                        dict(rep, label=l, listed=o, expected=v))


# --- the proof being written ------------------------------------------------------------------
class Session(P.Session):
    def do(self, text, **rec):
        x = super().do(text, **rec)
        if self.p.prompt == "MM-PA>" and self.rng.random() < .35:
            self.look()
        return x

    def look(self):
        base = [dict(n) for n in self.cur]
        for _ in range(3):
            q, o = options(self.rng, len(base), True)
            cmd = "SHOW NEW_PROOF " + q
            out = self.p.cmd(cmd)
            self.seen.append({"what": "new", "o": o, "rows": rows(out, o), "toks": [n["l"] for n in base],
                              "fml": [{"f": n["t"], "s": n["s"], "u": n["u"]} for n in base]})
            self.seencmds.append(cmd)


def play(exe, case, n):
    ses = None
    try:
        ses = Session(exe, case, random.Random(case["seed"] + 7))
        ses.seen, ses.seencmds = [], []
        ses.run(n)
        return ses, None
    except (pa.Dead, ValueError) as e:
        if ses:
            ses.p.kill()
        return ses, "%s: %s" % (type(e).__name__, e)


def judge_new(c, exe, cases, n=12):
    res = mm.pmap(lambda x: play(exe, x, n), cases)
    out, idx = [], []
    for x, (ses, bad) in zip(cases, res):
        if bad:
            c.violation("the Proof Assistant session broke down: " + bad[:160],
                        {"source": x["_text"], "commands": ses.p.log if ses else [], "problem": bad})
            continue
        if not ses.seen:
            continue
        st = [dict(s) for s in x["db"]]
        out.append({"db": st, "obs": {s["l"]: ses.seen if s["l"] == x["thm"] else [] for s in st if s["k"] == "p"}})
        for s in st:
            if s["k"] == "p" and s["pf"]["f"] == "n":
                s["pf"] = {"f": "t", "s": s["pf"]["s"]}
        idx.append(({"source": x["_text"], "commands": ses.p.log}, {"cmds": {x["thm"]: ses.seencmds}}))
    report(c, out, idx)
