"""Proof Assistant sessions: databases with a prefix-free grammar, a driver that follows,
leaves and rejoins a known proof, and the record of what the program did."""
import json, os, random, re

from . import check, gen, mm, obs, pa, proofcases as pc


class PaDb(gen.Db):
    """Every expression is a Polish term or parenthesised, so that no expression is a proper prefix of another."""

    def add_syntax(self, t):
        r = self.rng
        free = [b for b in self.body if b not in "()" and b not in self.__dict__.setdefault("heads", set())]
        if not free:
            return
        h = r.choice(free)
        self.heads.add(h)
        ar = r.choice([0, 1, 1, 2, 2, 2, 3])
        vs = []
        for _ in range(ar):
            c = [v for v in self.avail(r.choice(self.tcs)) if v not in vs]
            if c:
                vs.append(r.choice(c))
        if len(vs) == 2 and "(" in self.body and ")" in self.body and r.random() < .7:
            m = ["(", vs[0], h, vs[1], ")"]
        else:
            m = [h] + vs
        l = self.label("s")
        self.assertion("a", l, [t] + m)
        self.syntax[t].append(l)


def truth_of(node):
    out = []
    st = [(node, 0)]
    while st:
        n, i = st.pop()
        if i < len(n.kids):
            st.append((n, i + 1))
            st.append((n.kids[i], 0))
        else:
            out.append({"l": n.lab, "f": list(n.f)})
    return out


def prune(node, rng, p):
    """Proof text of node with random subproofs replaced by '?'."""
    if rng.random() < p:
        return ["?"]
    out = []
    for k in node.kids:
        out += prune(k, rng, p)
    return out + [node.lab]


def make_db(rng, nthm, steps=(2, 4, 8, 14), maxsize=40):
    while True:
        try:
            db = PaDb(rng, nvars=rng.randint(2, 3), tcs=rng.choice([("wff",), ("wff",), ("wff", "class"), ("wff", "class", "setvar")]),
                      nsyn=rng.randint(1, 3), nax=rng.randint(2, 6), maxd=2)
            break
        except (IndexError, RecursionError):
            continue
    thms = []
    tries = 0
    while len(thms) < nthm and tries < nthm * 10:
        tries += 1
        r = db.theorem(steps=rng.choice(steps), maxlen=16, maxsize=maxsize)
        if r is None:
            continue
        s, node = r
        s["pf"] = {"f": "n", "s": node.rpn()}
        s["_node"] = node
        thms.append(s)
    return db, thms


def make(seed, mode=None):
    rng = random.Random(seed)
    while True:
        db, thms = make_db(rng, rng.choice([1, 2, 3, 4] if mode != "shorten" else [3, 4, 5, 6]))
        if thms:
            break
    if mode == "shorten":
        for q in thms:
            if rng.random() < .1:
                q["pf"] = {"f": "n", "s": prune(q["_node"], rng, .1)}
    s = max(rng.sample(thms, min(len(thms), rng.choice([1, 2, 3]))), key=lambda x: len(x["pf"]["s"]))
    node = s["_node"]
    x = rng.random() if mode != "shorten" else .3 + rng.random()
    s["pf"] = {"f": "n", "s": ["?"] if x < .6 else prune(node, rng, rng.choice([.1, .2, .4])) if x < .95 else node.rpn()}
    proof = list(s["pf"]["s"])
    stmts, mb, text = mathboxes(random.Random(seed * 31 + 5), pc.fix(db.stmts), s["l"])
    return {"seed": seed, "db": stmts, "thm": s["l"], "truth": truth_of(node), "proof": proof, "mb": mb,
            "mode": mode or rng.choice(["follow", "follow", "mixed", "mixed", "wander"]),
            "_text": text}


def mathboxes(r, stmts, thm):
    """Cut the end of the database into mathboxes: (statements, label -> number of its mathbox, text)."""
    outer, d = [], 0
    for i, s in enumerate(stmts):
        if d == 0 and s["k"] != "}":
            outer.append(i)
        d += {"{": 1, "}": -1}.get(s["k"], 0)
    goal = next(i for i, s in enumerate(stmts) if s["k"] == "p" and s["l"] == thm)
    before = [i for i in outer if 0 < i <= goal]
    heads = []
    if r.random() < .35 and len(before) > 2:
        heads = sorted(r.sample(before if r.random() < .9 else outer[1:], r.choice([1, 2, 2, 3, 3])) if len(before) > 3 else before[:2])
    out, text, mb, n = [], [], {}, 0
    gap = heads and r.random() < .15        # no heading directly after the statement called mathbox
    for i, s in enumerate(stmts):
        if i in heads:
            if "mathbox" not in mb:
                for x in ({"k": "c", "l": "", "m": ["cmb"]}, {"k": "a", "l": "mathbox", "m": ["wff", "cmb"]}):
                    x = dict({k: v for k, v in stmts[0].items() if k not in x}, **x)
                    out.append(x)
                    text.append(gen.render_stmt(x))
                mb["mathbox"] = -1
            if not (gap and i == heads[0]):
                n += 1
                text.append("$(\n  Mathbox for U%d\n$)" % n)
        if s["k"] in "apef":
            mb[s["l"]] = n or (-1 if "mathbox" in mb else 0)
        out.append(s)
        text.append(gen.render_stmt(s))
    return out, mb, "\n".join(text) + "\n"


def quote(f):
    q = '"' if any("'" in x for x in f) else "'"
    return q + " ".join(f) + q


def arity(frames, l):
    return len(frames[l]["hyps"]) if l in frames else 0


class Tree:
    """Children of every step of a listing (for proposing commands only)."""

    def __init__(self, labs, frames):
        self.kids, self.first = [], []
        st = []
        for i, l in enumerate(labs):
            a = 0 if l == "?" else arity(frames, l)
            ks = st[len(st) - a:] if a else []
            del st[len(st) - a:]
            self.kids.append(ks)
            self.first.append(self.first[ks[0]] if ks else i)
            st.append(i)


def frames_of(stmts):
    """label -> {hyps: [...]}: read off the statements (the same rules as the specification's, used to propose)."""
    fr, act, av, marks = {}, [], set(), []
    var = set()
    for s in stmts:
        k = s["k"]
        if k == "{":
            marks.append(len(act))
        elif k == "}":
            del act[marks.pop():]
        elif k == "v":
            var |= set(s["m"])
        elif k in "fe":
            act.append(s)
        elif k in "ap":
            mv = {x for x in s["m"] if x in var}
            for h in act:
                if h["k"] == "e":
                    mv |= {x for x in h["m"] if x in var}
            fr[s["l"]] = {"hyps": [h for h in act if h["k"] == "e" or h["m"][1] in mv], "m": s["m"], "all": list(act), "k": k}
    return fr


def align(s, truth, frames):
    t1 = Tree([n["l"] for n in s], frames)
    t2 = Tree([n["l"] for n in truth], frames)
    A = {len(s) - 1: len(truth) - 1}
    for i in range(len(s) - 1, -1, -1):
        if i in A and s[i]["l"] == truth[A[i]]["l"]:
            for c, d in zip(t1.kids[i], t2.kids[A[i]]):
                A[c] = d
    return A


def whole(n):
    """Nothing is left to unify at the step."""
    return (n["t"] == n["u"] and n["s"] in ([], n["u"])) if n["u"] else n["s"] in ([], n["t"])


WEIGHTS = {
    "history": {"undo": 24, "redo": 20, "set_undo": 3, "true_assign": 22, "random_assign": 6, "delete": 7, "delete_all": 1, "delete_float": 2,
                "let_var": 2, "let_step": 3, "unify": 2, "init": 5, "improve": 3, "replace": 2, "match": 2, "save": 1},
    "auto": {"improve": 25, "replace": 16, "match": 14, "true_assign": 20, "random_assign": 5, "delete": 8, "delete_float": 5, "let_step": 4,
             "delete_all": 1, "undo": 3, "let_var": 2, "unify": 2, "init": 3},
    "shorten": {"minimize": 30, "expand": 16, "true_assign": 14, "random_assign": 4, "delete": 4, "delete_float": 1, "improve": 8,
                "undo": 7, "redo": 3, "unify": 2, "init": 2, "let_step": 1, "replace": 1, "save": 1},
}


class Session:
    def __init__(self, exe, case, rng):
        self.case = case
        self.rng = rng
        self.dir = mm.scratch("pa-")
        with open(os.path.join(self.dir, "db.mm"), "w") as f:
            f.write(case["_text"])
        self.states, self.index = [], {}
        self.tr = []
        self.frames = frames_of(case["db"])
        self.p = pa.Pa(exe, self.dir)

    def state(self):
        out = self.p.cmd("SHOW NEW_PROOF / ALL")
        s = pa.listing(out)
        key = json.dumps(s)
        if key not in self.index:
            self.states.append(s)
            self.index[key] = len(self.states)
        self.cur = s
        return self.index[key]

    def start(self):
        for c in ("SET SCROLL CONTINUOUS", "SET WIDTH 9999", 'READ "db.mm"'):
            self.p.cmd(c)
        self.p.cmd("PROVE " + self.case["thm"])
        if self.p.prompt != "MM-PA>":
            raise pa.Dead("PROVE did not enter the Proof Assistant: " + self.p.out)
        self.begin = self.state()
        self.at = self.begin

    def do(self, text, **rec):
        """One command, possibly with unification questions, then the state after it."""
        r = self.rng
        out = self.p.cmd(text)
        acc = False
        n = 0
        while self.p.prompt not in ("MM-PA>", "MM>", None):
            n += 1
            if n > 60:
                raise pa.Dead("endless questions after %r" % text)
            if "Accept" in out or "quit (Q)" in self.p.prompt:
                a = "Q" if self.careful or r.random() < .6 else r.choice(["A", "", "R", "R"])
                if a in ("A", ""):
                    acc = True
                out += self.p.cmd(a)
            else:
                out += self.p.cmd("Q" if "<" not in self.p.prompt else "")
        rec.update({"txt": re.sub(r"(?<= )['\"]|['\"]$", "", text), "acc": acc, "cong": "CONGRATULATIONS" in out, "_out": out})
        before = self.at
        self.at = self.state()
        rec["s"] = self.at
        bad = re.search(r"(?m)^(\?(?!Error in step)|>>> \?Error)", out)
        rec["ok"] = bad is None
        if rec["c"] == "improve":
            rec["ok"] = re.search(r"proof (of length \d+ )?was found", out) is not None
        self.tr.append(rec)
        return rec

    # --- proposals ---------------------------------------------------------------
    def step_arg(self, i):
        """Text and meaning of an argument naming step i (0-based), perhaps in relative form."""
        r = self.rng
        ess = self.essential_unknown()
        if i in ess and r.random() < .6:
            j = ess.index(i)
            k = len(ess) - 1 - j
            c = []
            if j == 0:
                c.append(("FIRST", {"k": "fwd", "n": 0}))
            else:
                c.append(("+%d" % j, {"k": "fwd", "n": j}))
            if k == 0:
                c.append(("LAST", {"k": "bwd", "n": 0}))
            else:
                c.append(("-%d" % k, {"k": "bwd", "n": k}))
            return r.choice(c)
        return str(i + 1), {"k": "num", "n": i + 1}

    def wild_arg(self):
        r = self.rng
        n = len(self.cur)
        x = r.random()
        if x < .6:
            i = r.randint(1, n)
            return str(i), {"k": "num", "n": i}
        if x < .7:
            i = r.choice([n + 1, n + 7, 99999, 0])
            return str(i), {"k": "num", "n": i}
        j = r.randint(0, 3)
        if x < .85:
            return ("FIRST" if j == 0 else "+%d" % j), {"k": "fwd", "n": j}
        return ("LAST" if j == 0 else "-%d" % j), {"k": "bwd", "n": j}

    def essential_unknown(self):
        s = self.cur
        t = Tree([n["l"] for n in s], self.frames)
        ess = {len(s) - 1}
        for i in range(len(s) - 1, -1, -1):
            if i in ess and s[i]["l"] in self.frames:
                for h, c in zip(self.frames[s[i]["l"]]["hyps"], t.kids[i]):
                    if h["k"] == "e":
                        ess.add(c)
        return [i for i in sorted(ess) if s[i]["l"] == "?"]

    def assign(self, i=None, lab=None):
        r = self.rng
        if i is None:
            at, a = self.wild_arg()
        else:
            at, a = self.step_arg(i)
        q = r.choice(["", "", " / NO_UNIFY"])
        rec = self.do("ASSIGN %s %s%s" % (at, lab, q), c="assign", a=a, l=lab)
        o = rec["_out"]
        rec["w"] = ("" if rec["ok"] else "already" if "is already assigned" in o else "nounify" if "cannot be unified with step" in o
                    else "range" if re.search(r"must be in the range|no unknown essential|not at least", o) else "nolabel")
        m = re.search(r'" is in the mathbox for U(\d+)\.', o)
        rec["note"] = int(m.group(1)) if m else 0
        return rec

    def true_assign(self):
        A = align(self.cur, self.case["truth"], self.frames)
        u = [i for i in A if self.cur[i]["l"] == "?"]
        if not u:
            return None
        i = self.rng.choice(u)
        return self.assign(i, self.case["truth"][A[i]]["l"])

    def random_assign(self):
        r = self.rng
        labs = list(self.frames) + [h["l"] for h in self.frames[self.case["thm"]]["all"]]
        if r.random() < .1:
            labs = [s["l"] for s in self.case["db"] if s["l"]]
        u = [i for i in range(len(self.cur)) if self.cur[i]["l"] == "?"]
        if u and r.random() < .85:
            i = r.choice(u)
            # prefer statements with the same typecode
            tc = self.cur[i]["t"][0]
            same = [l for l in self.frames if self.frames[l]["m"][0] == tc] + [
                h["l"] for h in self.frames[self.case["thm"]]["all"] if h["m"][0] == tc]
            return self.assign(i, r.choice(same if same and r.random() < .8 else labs))
        return self.assign(None, r.choice(labs))

    def pinned(self):
        """work variable -> true value, from steps that are just a typecode and a variable."""
        A = align(self.cur, self.case["truth"], self.frames)
        v = {}
        for i, j in A.items():
            t = self.cur[i]["t"]
            if len(t) == 2 and t[1].startswith("$"):
                v.setdefault(t[1], self.case["truth"][j]["f"][1:])
        return v

    def let_var(self, true=True):
        r = self.rng
        v = self.pinned()
        if not v:
            return None
        w = r.choice(sorted(v))
        f = v[w]
        if not true:
            pool = [n["t"][1:] for n in self.cur if len(n["t"]) > 1 and w not in n["t"]] or [f]
            f = r.choice(pool)
            true = f == v[w]
        return self.do("LET VARIABLE %s = %s" % (w, quote(f)), c="letvar", v=w, f=f, true=true)

    def let_step(self, true=True):
        r = self.rng
        A = align(self.cur, self.case["truth"], self.frames)
        loose = [i for i in sorted(A) if not whole(self.cur[i])]
        i = r.choice(loose if loose and r.random() < .5 else sorted(A))
        f = self.case["truth"][A[i]]["f"]
        if not true:
            f = r.choice([n["t"] for n in self.cur] + [n["s"] for n in self.cur if n["s"]])
            i = r.randrange(len(self.cur))
        at, a = self.step_arg(i)
        return self.do("LET STEP %s = %s" % (at, quote(f)), c="letstep", a=a, f=f)

    def delete(self, i=None):
        r = self.rng
        if i is None:
            n = r.choice([r.randint(1, len(self.cur)), len(self.cur) + 1, 0, 1])
        else:
            n = i + 1
        return self.do("DELETE STEP %d" % n, c="delete", a={"k": "num", "n": n})

    def delete_all(self):
        return self.do("DELETE ALL", c="delete", a={"k": "num", "n": len(self.cur)})

    def delete_float(self):
        return self.do("DELETE FLOATING_HYPOTHESES", c="deletefloat")

    def unify(self):
        r = self.rng
        x = r.random()
        if x < .4:
            return self.do("UNIFY ALL", c="unify")
        if x < .6:
            return self.do("UNIFY ALL / INTERACTIVE", c="unify")
        loose = [i for i, n in enumerate(self.cur) if not whole(n)]
        n = 1 + r.choice(loose) if loose and r.random() < .6 else r.randint(1, len(self.cur))
        rec = self.do("UNIFY STEP %d" % n, c="unify")
        rec["st"], rec["al"] = n, "is already unified" in rec["_out"]
        return rec

    def init(self):
        r = self.rng
        x = r.random()
        if x < .35:
            return self.do("INITIALIZE ALL", c="initall")
        if x < .55:
            return self.do("INITIALIZE USER", c="inituser")
        n = r.randint(1, len(self.cur)) if r.random() < .9 else len(self.cur) + 2
        return self.do("INITIALIZE STEP %d" % n, c="initstep", a={"k": "num", "n": n})

    def undo(self, redo=False):
        rec = self.do("REDO" if redo else "UNDO", c="redo" if redo else "undo")
        o = rec["_out"]
        m = re.search(r"(?m)^(?:Undid|Redid):  (.*)$", o)
        rec["msg"] = m.group(1) if m else "exceeded" if "Exceeded maximum" in o else "nothing" if "There is nothing" in o else "?"
        return rec

    def redo(self):
        return self.undo(True)

    def set_undo(self):
        n = self.rng.choice([0, 1, 2, 3, 5, 20])
        return self.do("SET UNDO %d" % n, c="setundo", n=n)

    def improve(self):
        r = self.rng
        q = r.choice(["", "", " / 1", " / 2", " / 3", " / 3"])
        if r.random() < .3:
            q += " / DEPTH %d" % r.choice([1, 1, 2])
        if r.random() < .35:
            q += " / NO_DISTINCT"
        if "3" in q or "2" in q:
            q += r.choice(["", "", " / SUBPROOFS"])
        q += r.choice(["", "", " / INCLUDE_MATHBOXES"])
        inc = "MATHBOX" in q
        deep = "/ 2" in q or "/ 3" in q
        if r.random() < .5:
            return self.do("IMPROVE ALL" + q, c="improve", a={"k": "num", "n": 0}, sub=deep, deep=deep, nod="NO_DIST" in q, inc=inc, all=True)
        u = [i for i in range(len(self.cur)) if self.cur[i]["l"] == "?"]
        if u and r.random() < .8:
            at, a = self.step_arg(r.choice(u))
        else:
            at, a = self.wild_arg()
        return self.do("IMPROVE %s%s" % (at, q), c="improve", a=a, sub=True, deep=deep, nod="NO_DIST" in q, inc=inc, all=False)

    def match(self):
        r = self.rng
        u = [i for i in range(len(self.cur)) if self.cur[i]["l"] == "?"]
        n = r.choice(u) + 1 if u and r.random() < .9 else r.choice([1, len(self.cur), len(self.cur) + 1, 0])
        A = align(self.cur, self.case["truth"], self.frames)
        true = self.case["truth"][A[n - 1]]["l"] if n - 1 in A else None
        out = self.p.cmd("MATCH STEP %d" % n)
        pick = ""
        m = re.search(r"matches statements:  ([^\n]*)", out)
        opts = m.group(1).split() if m else []
        refused = re.search(r"(?m)^\?", out) is not None
        if self.p.prompt and "to bypass" in self.p.prompt:
            pick = r.choice(["", true if true in opts else ""] + opts[:6])
            out += self.p.cmd(pick)
        elif "since it is the only match" in out:
            pick = opts[0]
        before = self.at
        self.at = self.state()
        self.tr.append({"c": "match", "a": {"k": "num", "n": n}, "l": pick, "opts": opts, "ok": not refused, "txt": "MATCH STEP %d" % n,
                        "acc": False, "cong": "CONGRATULATIONS" in out, "s": self.at, "_out": out})

    def save(self):
        r = self.rng
        q = r.choice(["", " / NORMAL", " / COMPRESSED", " / PACKED", " / EXPLICIT", " / EXPLICIT / PACKED", "",
                      " / COMPRESSED / OLD_COMPRESSION"])
        rec = self.do("SAVE NEW_PROOF" + q, c="save")
        thm = self.case["thm"]

        def shown(text):
            m = re.search(r"this line to put it in the source file:\n(.*?)\$\.", text, re.S)
            return m.group(1).split() if m else ["nothing shown"]
        rec["pf"] = shown(self.p.cmd("SHOW PROOF %s / NORMAL" % thm))
        rec["npf"] = shown(self.p.cmd("SHOW NEW_PROOF / NORMAL"))
        rec["_v"] = self.p.cmd("VERIFY PROOF " + thm)
        rec["v"] = obs.verify_verdicts(rec["_v"], [thm])[thm]
        if r.random() < .5 and not self.careful:
            self.p.cmd(r.choice(["SHOW NEW_PROOF / UNKNOWN", "SHOW NEW_PROOF / ESSENTIAL", "SHOW PROOF %s / LEMMON" % thm]))

    def replace(self):
        r = self.rng
        labs = [l for l in self.frames]
        A = align(self.cur, self.case["truth"], self.frames)
        i = r.randrange(len(self.cur))
        l = self.case["truth"][A[i]]["l"] if i in A and r.random() < .5 else r.choice(labs)
        return self.do("REPLACE %d %s" % (i + 1, l), c="replace", a={"k": "num", "n": i + 1}, l=l)

    def size(self):
        """Characters of the compressed proof."""
        m = re.search(r"this line to put it in the source file:\n(.*?)\$\.", self.p.cmd("SHOW NEW_PROOF / COMPRESSED"), re.S)
        w = m.group(1).split() if m else []
        if ")" not in w:
            return -1
        i = w.index(")") + 1
        return len(" ".join(w[:i])) + 1 + len("".join(w[i:]))

    def labpat(self):
        r = self.rng
        c = [l for l in self.frames]

        def one():
            l = r.choice(c)
            x = r.random()
            return l if x < .5 else l[:r.randint(1, len(l))] + "*" if x < .85 else l[:-1] + "?" if x < .95 else "*" + l[-1]
        return ",".join(one() for _ in range(r.choice([1, 1, 1, 2, 3])))

    def minimize(self):
        r = self.rng
        x = r.random()
        thm = self.case["thm"]
        pat = "*" if x < .35 else r.choice([l for l in self.frames if l != thm]) if x < .75 else self.labpat()
        if hasattr(self, "opened") and r.random() < .5 and x >= .35:
            pat = r.choice(self.opened)
        q = {"pat": pat, "exc": "", "forb": "", "allow": "", "nonew": ""}
        txt = "MINIMIZE_WITH " + pat
        if r.random() < .15:
            q["exc"] = self.labpat()
            txt += " / EXCEPT " + q["exc"]
        if r.random() < .6:
            q["allow"] = r.choice(["*", "*", self.labpat()])
            txt += " / ALLOW_NEW_AXIOMS " + q["allow"]
        if r.random() < .2:
            q["nonew"] = self.labpat()
            txt += " / NO_NEW_AXIOMS_FROM " + q["nonew"]
        if r.random() < .15:
            q["forb"] = self.labpat()
            txt += " / FORBID " + q["forb"]
        q["grow"] = r.random() < .3 and pat in self.frames and len(self.cur) < 60
        if q["grow"]:
            txt += " / MAY_GROW"
        q["inc"] = r.random() < .2
        if q["inc"]:
            txt += " / INCLUDE_MATHBOXES"
        txt += " / VERBOSE"
        for k in ("pat", "exc", "forb", "allow", "nonew"):
            q[k] = list(q[k])
        q["one"] = pat if pat in self.frames else ""
        q["size0"] = self.size()
        rec = self.do(txt, c="minimize", q=q)
        o = rec["_out"]
        q["reverted"] = "Reverting" in o or "Suppressed excessive" in o
        q["size1"] = self.size()
        q["says"] = "none" if "label matches" in o else "same" if re.search("No shorter proof was found|The proof was not changed", o) else "less"
        rec["ok"] = q["says"] == "less"
        q["left"] = "Other mathboxes were not checked" in o
        q["to"] = 0
        m = re.split(r"(?m)^Scanning backward", o)
        part = m[1] if len(m) > 1 and "backward scan results" in o else m[0]
        m = re.findall(r'(?m)(?:to|stayed at) (\d+) bytes', part)
        if m:
            q["to"] = int(m[-1])
        return rec

    def grown(self, pat):
        """Steps the proof would have after EXPAND pat (an estimate that stops at 10000)."""
        fr, pf = self.frames, {s["l"]: s["pf"]["s"] for s in self.case["db"] if s["k"] == "p" and s["l"] != self.case["thm"]}
        rx = re.compile("|".join(re.escape(p).replace(r"\*", ".*").replace(r"\?", ".") for p in pat.split(",") if p) + "$")
        hits = [l for l in pf if re.fullmatch(rx, l)]
        labs = [n["l"] for n in self.cur]
        for k in reversed([l for l in fr if l in hits]):
            hy = [h["l"] for h in fr[k]["hyps"]]
            st = []
            for l in labs:
                a = len(fr[l]["hyps"]) if l in fr else 0
                kids = st[len(st) - a:] if a else []
                del st[len(st) - a:]
                if l == k:
                    new = [y for b in pf[k] for y in (kids[hy.index(b)] if b in hy else [b])]
                else:
                    new = [y for q in kids for y in q] + [l]
                if len(new) > 10000:
                    return 10000
                st.append(new)
            labs = st[-1]
        return len(labs)

    def expand(self):
        r = self.rng
        thms = [l for l in self.frames if self.frames[l]["k"] == "p"]
        used = sorted({n["l"] for n in self.cur} & set(thms))
        pat = r.choice(used) if used and r.random() < .7 else r.choice(thms) if r.random() < .5 else self.labpat()
        if self.grown(pat) > 300:
            return None
        rec = self.do("EXPAND " + pat, c="expand", pat=list(pat))
        rec["ok"] = "No expansion occurred" not in rec["_out"] and "using" not in rec["_out"]
        if pat in used:
            self.opened = getattr(self, "opened", []) + [pat]
        return rec

    def history(self, ops):
        """The operations of the undo machine, as commands."""
        self.careful = True
        self.start()
        for op in ops:
            if op in ("undo", "redo"):
                self.undo(op == "redo")
            elif op in ("zero", "one", "two"):
                n = ["zero", "one", "two"].index(op)
                self.do("SET UNDO %d" % n, c="setundo", n=n)
            elif op == "same":
                self.do("INITIALIZE USER", c="inituser")
            elif self.cur[-1]["l"] != "?" and self.rng.random() < .3 or self.true_assign() is None:
                self.delete_all()
        self.p.close()

    def run(self, n):
        r = self.rng
        mode = self.case["mode"]
        self.careful = mode == "follow"
        self.start()
        for _ in range(n):
            x = r.random()
            if mode == "follow":
                if x < .7:
                    if self.true_assign() is None:
                        if all(m["l"] != "?" for m in self.cur) and r.random() < .5:
                            self.save()
                            break
                        self.delete(r.randrange(len(self.cur)))
                elif x < .78:
                    self.let_var()
                elif x < .84:
                    self.let_step()
                elif x < .9:
                    self.undo(r.random() < .4)
                elif x < .915:
                    self.delete(r.randrange(len(self.cur)))
                elif x < .955:
                    self.unify()
                elif x < .962:
                    self.init()
                elif x < .97:
                    self.save()
                elif x < .985:
                    self.match()
                else:
                    self.improve()
            elif mode in WEIGHTS:
                r.choices([getattr(self, a) for a in WEIGHTS[mode]], list(WEIGHTS[mode].values()))[0]()
            else:
                w = [(self.true_assign, 30 if mode == "mixed" else 8), (self.random_assign, 6 if mode == "mixed" else 30),
                     (self.let_var, 4), (lambda: self.let_var(False), 3), (self.let_step, 4), (lambda: self.let_step(False), 4),
                     (self.delete, 5), (self.delete_all, 1), (self.delete_float, 3), (self.unify, 5), (self.init, 5),
                     (self.undo, 12), (lambda: self.undo(True), 7), (self.set_undo, 1), (self.improve, 4), (self.replace, 4),
                     (self.match, 4), (self.save, 3)]
                r.choices([a for a, _ in w], [b for _, b in w])[0]()
        self.p.close()


def record(case, ses):
    W = set()
    for s in ses.states:
        for n in s:
            for m in (n["t"], n["s"], n["u"]):
                W |= {x for x in m if x.startswith("$")}
    for x in ses.tr:
        if x["c"] in ("letvar",):
            W.add(x["v"])
    return {"db": case["db"], "thm": case["thm"], "truth": case["truth"], "proof": case["proof"], "W": sorted(W) or ["$0"], "lim": 19, "mb": case.get("mb") or {x["l"]: 0 for x in case["db"] if x["k"] in "ap"},
            "lc": {s["l"]: list(s["l"]) for s in case["db"] if s["k"] in "ap"},
            "st": [[{k: n[k] for k in "hltsu"} for n in s] for s in ses.states], "start": ses.begin,
            "tr": [{k: v for k, v in x.items() if not k.startswith("_")} for x in ses.tr]}


def judge(c, exe, cases, focus, n=25, batch=1500):
    """Play the sessions and have them judged; violations of the given commands are reported."""
    for b in range(0, len(cases), batch):
        part = cases[b:b + batch]
        res = mm.pmap(lambda x: play(exe, x, n), part)
        ok = []
        for x, r in zip(part, res):
            if r[2]:
                c.violation("the Proof Assistant session broke down: " + r[2][:160],
                            {"source": x["_text"], "commands": r[1].p.log if r[1] else [], "problem": r[2]})
            else:
                ok.append((x, r))
        reps = check.validate(c, "AssistTrace", [r[0] for _, r in ok])
        if len(reps) != len(ok):
            raise mm.NoAnswer("AssistTrace judged %d of %d" % (len(reps), len(ok)))
        c.traces(len(ok))
        for x, r in ok:
            for t in r[1].tr:
                c.count("%s_%s" % (t["c"], "done" if t["ok"] else "refused"))
        for tag, i, k, why in reps:
            if tag == "REJECT":
                x, r = ok[i - 1]
                ses = r[1]
                if why not in focus:
                    c.count("sessions_cut_short")
                    continue
                t = ses.tr[k - 1] if k else None
                c.violation("the Proof Assistant may not do this: %s" % (t["txt"] if t else "PROVE " + x["thm"]), {
                    "source": x["_text"], "commands": ses.p.log, "command": t and t["txt"], "answer": t and t["_out"],
                    "details": t and {a: v for a, v in t.items() if not a.startswith("_")},
                    "before": show(ses.states[(ses.tr[k - 2]["s"] if k > 1 else ses.begin) - 1]),
                    "after": show(ses.states[t["s"] - 1]) if t else None})
        for x, r in ok[:1]:
            c.sample({"theorem": x["thm"], "mode": x["mode"], "commands": [t["txt"] for t in r[1].tr][:25]})


def show(s):
    return ["%d %s %s | %s | %s | %s" % (j + 1, m["h"], m["l"], " ".join(m["t"]), " ".join(m["s"]), " ".join(m["u"])) for j, m in enumerate(s)]


def play(exe, case, n=25):
    """Run one session; (record, session, problem)."""
    ses = None
    try:
        ses = Session(exe, case, random.Random(case["seed"] + 7))
        if "_ops" in case:
            ses.history(case["_ops"])
        else:
            ses.run(n)
        return record(case, ses), ses, None
    except (pa.Dead, ValueError) as e:
        if ses:
            ses.p.kill()
        return None, ses, "%s: %s" % (type(e).__name__, e)
