"""Whole sessions: reading, proving, saving, writing, erasing and leaving, with every answer to the
questions that protect unsaved work; and discouraged statements."""
import os, random, re, time

from . import check, gen, mm, pa, pacases as P, proofcases as pc

FILES = ("db.mm", "out.mm", "alt.mm")
NONE = {"none": {"p": ["?"], "f": "n"}}
ABSENT = {"there": False, "v": 1, "st": NONE}
PM = "(Proof modification is discouraged.)".split()
UM = "(New usage is discouraged.)".split()
DECOY = ["(New usage is discouraged)", "(new usage is discouraged.)", "(New usage is encouraged.)", "(Proof modification is not discouraged.)",
         "New usage is discouraged.", "(Proof modification discouraged.)"]


def comments(rng, stmts, marks, variant):
    """The same statements with other comments; the first line tells which."""
    cmt, lines = {}, ["$( variant %d $)" % variant]
    for s in stmts:
        if s["k"] in "ap":
            ws, before = [], ""
            if marks:
                for m, pr in ((UM, .35), (PM, .3)):
                    if rng.random() < pr:
                        ws += rng.choice([[], ["Some", "words."]]) + m
                if rng.random() < .25:
                    ws = rng.choice(DECOY).split() + ws
                if rng.random() < .15:      # a comment that is not the description
                    before = "$( " + " ".join(rng.choice([UM, PM])) + " $)\n"
            if ws or before or rng.random() < .3:
                ws = ws or ["Nothing."]
                lines.append(before + "  $( " + "".join(w + rng.choice([" ", " ", "\n     ", "  "]) for w in ws) + "$)")
                cmt[s["l"]] = ws
            else:
                cmt[s["l"]] = []
        lines.append(gen.render_stmt(s))
    return cmt, "\n".join(lines) + "\n"


def make(seed, marks=None):
    rng = random.Random(seed)
    while True:
        db, thms = P.make_db(rng, rng.choice([2, 3, 4]), steps=(2, 4, 8), maxsize=25)
        if len(thms) >= 2:
            break
    marks = rng.random() < .5 if marks is None else marks
    for s in thms:
        node = s["_node"]
        x = rng.random()
        if x < .45:
            s["pf"] = {"f": "n", "s": P.prune(node, rng, .2)}
        elif x < .7:
            fr = P.frames_of(pc.fix(db.stmts))
            mand = [h["l"] for h in fr[s["l"]]["hyps"]]
            labs, chars = gen.compress(node, mand, lambda l: l in fr)
            s["pf"] = {"f": "c", "ls": labs, "cs": chars}
    stmts = pc.fix(db.stmts)
    variants = [comments(rng, stmts, marks, i) for i in (1, 2)]
    return {"seed": seed, "db": stmts, "thms": [s["l"] for s in thms], "truth": {s["l"]: P.truth_of(s["_node"]) for s in thms},
            "cmt": [v[0] for v in variants], "_text": variants[0][1], "_alt": variants[1][1] if marks else None}


def shown(out):
    """SHOW PROOF * / NORMAL -> {label: labels of the proof}."""
    r = {}
    for m in re.finditer(r'(?ms)^(?:MM> )?Proof of "([^"]+)":\n(.*?)^-+The proof of "', out):
        b = m.group(2).split("put it in the source file:\n", 1)
        r[m.group(1)] = b[1].split("$.")[0].split() if len(b) == 2 else ["nothing shown"]
    return r


class Sess:
    def __init__(self, exe, case, rng):
        self.exe, self.case, self.rng = exe, case, rng
        self.dir = mm.scratch("sess-")
        self.cache = {}
        with open(os.path.join(self.dir, "db.mm"), "w") as f:
            f.write(case["_text"])
        if case["_alt"]:
            with open(os.path.join(self.dir, "alt.mm"), "w") as f:
                f.write(case["_alt"])
        self.frames = P.frames_of(case["db"])
        self.files0 = self.files()
        self.tr = []
        self.p = pa.Pa(exe, self.dir)
        self.p.cmd("SET SCROLL CONTINUOUS")
        self.p.cmd("SET WIDTH 9999")
        self.look()

    # --- what can be seen -----------------------------------------------------------
    def files(self):
        r = {}
        for f in FILES:
            path = os.path.join(self.dir, f)
            if not os.path.exists(path):
                r[f] = ABSENT
                continue
            t = open(path, errors="replace").read()
            if t not in self.cache:
                d = mm.scratch("re-")
                with open(os.path.join(d, "x.mm"), "w") as g:
                    g.write(t)
                x = mm.session(self.exe, ['READ "x.mm"', "SHOW PROOF * / NORMAL"], d)
                st = shown(x.text)
                for l in st:
                    m = re.search(r"(?s)\s%s\s+\$p.*?\$=\s*(\S+)" % re.escape(l), re.sub(r"(?s)\$\(.*?\$\)", " ", t))
                    st[l] = {"p": st[l], "f": "?" if not m else "c" if m.group(1) == "(" else "n"}
                self.cache[t] = st or {"unreadable": {"p": ["?"], "f": "n"}}
            r[f] = {"there": True, "v": 2 if "$( variant 2 $)" in t else 1, "st": self.cache[t]}
        return r

    def look(self):
        if self.p.over:
            s = {"mode": "end", "store": [], "pip": []}
        else:
            mode = {"MM>": "mm", "MM-PA>": "pa"}.get(self.p.prompt)
            if mode is None:
                raise pa.Dead("unexpected prompt %r" % self.p.prompt)
            s = {"mode": mode, "pip": []}
            out = self.p.cmd("SHOW PROOF * / NORMAL")
            s["store"] = shown(out)
            if not s["store"]:
                s["store"] = {"none": ["?"]}
            if mode == "pa":
                m = re.search(r"put it in the source file:\n(.*?)\$\.", self.p.cmd("SHOW NEW_PROOF / NORMAL"), re.S)
                s["pip"] = m.group(1).split() if m else ["nothing shown"]
            self.last = s
        s["files"] = self.files()
        self.seen = s
        return s

    def do(self, text, reply="", **rec):
        out = self.p.cmd(text)
        asked = ""
        n = 0
        while self.p.prompt not in ("MM-PA>", "MM>", None):
            n += 1
            if n > 40:
                raise pa.Dead("endless questions after %r" % text)
            if "(Y, N)" in self.p.prompt:
                if rec["c"] not in ("exit", "erase"):
                    raise pa.Dead("question after %r: %s" % (text, self.p.prompt))
                out += self.p.prompt + "\n" + self.p.cmd(reply)
            elif "quit (Q)" in self.p.prompt:
                out += self.p.cmd("Q")
            else:
                out += self.p.cmd("")
        if "You have not saved changes to the proof" in out:
            asked += "proof"
        if "You have not saved changes to the source" in out:
            asked += "source"
        before = self.seen
        rec["asked"] = asked
        rec["seen"] = self.look()
        if rec["c"] == "edit":
            rec["to"] = rec["seen"]["pip"]
        rec["_out"], rec["_txt"] = out, text + (" [" + reply + "]" if asked else "")
        self.tr.append(rec)
        return rec

    # --- commands --------------------------------------------------------------------
    def read(self, f="db.mm"):
        return self.do('READ "%s"' % f, c="read", f=f)

    def erase(self, ans):
        return self.do("ERASE", ans, c="erase", ans=ans)

    def prove(self, t, ovr=False):
        return self.do("PROVE %s%s" % (t, " / OVERRIDE" if ovr else ""), c="prove", t=t, ovr=ovr)

    def edit(self, text, ovr=False, hist=False):
        return self.do(text + (" / OVERRIDE" if ovr else ""), c="edit", ovr=ovr, hist=hist, min=text.startswith("MIN"))

    def savenew(self, form="n", ovr=False):
        return self.do("SAVE NEW_PROOF / %s%s" % ({"n": "NORMAL", "c": "COMPRESSED"}[form], " / OVERRIDE" if ovr else ""), c="savenew", form=form, ovr=ovr)

    def saveproof(self, t, form="c"):
        return self.do("SAVE PROOF %s / %s" % (t, {"n": "NORMAL", "c": "COMPRESSED"}[form]), c="saveproof", t=t, form=form)

    def write(self, f="out.mm", can=True):
        if can:
            return self.do('WRITE SOURCE "%s"' % f, c="write", f=f, can=True)
        return self.do('WRITE SOURCE "nowhere/%s"' % f, c="write", f=f, can=False)

    def exit(self, ans="", force=False, word="EXIT"):
        return self.do(word + (" / FORCE" if force else ""), ans, c="exit", ans=ans, force=force, paonly=word == "_EXIT_PA")

    def eof(self, how=0):
        """The input ends: at the prompt, in the middle of a line, at a question, or at a page pause."""
        p = self.p
        lines = {0: b"", 1: b"EXIT\n", 2: b"SET SCROLL PROMPTED\nSET HEIGHT 3\nHELP READ\n", 3: b"SHOW LABELS *", 4: b"ERASE\n",
                 5: b"SET SCROLL PROMPTED\nSET HEIGHT 2\nSHOW STATEMENT * / FULL\n", 6: b"EXIT\nn\n", 7: b"TOOLS\n",
                 8: self.cut(), 9: self.cut(), 10: b"SET WIDTH %d\n" % self.rng.choice([20, 40, 48, 60]) + self.cut()}[how]
        try:
            p.p.stdin.write(lines)
            p.p.stdin.close()
        except BrokenPipeError:
            pass
        p.log.append(lines.decode() + "<end of input>")
        try:
            out, _ = self.collect(20)
        except TimeoutError:
            p.kill()
            raise pa.Dead("the program goes on after the end of its input")
        p.rc = p.p.returncode
        p.prompt = None
        if p.rc != 0:
            raise pa.Dead("status %s at the end of the input: %r" % (p.rc, out[-300:]))
        rec = {"c": "eof", "asked": "", "seen": self.look(), "_out": out, "_txt": "<end of input %d>" % how}
        self.tr.append(rec)

    def cut(self):
        """A command that asks for something, with no answer."""
        r = self.rng
        c = ["EXIT", "ERASE", "READ", "SAVE PROOF", "SHOW STATEMENT", "PROVE", "SEARCH", "SET UNDO", "SHOW", "VERIFY"]
        if self.seen["mode"] == "pa" and r.random() < .8:
            c = ["ASSIGN LAST", "ASSIGN", "DELETE", "LET STEP", "REPLACE LAST", "EXPAND", "MATCH ALL", "MATCH STEP %d" % r.randint(1, 6),
                 "UNIFY ALL / INTERACTIVE", "INITIALIZE ALL\nUNIFY ALL / INTERACTIVE", "INITIALIZE ALL\nMATCH ALL", "DELETE ALL\nMATCH ALL", "DELETE ALL\nMATCH ALL / ESSENTIAL"]
            c += ["ASSIGN %s %s" % (r.choice(["LAST", "FIRST"]), r.choice(list(self.frames))) for _ in range(6)]
        return r.choice(c).encode() + b"\n"

    def collect(self, secs):
        end = time.time() + secs
        buf = b""
        import select
        fd = self.p.p.stdout.fileno()
        while True:
            left = end - time.time()
            if left <= 0 or len(buf) > 4 << 20:
                raise TimeoutError
            r, _, _ = select.select([fd], [], [], left)
            if r:
                x = os.read(fd, 65536)
                if not x:
                    self.p.p.wait()
                    return buf.decode("latin-1"), None
                buf += x

    def discouraged(self):
        rec = self.do("SHOW DISCOURAGED", c="other")
        o = rec["_out"]
        rec["mods"] = re.findall(r'(?m)^SHOW DISCOURAGED:  Proof modification of "([^"]+)" is', o)
        rec["uses"] = [{"l": a, "n": int(b)} for a, b in re.findall(r'(?m)^SHOW DISCOURAGED:  New usage of "([^"]+)" is discouraged \((\d+) uses\)', o)]
        rec["by"] = [{"l": a, "t": b} for a, b in re.findall(r'(?m)^SHOW DISCOURAGED:  "([^"]+)" is used by "([^"]+)"', o)]

    # --- edits of a proof ----------------------------------------------------------------
    def cur(self):
        return pa.listing(self.p.cmd("SHOW NEW_PROOF / ALL"))

    def some_edit(self, plain=False):
        r = self.rng
        s = self.cur()
        thm = self.thm
        u = [i for i in range(len(s)) if s[i]["l"] == "?"]
        ovr = not plain and r.random() < .3
        x = r.random()
        if plain or x < .45:
            A = P.align(s, self.case["truth"][thm], self.frames)
            c = [i for i in u if i in A]
            if c:
                i = r.choice(c)
                return self.edit("ASSIGN %d %s" % (i + 1, self.case["truth"][thm][A[i]]["l"]), ovr)
            return self.edit("DELETE STEP %d" % r.randint(1, len(s)))
        if x < .53:
            tc = [l for l in self.frames] + [h["l"] for h in self.frames[thm]["all"]]
            return self.edit("ASSIGN %s %s" % (r.choice(["LAST", "FIRST", "1"] + [str(i + 1) for i in u]), r.choice(tc)), ovr)
        if x < .63:
            return self.edit("DELETE STEP %d" % r.randint(1, len(s)))
        if x < .67:
            return self.edit("IMPROVE ALL" + r.choice(["", " / 2", " / 3", " / DEPTH 1"]), ovr)
        if x < .71:
            return self.edit("REPLACE %d %s" % (r.randint(1, len(s)), r.choice(list(self.frames))), ovr)
        if x < .75:
            return self.edit("MINIMIZE_WITH *" + r.choice(["", " / MAY_GROW", " / ALLOW_NEW_AXIOMS *"]), ovr)
        if x < .79 and u:
            return self.do_match(r.choice(u) + 1)
        if x < .83:
            return self.edit(r.choice(["INITIALIZE ALL", "UNIFY ALL", "DELETE ALL", "DELETE FLOATING_HYPOTHESES"]))
        return self.edit("REDO" if r.random() < .35 else "UNDO", hist=True)

    def do_match(self, n):
        r = self.rng
        out = self.p.cmd("MATCH STEP %d" % n)
        if self.p.prompt and "to bypass" in self.p.prompt:
            m = re.search(r"matches statements:  ([^\n]*)", out)
            pick = r.choice(m.group(1).split()) if m else ""
            out += self.p.cmd(pick)
        rec = {"c": "edit", "asked": "", "ovr": False, "hist": False, "min": False, "seen": self.look(), "_out": out, "_txt": "MATCH STEP %d" % n}
        rec["to"] = rec["seen"]["pip"]
        self.tr.append(rec)

    @property
    def thm(self):
        for t in reversed(self.tr):
            if t["c"] == "prove" and t["seen"]["mode"] == "pa":
                return t["t"]

    # --- sessions ---------------------------------------------------------------------------
    def history(self, ops):
        """A session enumerated from the specification."""
        self.read()
        a, b = self.case["thms"][:2]
        sizes = self.rng.random() < .4
        for o in ops:
            if self.p.over:
                return
            if o in ("edit", "back") and self.seen["mode"] != "pa":
                continue    # it was not asked where it could have been
            if o == "edit":
                self.some_edit(plain=True)
            elif o == "back":
                for _ in range(12):
                    if "There is nothing to undo" in self.edit("UNDO", hist=True)["_out"]:
                        break
            else:
                if sizes and o == "prove":
                    self.do("SET UNDO %d" % self.rng.choice([0, 1, 1, 2]), c="other")
                elif sizes and o.startswith("exit") and self.rng.random() < .7:
                    self.do("SET UNDO %d" % self.rng.choice([0, 1, 2, 5]), c="other")
                {"read": self.read, "read2": lambda: self.read("out.mm"), "erase-n": lambda: self.erase(self.rng.choice(["", "n", "x", "N", "EXIT"])),
                 "erase-y": lambda: self.erase(self.rng.choice("yY")), "prove": lambda: self.prove(a), "savenew": self.savenew,
                 "saveproof": lambda: self.saveproof(b), "write": self.write, "write-no": lambda: self.write(can=False),
                 "exit-n": lambda: self.exit(self.rng.choice(["", "n", "x", "N"]), word=self.rng.choice(["EXIT", "QUIT"])),
                 "exit-y": lambda: self.exit(self.rng.choice(["y", "Y", "yes"]), word=self.rng.choice(["EXIT", "QUIT"]))}[o]()
        if not self.p.over:
            self.eof(self.rng.choice([0, 1, 3, 8, 9, 10]))

    def run(self, n):
        r = self.rng
        thms = self.case["thms"]
        sizes = r.random() < .4
        size = lambda: self.do("SET UNDO %d" % r.choice([0, 0, 1, 1, 2, 5, 20]), c="other")
        for _ in range(n):
            if self.p.over:
                return
            ans = r.choice(["", "n", "N", "x", "y", "Y"])
            form = r.choice("nc")
            both = [(lambda: self.saveproof(r.choice(thms + ["nosuch"]), form), 6), (lambda: self.write(r.choice(FILES)), 5),
                    (lambda: self.write(can=False), 1), (lambda: self.exit(ans, r.random() < .15, r.choice(["EXIT", "EXIT", "QUIT", "_EXIT_PA"])), 5),
                    (lambda: self.do(r.choice(["VERIFY PROOF *", "SHOW LABELS *", "HELP WRITE", "SEARCH * \"wff\"", "NONSENSE", "SHOW SETTINGS",
                                               "SHOW STATEMENT * / FULL", "SET UNDO %d" % r.choice([0, 0, 1, 2, 100]), "SHOW TRACE_BACK " + r.choice(thms), "SHOW USAGE *", "SET ECHO OFF",
                                               "", "! a comment", "SHOW SOURCE " + r.choice(thms)]), c="other"), 4),
                    (self.discouraged, 2), (lambda: self.read(r.choice(FILES)), 1),
                    (lambda: self.guard(), 2)]
            if sizes:
                both += [(size, 3 if self.seen["mode"] == "pa" else 1), (lambda: (size(), self.exit("n")), 2)]
            if self.seen["mode"] == "pa":
                both += [(self.some_edit, 30), (lambda: self.savenew(form, r.random() < .4), 6), (lambda: self.prove(r.choice(thms)), 1),
                         (lambda: self.erase(ans), 1)]
            else:
                both += [(lambda: self.prove(r.choice(thms + ["nosuch"]), r.random() < .4), 14), (lambda: self.erase(ans), 3),
                         (lambda: self.read(r.choice(FILES)), 5)]
                if "none" in self.seen["store"]:
                    both.append((self.read, 25))
            r.choices([a for a, _ in both], [b for _, b in both])[0]()
        if not self.p.over:
            if r.random() < .7:
                self.eof(r.randrange(11))
            else:
                while not self.p.over:
                    self.exit(r.choice(["y", "Y"]))

    def guard(self):
        on = self.rng.random() < .6
        return self.do("SET DISCOURAGEMENT " + ("ON" if on else "OFF"), c="guard", on=on)


def play(exe, case, n=25):
    ses = None
    try:
        ses = Sess(exe, case, random.Random(case["seed"] + 7))
        if "_ops" in case:
            ses.history(case["_ops"])
        else:
            ses.run(n)
        ses.p.close()
        return ses, None
    except (pa.Dead, ValueError) as e:
        if ses:
            ses.p.kill()
        return ses, "%s: %s" % (type(e).__name__, e)


def record(case, ses):
    return {"files": ses.files0, "cmt": case["cmt"], "syntax": [s["l"] for s in case["db"] if s["k"] == "a" and s["m"][0] != "|-"], "tr": [{k: v for k, v in t.items() if not k.startswith("_")} for t in ses.tr]}


def judge(c, exe, cases, focus, n=25, batch=1500):
    for b in range(0, len(cases), batch):
        part = cases[b:b + batch]
        ok = []
        for x, (ses, bad) in zip(part, mm.pmap(lambda x: play(exe, x, n), part)):
            if bad:
                c.violation("the session broke down: " + bad[:160],
                            {"source": x["_text"], "alternative": x["_alt"], "commands": ses.p.log if ses else [], "problem": bad})
            else:
                ok.append((x, ses))
        reps = check.validate(c, "SessionTrace", [record(x, s) for x, s in ok])
        if len(reps) != len(ok):
            raise mm.NoAnswer("SessionTrace judged %d of %d" % (len(reps), len(ok)))
        c.traces(len(ok))
        for x, s in ok:
            for t in s.tr:
                c.count(t["c"] + ("_asked" if t["asked"] else ""))
        for tag, i, k, why in reps:
            if tag == "REJECT":
                if why.startswith(("guard", "discouraged")) != (focus == "guard"):
                    c.count("sessions_cut_short")
                    continue
                x, s = ok[i - 1]
                t = s.tr[k - 1]
                c.violation("not what may happen (%s): %s" % (why, t["_txt"]), {
                    "source": x["_text"], "alternative": x["_alt"], "commands": s.p.log, "command": t["_txt"], "answer": t["_out"],
                    "before": s.tr[k - 2]["seen"] if k > 1 else {"files": s.files0}, "after": t["seen"], "asked": t["asked"]})
        for x, s in ok[:1]:
            c.sample({"commands": [t["_txt"] for t in s.tr][:25]})
