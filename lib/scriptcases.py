"""P23: sessions given by typed lines, answers, program arguments and nested command files."""
import json, os, random, re, shutil
from . import mm, proofcases as pc, tlc

DB = """$( Small logic. $)
$c ( ) -> wff |- $.
$v p q r $.
wp $f wff p $.
wq $f wff q $.
wr $f wff r $.
wi $a wff ( p -> q ) $.
ax-1 $a |- ( p -> ( q -> p ) ) $.
ax-2 $a |- ( ( p -> ( q -> r ) ) -> ( ( p -> q ) -> ( p -> r ) ) ) $.
${
  min $e |- p $.
  maj $e |- ( p -> q ) $.
  ax-mp $a |- q $.
$}
${
  a1i.1 $e |- p $.
  a1i $p |- ( q -> p ) $= wp wq wp wi a1i.1 wp wq ax-1 ax-mp $.
$}
id $p |- ( p -> p ) $= wp wp wp wi wi wp wp wi wp wp ax-1 wp wp wp wi wi wp wp wi wi wp wp wp wi wp wi wi wp wp wp wi ax-1 wp wp wp wi wp ax-2 ax-mp ax-mp $.
${
  thx.1 $e |- ( q -> q ) $.
  thx $p |- ( p -> ( q -> q ) ) $= wq wq wi wp thx.1 a1i $.
$}
thy $p |- ( p -> ( q -> q ) ) $= ? $.
$( No proof at all. $)
thz $p |- ( p -> ( p -> p ) ) $= wp wp wi wp wp id a1i $.
"""
DB2 = DB.replace("thz", "thw").replace("( p -> ( q -> q ) ) $= ?", "( r -> ( q -> q ) ) $= ?")
SRCS = {"t.mm": DB, "u2.mm": DB2}
THMS = ["a1i", "id", "thx", "thy", "thz", "thw"]
LABELS = ["ax-1", "ax-2", "ax-mp", "a1i", "id", "thx", "thy", "thz", "thw", "wi", "nosuch"]
PATS = ["*", "a*", "th?", "id", "*i", "ax-*", "zz*", "wi"]
STRS = ["( p -> p )", "p", "|- $1", "$* -> q", "( $? -> $?", "|- ( q ->", "with 'single'", 'with "double" q']


def num(r):
    return str(r.choice([1, 2, 3, 5, 9, 12, 40]))


SHOWPF = [["ESSENTIAL"], ["ALL"], ["UNKNOWN"], ["FROM_STEP", 1], ["TO_STEP", 1], ["DEPTH", 1], ["REVERSE"], ["NORMAL"], ["LEMMON"],
          ["START_COLUMN", 1], ["NO_REPEATED_STEPS"], ["RENUMBER"], ["COMPRESSED"], ["PACKED"], ["EXPLICIT"], ["STATEMENT_SUMMARY"],
          ["SIZE"], ["DETAILED_STEP", 1], ["VERBOSE"]]
OKNEW = [x for x in SHOWPF if x[0] not in ("STATEMENT_SUMMARY", "SIZE", "DETAILED_STEP")] + [["NOT_UNIFIED"]]


def switches(r, opts, most=2):
    out = []
    for o in r.sample(opts, min(len(opts), r.choice([0, 0, 1, 1, most]))):
        out += ["/", o[0]] + ([("n", num(r))] if len(o) > 1 and o[1] == 1 else [("a", r.choice(LABELS))] if len(o) > 1 else [])
    return out


class G:
    """Generates one case.  A word is a keyword (str) or an argument (kind, text)."""

    def __init__(self, seed):
        self.r = random.Random(seed)
        self.files = {}
        self.made = []
        self.logs = 0
        self.budget = self.r.randint(12, 45)
        self.sloppy = self.r.choice([0.05, 0.25, 0.5])

    def command(self, depth, frame):
        """One complete command, as a list of words."""
        r = self.r
        k = r.random()
        if k < 0.15 and depth < 6:
            if r.random() < 0.10 and frame and frame not in self.made:
                nm = frame                                         # a file that runs itself
            elif r.random() < 0.08:
                nm = "nofile.cmd"
            else:
                nm = self.mkfile(depth + 1)
            return ["SUBMIT", ("f", nm)] + (["/", "SILENT"] if r.random() < 0.4 else [])
        if k < 0.27:
            self.logs += 1
            return ["OPEN", "LOG", ("a", r.choice(["a.log", "b.log", "a.log", "log %d" % self.logs, "c=d", "say \"hi\".log", "it's.log"]))]
        if k < 0.33:
            return ["CLOSE", "LOG"]
        if k < 0.40:
            return ["SET", "ECHO", r.choice(["ON", "ON", "OFF"])]
        if k < 0.43:
            return ["READ", ("f", r.choice(["t.mm", "u2.mm", "t.mm", "none.mm"]))] + (["/", "VERIFY"] if r.random() < 0.3 else [])
        if k < 0.46:
            return ["PROVE", ("a", r.choice(THMS))]
        if k < 0.47:
            return ["ERASE"]
        if k < 0.50:
            return ["EXIT", "/", "FORCE"] if r.random() < 0.8 else [r.choice(["QUIT", "_EXIT_PA"]), "/", "FORCE"]
        if k < 0.56:
            if r.random() < 0.5:
                return r.choice([["SET", "DISCOURAGEMENT", r.choice(["ON", "OFF"])], ["SET", "EMPTY_SUBSTITUTION", r.choice(["ON", "OFF"])],
                                 ["SET", "UNDO", ("n", r.choice(["0", "1", "3", "20"]))], ["SET", "HEIGHT", ("n", r.choice(["24", "1", "40"]))],
                                 ["SET", "UNIFICATION_TIMEOUT", ("n", "100000")], ["SET", "CONTRIBUTOR", ("a", r.choice(["NM", "A. Nother", "O'Neill", 'J "J" J']))],
                                 ["SET", "JEREMY_HENTY_FILTER", r.choice(["ON", "ON", "OFF"])], ["SET", "SCROLL", "CONTINUOUS"]])
            return ["SET", r.choice(["SEARCH_LIMIT"]), ("n", r.choice(["1000000", "50000", "777"]))] if r.random() < 0.7 else ["SET", "WIDTH", ("n", "9999")]
        if k < 0.75:
            return self.pa_command()
        return self.mm_command()

    def mm_command(self):
        r = self.r
        lab, pat = ("a", r.choice(LABELS)), ("a", r.choice(PATS))
        return r.choice([
            lambda: ["SHOW", "LABELS", pat] + switches(r, [["ALL"], ["LINEAR"]]),
            lambda: ["SHOW", "STATEMENT", ("a", r.choice(LABELS + PATS))] + switches(r, [["FULL"], ["COMMENT"]], 1),
            lambda: ["SHOW", "SOURCE", lab],
            lambda: ["SHOW", "PROOF", ("a", r.choice(LABELS + PATS))] + switches(r, SHOWPF),
            lambda: ["SHOW", "PROOF", ("a", r.choice(LABELS + PATS))] + switches(r, SHOWPF, 3),
            lambda: ["SHOW", "TRACE_BACK", lab] + switches(r, [["ALL"], ["ESSENTIAL"], ["AXIOMS"], ["TREE"], ["DEPTH", 1], ["COUNT_STEPS"],
                                                               ["MATCH", 2], ["TO", 2]], 1),
            lambda: ["SHOW", "USAGE", lab] + switches(r, [["DIRECT"], ["RECURSIVE"], ["ALL"]], 1),
            lambda: ["SHOW", "DISCOURAGED"],
            lambda: ["HELP"] + r.choice([[], [r.choice(["LANGUAGE", "EXIT", "READ", "SYSTEM", "MM-PA", "TOOLS", "TEX", "LATEX"])],
                                         ["SHOW", r.choice(["PROOF", "MEMORY", "USAGE"])], ["OPEN", "LOG"], ["FILE", "SEARCH"]]),
            lambda: ["SAVE", "PROOF", ("a", r.choice(LABELS + PATS))] + switches(r, [[x] for x in ("NORMAL", "PACKED", "COMPRESSED", "EXPLICIT", "FAST")]),
            lambda: ["SEARCH", pat, ("a", r.choice(STRS))] + switches(r, [["ALL"], ["COMMENTS"], ["JOIN"]], 2),
            lambda: ["VERIFY", "PROOF", pat] + switches(r, [["SYNTAX_ONLY"]]),
        ])()

    def pa_command(self):
        r = self.r
        step = r.choice([("a", "FIRST"), ("a", "LAST"), ("a", "last"), ("a", "f"), ("a", num(r)), ("a", "-1")])
        return r.choice([
            lambda: ["SHOW", "NEW_PROOF"] + switches(r, OKNEW),
            lambda: ["SHOW", "NEW_PROOF"] + switches(r, OKNEW, 3),
            lambda: ["ASSIGN", step, ("a", r.choice(LABELS))] + switches(r, [["NO_UNIFY"], ["OVERRIDE"]]),
            lambda: ["ASSIGN", step, ("a", r.choice(["a1i", "ax-mp", "id"]))] + switches(r, [["NO_UNIFY"], ["OVERRIDE"]], 1),
            lambda: ["LET", "STEP", step, "=", ("a", r.choice(STRS[:3]))],
            lambda: ["LET", "VARIABLE", ("a", "$" + num(r)), "=", ("a", r.choice(["p", "( q -> r )"]))],
            lambda: ["UNIFY", "ALL"],
            lambda: ["IMPROVE", ("a", r.choice(["ALL", "all", "LAST", "A", "1"]))] + switches(r, [["DEPTH", 1], ["NO_DISTINCT"], ["1"]], 1),
            lambda: ["INITIALIZE", "ALL"], lambda: ["INITIALIZE", "STEP", ("n", num(r))],
            lambda: ["DELETE", "STEP", ("n", num(r))], lambda: ["DELETE", "ALL"], lambda: ["DELETE", "FLOATING_HYPOTHESES"],
            lambda: ["EXPAND", ("a", r.choice(LABELS))],
            lambda: ["MINIMIZE_WITH", ("a", r.choice(LABELS + PATS))] + switches(r, [["VERBOSE"], ["MAY_GROW"], ["EXCEPT", 2], ["FORBID", 2]]),
            lambda: ["REPLACE", step, ("a", r.choice(LABELS))],
            lambda: ["SAVE", "NEW_PROOF"] + switches(r, [["NORMAL"], ["COMPRESSED"], ["OVERRIDE"]]),
            lambda: ["UNDO"], lambda: ["REDO"],
        ])()

    def word(self, w):
        r = self.r
        if isinstance(w, str):
            if w in "/=":
                return w
            x = w
            q = r.random()
            if q < 0.55:
                x = w[:max(min(len(w), r.choice([3, 4, 5, 6])), 1)]
                if w in ("SET", "SHOW", "SEARCH", "SUBMIT", "SAVE") and len(x) < 4:
                    x = w
            if r.random() < self.sloppy * 0.25:
                x = w[:r.randint(1, 2)]
            if r.random() < self.sloppy * 0.08:
                x = r.choice(["zzz", "?", w + "X", "''", '"' + w])
            return r.choice([str.lower, str.upper, str.lower, lambda s: "".join(r.choice([c.lower(), c.upper()]) for c in s)])(x)
        kind, t = w
        if kind == "n" and r.random() < self.sloppy * 0.2:
            t = r.choice(["0" + t, "x", "1.5", "00"])
        if any(c in t for c in " \t/='\"") or r.random() < 0.15:
            q = "'" if '"' in t else '"' if "'" in t else r.choice("'\"")
            return q + t + q
        return t

    def lines(self, words):
        """The lines that give a command: the tail may be left to be asked for."""
        r = self.r
        ws = [self.word(w) for w in words]
        cut = len(ws)
        if len(ws) > 1 and r.random() < self.sloppy * 0.7 and words[0] != "EXIT":
            cut = r.randint(1, len(ws) - 1)
            if cut == 1 and words[0] in ("SHOW", "SET", "SAVE", "OPEN", "CLOSE"):
                cut = min(2, len(ws))
            if words[0] == "PROVE" or words[0] == "SHOW" and len(words) > 2 and words[1] not in ("LABELS", "NEW_PROOF") or words[:2] == ["SAVE", "PROOF"]:
                cut = max(cut, words.index(next(w for w in words if not isinstance(w, str))) + 1)
        s = ""
        for i, w in enumerate(ws[:cut]):
            if i and not (w in "/=" or ws[i - 1] in "/=" or ws[i - 1][:1] in "'\"" and r.random() < 0.3 or w[:1] in "'\"" and r.random() < 0.3):
                s += r.choice([" ", " ", " ", "  ", "\t"])
            elif i:
                s += r.choice(["", " ", " ", "   "])
            s += w
        if r.random() < 0.1:
            s = r.choice([" ", "   "]) + s
        if r.random() < 0.1:
            s += r.choice([" ", "\t "])
        if r.random() < self.sloppy * 0.12:
            s += r.choice([" extra", " 'x y", " / all", " =", " ''", " * *", " /", " ' '", " / no / such"])
        out = [s]
        for w in words[cut:]:                       # answers
            t = w if isinstance(w, str) else w[1]
            if isinstance(w, str) and w not in "/=" and r.random() < 0.5:
                t = self.word(w).strip("'\"")
            elif r.random() < self.sloppy * 0.2:
                t = r.choice(["", "", "zzz", t + " "])
            if w == "=":
                continue                            # the only possibility is not asked for
            out.append(t)
        if cut < len(words) and r.random() < 0.7:
            out.append(r.choice(["", "nothing"]) if r.random() < 0.5 else "")
        return [x for x in out]

    def block(self, n, depth, frame):
        r = self.r
        out = []
        for _ in range(n):
            if self.budget <= 0:
                break
            self.budget -= 1
            out += self.lines(self.command(depth, frame))
            if r.random() < 0.08:
                out.append(r.choice(["! a remark", "", "   ", "!show labels *", "\t", "!"]))
        return out

    def mkfile(self, depth):
        r = self.r
        nm = r.choice(["f%d.cmd", "s%d", "my file %d.txt", "d%d=x.cmd"]) % (len(self.files) + 1)
        if self.files and r.random() < 0.25:
            return r.choice(self.made or [nm]) if self.made else self.finish_file(nm, depth)
        return self.finish_file(nm, depth)

    def finish_file(self, nm, depth):
        self.files[nm] = []
        self.files[nm] = self.block(self.r.choice([0, 1, 2, 3, 3, 5, 7]), depth, nm)
        self.made.append(nm)
        return nm

    def stretch(self, r, ls):
        """Make one line longer than what is read at a time."""
        c = [i for i, l in enumerate(ls) if i > 2 and re.match(r"[^'\"]* ", l)]
        if c and r.random() < .6:
            i = r.choice(c)
            k = ls[i].index(" ") + 1
            n = r.choice([1990, 1997, 1998, 1999, 2000, 2001, 2050, 3997, 3998, 3999]) + r.choice([0, 0, 7, 20])
            ls[i] = ls[i][:k] + " " * (n - len(ls[i])) + ls[i][k:]
        elif ls:
            ls.insert(r.randint(min(2, len(ls)), len(ls)), "! " + "x" * r.choice([1990, 1996, 1997, 3993]) + r.choice([" ", "  ", "   "]) + r.choice(["show labels *", "exit", "/", "save"]))

    def case(self):
        r = self.r
        head = ["SET SCROLL CONTINUOUS", "SET WIDTH 9999"]
        start = []
        if r.random() < 0.9:
            start += self.lines(["READ", ("f", "t.mm")])
        body = []
        if r.random() < 0.35:
            body += self.lines(["PROVE", ("a", r.choice(THMS[:5]))])
        body += self.block(r.randint(4, 14), 0, "")
        args = []
        if r.random() < 0.2:
            args = head + [x for x in start if x] + [x for x in body[:r.randint(0, 5)]]
            args = [a for a in args]
            stdin = body[len(args) - len(head) - len(start):] if len(args) > len(head) + len(start) else body
        elif r.random() < 0.1:
            args, stdin = ["t.mm"], head + body
        else:
            stdin = head + start + body
        long = random.Random(len(stdin) * 1009 + len(self.files) * 31 + r.randrange(1 << 30))
        if long.random() < .04:
            for ls in [stdin] + list(self.files.values()):
                self.stretch(long, ls)
        stdin = stdin + ["EXIT / FORCE"] * (r.choice([6, 6, 1]))
        return {"files": self.files, "srcs": {n: re.findall(r"(\S+) \$p", t) for n, t in SRCS.items()}, "args": args, "stdin": [x for x in stdin]}


def bad(c):
    """Inputs outside what the machine describes."""
    allf = [l for f in c["files"].values() for l in f] + c["stdin"] + c["args"]
    return any(l[:1] in "'\"" and l for l in allf)      # these are given to the shell


# what a full command may be, so that everything it says is decided by the commands before it
def supported(f):
    ok = {"READ", "SHOW", "SEARCH", "PROVE", "SUBMIT", "OPEN", "CLOSE", "SET", "EXIT", "QUIT", "_EXIT_PA", "ERASE", "VERIFY", "INITIALIZE",
          "IMPROVE", "UNIFY", "DELETE", "LET", "ASSIGN", "UNDO", "REDO",
          "HELP", "SAVE", "EXPAND", "MINIMIZE_WITH", "REPLACE"}
    if f[0] not in ok or len(f) == 1 and f[0] not in ("HELP", "ERASE", "UNDO", "REDO", "EXIT", "QUIT", "_EXIT_PA"):
        return False
    if f[0] == "SHOW" and f[1] in ("SETTINGS", "MEMORY", "ELAPSED_TIME"):
        return False
    if f[0] == "SET" and not (f[1] not in ("SCROLL", "WIDTH", "DEBUG", "MEMORY_STATUS", "ROOT_DIRECTORY") or f[1:] == ["SCROLL", "CONTINUOUS"] or f[1:] == ["WIDTH", "9999"]):
        return False
    if f[0] == "OPEN" or f[0] == "CLOSE" or f[0] == "VERIFY" and f[1] != "PROOF":
        return False
    if f[0] == "UNIFY" and f[1] != "ALL" or "INTERACTIVE" in f or "USER" in f:
        return False
    if "TEX" in f or "HTML" in f or "OLD_TEX" in f or "ALT_HTML" in f or "BRIEF_HTML" in f or "BRIEF_ALT_HTML" in f or "MNEMONICS" in f \
       or "TIME" in f:
        return False
    return True


def quoted(x):
    if x == "" or re.search(r"[ \t\"']", x):
        return "'%s'" % x if '"' in x else '"%s"' % x
    return x


TIME = re.compile(r"\d+\.\d\d s")
DATE = re.compile(r'(?m)(The log file ".*" was (?:opened|closed)) .*$')


def norm(s):
    return DATE.sub(r"\1 @", TIME.sub("T s", s))


def write(d, c, eol):
    for n, t in SRCS.items():
        open(os.path.join(d, n), "w").write(t)
    for i, (n, ls) in enumerate(sorted(c["files"].items())):
        e = "\r\n" if eol == 1 else "\n"
        t = e.join(ls) + (e if ls and eol != 2 or ls and ls[-1] == "" else "")
        open(os.path.join(d, n), "wb").write(t.encode("latin-1"))


def compare(exe, c, plan, eol):
    """None if the program does what the plan says, else (what, replay); 'skip' when the plan is outside the scope."""
    ev, runs, logs = plan["ev"], plan["runs"], plan["logs"]
    if plan["endless"] or not all(supported(f) for f in runs) or any(e["s"][:1] == "@" for e in ev):
        return "skip"
    if any(len(x) > 200 for x in logs) or any("couldn't open the file \"%s\"" % x in e["s"] for x in logs for e in ev):
        # no file can have such a name; a log given as a command file
        return "skip"
    d1, d2 = mm.scratch(), mm.scratch()
    try:
        write(d1, c, eol)
        write(d2, c, eol)
        full = [" ".join(quoted(w) for w in f) for f in runs]
        ref = mm.run(exe, full + ["EXIT / FORCE"] * 2, d2, timeout=60)
        outs = [o for _, o in ref.chunks]
        if any("(Y, N)" in o and "FORCE" not in f for f, o in zip(runs, outs)):
            return "skip"
        rep = {"session": c, "eol": eol, "runs": full}
        if ref.rc != 0 or len(outs) < len(full):
            return ("a session of complete commands", dict(rep, rc=ref.rc, got=ref.text))
        wrong = [(f, o) for f, o in zip(full, outs) if re.match(r" *\t* *\^+\n\?", o)]
        if wrong:
            return ("a complete command is not understood: what it says", dict(rep, got=wrong))
        r = mm.run(exe, "".join(x + "\n" for x in c["stdin"]), d1, timeout=60, args=c["args"])
        i = r.text.find("MM> ")
        got = norm(r.text[i:] if i >= 0 else r.text)
        def text(sel):
            return norm("".join(outs[e["k"] - 1] if e["e"] == "o" else e["s"] for e in ev if sel(e)))
        want = text(lambda e: e["vis"])
        if r.rc != 0 or got != want:
            return ("the screen of the session", dict(rep, rc=r.rc, want=want, got=got))
        seen = {}
        for n, nm in enumerate(logs, 1):
            seen.setdefault(nm, []).append(n)
        for nm, ks in seen.items():
            for age, n in enumerate(list(reversed(ks))[:10]):      # older versions are dropped
                p = os.path.join(d1, nm + ("~%d" % age if age else ""))
                g = norm(open(p, encoding="latin-1").read()) if os.path.exists(p) else None
                w = text(lambda e: e["lg"] == n)
                if g != w:
                    return ("log file %s" % os.path.basename(p), dict(rep, want=w, got=g))
        extra = sorted(set(os.listdir(d1)) - set(SRCS) - set(c["files"]) -
                       {nm + ("~%d" % a if a else "") for nm, ks in seen.items() for a in range(min(10, len(ks)))})
        if extra:
            return ("files that no command writes", dict(rep, got=extra))
        return None
    finally:
        shutil.rmtree(d1, ignore_errors=True)
        shutil.rmtree(d2, ignore_errors=True)


def work(c):
    """About how many lines the session takes."""
    memo = {}

    def cost(ls, depth):
        n = len(ls)
        if depth < 10:
            for l in ls:
                for f, x in c["files"].items():
                    if f in l:
                        if (f, depth) not in memo:
                            memo[f, depth] = cost(x, depth + 1)
                        n += memo[f, depth]
        return n
    return cost(c["stdin"] + c["args"], 0)


def make(seed):
    g = G(seed)
    c = g.case()
    if bad(c) or len(c["files"]) > 9 or work(c) > 400:
        return make(seed + 7919)
    return c


def plans(c, cases):
    """The specification's plan of every case."""
    from . import check
    d = mm.scratch()
    p = os.path.join(d, "cases.json")
    with open(p, "w") as f:
        for x in cases:
            f.write(json.dumps({k: (v if k != "files" or v else {"no file": []}) for k, v in x.items()}) + "\n")
    r = check.model_check(c, "ScriptPlan", cfg="ScriptPlan", env={"TRACE_FILE": p})
    out = {}
    for rep in r.reports():
        if rep[0] == "PLAN":
            out[rep[1] - 1] = rep[2]
    return out


def judge(c, exe, cases):
    pl = plans(c, cases)
    if len(pl) != len(cases):
        raise mm.NoAnswer("the specification gave %d plans for %d sessions" % (len(pl), len(cases)))
    res = mm.pmap(lambda i: compare(exe, cases[i], pl[i], i % 3), range(len(cases)))
    for i, x in enumerate(res):
        if x == "skip":
            c.count("sessions outside the scope")
            continue
        c.traces(1)
        c.count("sessions")
        c.count("commands carried out", len(pl[i]["runs"]))
        c.count("command files", len(cases[i]["files"]))
        c.count("log files", len(pl[i]["logs"]))
        if x is not None:
            c.violation("%s differs from what the specification says" % x[0], x[1])
        elif i < 3:
            c.sample({"stdin": cases[i]["stdin"], "files": cases[i]["files"]})
