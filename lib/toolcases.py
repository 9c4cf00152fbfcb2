"""Sessions with the text tools, recorded step by step, judged by ToolTrace.tla."""
import os, random, select, shutil, signal, subprocess, time
from . import mm
from .check import validate

NAMES = ["a", "bb", "c.txt"]
CMDS = ["ADD", "TAG", "DELETE", "CLEAN", "SUBSTITUTE", "SWAP", "INSERT", "RIGHT", "BREAK", "BUILD", "MATCH", "SORT",
        "REVERSE", "UNDUPLICATE", "DUPLICATE", "UNIQUE", "PARALLEL", "NUMBER", "COUNT", "TYPE", "COPY"]


def quoted(rng, x):
    if x and all(c.isalnum() or c in "._~," for c in x) and rng.random() < .5:
        return x
    q = '"' if '"' not in x else "'" if "'" not in x else None
    if q == '"' and "'" not in x and rng.random() < .3:
        q = "'"
    return None if q is None else q + x + q


class Gen:
    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.kind = self.rng.choice(["words", "words", "words", "tabs", "cols", "dups", "nums", "long"])

    def line(self):
        r, k = self.rng, self.kind
        if r.random() < .12:
            return ""
        if k == "dups":
            return r.choice(["a", "b", "ab", "A", "a b", "k=b", "k=a", "z k=a", "b ", "B", "_", "~", "a;k=a", "10", "9"])
        if k == "nums":
            return r.choice(["", "", "x", "$ ", " "]) + str(r.randrange(1000)) + r.choice(["", "", " y", ";", "q7"])
        if k == "long":
            return "".join(r.choice("abcdefgh ;") for _ in range(r.choice([10, 40, 71, 72, 73, 78, 79, 80, 81, 120])))
        if k == "cols":
            return "".join(r.choice("abcdefgh") for _ in range(r.choice([1, 2, 3, 5, 8, 9, 17, 30, 35, 36, 37, 62])))
        al = ["a", "b", "ab", "ba", "aa", "x", "Q", "zZ", " ", " ", "  ", ";", "(", ")", "[", ",", "=", ":", "{", "}", "7"]
        if k == "tabs":
            al = ["a", "B", "c;", " ", "  ", "     ", "        ", "\t", "\t\t", "'", '"', "'", "\f", "e"]
        return "".join(r.choice(al) for _ in range(r.randint(1, 9)))

    def lines(self):
        r = self.rng
        n = r.choice([0, 1, 1, 2, 3, 4, 5, 6, 8, 12])
        L = [self.line() for _ in range(n)]
        if L and r.random() < .3:
            L += [r.choice(L) for _ in range(r.randint(1, 4))]
        return L

    def files(self):
        r = self.rng
        d = []
        for n in NAMES:
            if r.random() < .85:
                d.append({"n": n, "l": self.lines(), "nl": True})
                run = r.choice([0, 0, 0, 1, 2, 7, 8, 9])
                for v in range(1, 10):
                    if v <= run or r.random() < .04:
                        d.append({"n": "%s~%d" % (n, v), "l": ["%s version %d" % (n, v)] + self.lines(), "nl": True})
        for x in d:
            if x["l"] and x["l"][-1] and r.random() < .15:
                x["nl"] = False
        return d

    def part(self, d, empty=.15, quotes=False):
        """A string that is often found in the files."""
        r = self.rng
        if r.random() < empty:
            return ""
        pool = [x for f in d for x in f["l"] if x]
        if pool and r.random() < .8:
            s = r.choice(pool)
            i = r.randrange(len(s))
            x = s[i:i + r.choice([1, 1, 2, 3])]
        else:
            x = r.choice(["a", "b", "ab", "k=", ";", "x", "no", "  ", "aa", "("])
        return x if ("\f" not in x and "\\" not in x and (quotes or not set(x) & set("'\""))) else "a"

    def cmd(self, d):
        r = self.rng
        names = [f["n"] for f in d]
        f = r.choice(NAMES) if r.random() < .8 else r.choice(names or NAMES)
        if r.random() < .03:
            f = "nofile"
        c = r.choice(CMDS)
        some = lambda: r.choice(["", "", "+", "<", "ab", "  ", "-x", "a"])
        num = lambda k=4: r.choice(["", "1", str(r.randint(1, k))])
        p = lambda e=.15: self.part(d, e, True)
        if c == "ADD":
            a = [f, some(), some()]
        elif c == "TAG":
            a = [f, some(), some(), p(.3), num(), p(.3), num()]
        elif c == "DELETE":
            a = [f, p(.2), p(.2)]
        elif c == "CLEAN":
            l = r.sample(["D", "B", "E", "R", "Q", "T", "U", "G", "C", "L"], r.randint(1, 4))
            a = [f, r.choice(["", ",".join(l), "".join(l), ",".join(l).lower(), "B", "E", "R", "T", "U", "D", "B,E,R"])]
        elif c == "SUBSTITUTE":
            a = [f, p(0), r.choice(["", "x", "ab", "aba", "\\n", "--"]), r.choice(["", "1", "2", "3", "A", "all", "EACH"]), p(.7)]
            if a[3] == "EACH":
                a[3] = "ALL"
            if r.random() < .3:
                a[1] = r.choice(["\\n", "\\n", "a\\n", "\\n;", "b\\na", "\\na", p(0)[:1] + "\\n"])
                a[2] = r.choice(["", " ", "+", "ab"])
        elif c == "SWAP":
            a = [f, p(0)]
        elif c == "INSERT":
            a = [f, r.choice(["", "!", "|", "ab"]), r.choice(["", "1", "2", "3", "5", "9", "20"])]
        elif c == "BREAK":
            a = [f, r.choice(["", "", " ", ";", "a", ";;", "ab;", "=,"])]
        elif c == "MATCH":
            a = [f, p(.25), r.choice(["", "Y", "y", "N", "n", "no"])]
        elif c == "SORT":
            a = [f, r.choice([p(.5), "k=", ""])]
        elif c == "PARALLEL":
            a = [f, r.choice(NAMES), r.choice(["", "a", "o.txt", f]), some()]
            if a[2] and "~" in a[2]:
                a[2] = "o.txt"
        elif c == "NUMBER":
            a = [r.choice(["", "n1", f]), num(20), num(40), r.choice(["", "1", "2", "3", "7", "0"])]
        elif c == "COUNT":
            a = [f, p(.1)]
        elif c == "TYPE":
            a = [f, r.choice(["", "", "1", "3", "20", "A", "all", "0"])]
        elif c == "COPY":
            fs = [r.choice(names or NAMES) for _ in range(r.choice([1, 1, 2, 3]))]
            if r.random() < .06:
                fs.insert(r.randrange(len(fs) + 1), "nofile")
            a = [",".join(fs), r.choice(NAMES + ["o.txt"])]
        else:
            a = [f]
        if c == "NUMBER" and "~" in a[0]:
            a[0] = "n1"
        q = [quoted(r, x) for x in a]
        if None in q:
            return self.cmd(d)
        word = c
        if c in ("SUBSTITUTE", "TYPE", "COPY") and r.random() < .3:
            word = c[0]
        if r.random() < .3:
            word = word.lower()
        return c, a, word + " " + " ".join(q)


def put(d, files):
    for f in files:
        t = "\n".join(f["l"]) + ("\n" if f["nl"] and f["l"] else "")
        with open(os.path.join(d, f["n"]), "w", newline="") as o:
            o.write(t)


def look(d):
    out = []
    for n in sorted(os.listdir(d)):
        t = open(os.path.join(d, n), newline="", encoding="latin-1").read()
        l = t.split("\n")
        nl = l[-1] == ""
        if nl:
            l.pop()
        out.append({"n": n, "l": l, "nl": nl})
    return out


class Tools:
    """The program, sitting at its TOOLS> prompt."""

    def __init__(self, exe, d):
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                  cwd=d, start_new_session=True)
        os.set_blocking(self.p.stdout.fileno(), False)
        self.wait("MM> ")
        for x in ("set scroll continuous", "set width 9999"):
            self.say(x, "MM> ")
        self.say("tools", "TOOLS> ")

    def wait(self, prompt, limit=15):
        buf, end = b"", time.time() + limit
        want = prompt.encode()
        while not (buf == want or buf.endswith(b"\n" + want)):
            left = end - time.time()
            if left <= 0 or len(buf) > 1 << 20:
                return None
            if select.select([self.p.stdout], [], [], left)[0]:
                x = self.p.stdout.read()
                if not x:
                    return None
                buf += x
        return buf[:-len(want)].decode("latin-1")

    def say(self, line, prompt="TOOLS> "):
        try:
            self.p.stdin.write((line + "\n").encode("latin-1"))
            self.p.stdin.flush()
        except OSError:
            return None
        return self.wait(prompt)

    def close(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.communicate()


DEAD = []


def record(exe, files, more, n):
    """more(files as they are) -> (command, arguments, line typed); n of them are carried out."""
    d = mm.scratch("tools-")
    put(d, files)
    start = look(d)
    if len(DEAD) > 3:      # the program hangs or dies again and again: enough seen
        return None
    t = Tools(exe, d)
    steps, lines, now = [], [], start
    try:
        for _ in range(n):
            x = more(now)
            if x is None:
                break
            c, a, line = x
            lines.append(line)
            o = t.say(line)
            if o is None:
                DEAD.append(line)
                return {"dir": start, "steps": steps, "lines": lines, "died": True}
            now = look(d)
            l = o.split("\n")
            if l[-1] == "":
                l.pop()
            steps.append({"c": c, "a": a, "dir": now, "out": l})
        return {"dir": start, "steps": steps, "lines": lines, "died": False}
    finally:
        t.close()
        shutil.rmtree(d, ignore_errors=True)


def one(exe, seed):
    g = Gen(seed)
    return record(exe, g.files(), g.cmd, 14)


def small(exe, files, cmds):
    """The commands on file a, which is made again from s before each."""
    seq = []
    for cm, args in cmds:
        seq.append(("COPY", ["s", "a"], "COPY s a"))
        seq.append((cm, ["a"] + args, cm + " a " + " ".join('"%s"' % x for x in args)))
    it = iter(seq)
    return record(exe, [{"n": "s", "l": files, "nl": True}], lambda now: next(it, None), len(seq))


def huge(exe, seed):
    """Lines about as long as the pieces they are read in."""
    r = random.Random(seed)

    def line():
        n = r.choice([9999, 10000, 10001, 19999, 20000, 20001, 3, 30000])
        return r.choice("abc") * (n - 3) + r.choice(["xyz", "zyx", "aaa"])
    files = [{"n": n, "l": [line() for _ in range(r.randint(1, 2))], "nl": r.random() < .6} for n in ("a", "bb")]
    cmds = r.sample([("COPY", ["a,bb", "c"]), ("REVERSE", ["a"]), ("ADD", ["bb", "q", ""]), ("COPY", ["bb", "a"]),
                     ("UNDUPLICATE", ["a"]), ("MATCH", ["bb", "", "Y"])], 3)
    it = iter([(c, a, c + " " + " ".join('"%s"' % x for x in a)) for c, a in cmds])
    return record(exe, files, lambda now: next(it, None), 3)


def judge(c, recs):
    ok = []
    for r in recs:
        if r is None:
            continue
        if r["died"]:
            c.violation("the program stopped answering at: %s" % r["lines"][-1], {"dir": r["dir"], "lines": r["lines"]})
        else:
            ok.append(r)
    reps = validate(c, "ToolTrace", [{"dir": r["dir"], "steps": r["steps"]} for r in ok], name="ToolTrace")
    bad = {}
    for x in reps:
        if x[0] == "REJECT":
            bad[x[1] - 1] = x
    acc = {x[1] - 1 for x in reps if x[0] == "ACCEPT"}
    if len(acc | set(bad)) != len(ok) or acc & set(bad):
        raise mm.NoAnswer("TLC judged %d + %d of %d sessions" % (len(acc), len(bad), len(ok)))
    for i, r in enumerate(ok):
        c.traces(1)
        for s in r["steps"]:
            c.count(s["c"])
        if i in bad:
            _, _, k, why, out, d = bad[i]
            before = r["dir"] if k == 1 else r["steps"][k - 2]["dir"]
            c.violation("%s after: %s" % (why, r["lines"][k - 1]),
                        {"before": before, "lines": r["lines"][:k], "step": r["steps"][k - 1], "says": out, "files": d})
    if ok:
        c.sample({"lines": ok[0]["lines"]})
