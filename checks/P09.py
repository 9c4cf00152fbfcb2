import os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import check, filecases as fc, gen, mm


def replay(exe, kind, maker, cases):
    """Every directory of FilesGen in one session of one command kind (one base name per directory)."""
    d = mm.scratch("p9-")
    cmds, names = maker(d, cases)
    r = mm.session(exe, cmds + ["exit"], d, timeout=200)
    end = fc.snapshot(d)
    if r.rc != 0:
        return 0, [("the program died (%s) replacing files with %s" % (r.rc, kind), {"commands": cmds[:5], "tail": r.text[-500:]})]
    bads = []
    for n, (start, fin) in zip(names, cases):
        want = {k.replace("f", n, 1): v for k, v in fin.items()}
        got = {k: t for k, t in end.items() if k == n or k.startswith(n + "~")}
        old = {v: k.replace("f", n, 1) for k, v in start.items()}
        bad = set(want) != set(got)
        for k in want:
            if not bad and want[k] in old:
                bad = got[k] != "$( v%d %s $)\n" % (want[k], n)
            elif not bad:
                bad = got[k] in ("$( v%d %s $)\n" % (v, n) for v in old)
        if bad:
            bads.append(("replacing a file with %s does not keep its versions as asked" % kind,
                         {"before": start, "wanted": fin, "after": got, "command": kind}))
    return len(cases), bads


def body(c):
    exe = mm.build()
    so = fc.shim()
    r = check.model_check(c, "FilesGen", cfg="FilesGen.cfg")
    gen_cases = {"w": [], "d": []}
    for x in r.reports():
        if x[0] == "CASE":
            gen_cases[x[1]].append((dict(x[2]), dict(x[3])))
    check.model_check(c, "FilesGen", cfg="FilesGenT.cfg" if c.thorough else "FilesGenM.cfg")
    c.count("exhaustive_directories", sum(len(v) for v in gen_cases.values()))

    def setup(d, cases, ext=""):
        names = ["q%04d%s" % (i, ext) for i in range(len(cases))]
        for n, (start, fin) in zip(names, cases):
            fc.fill(d, {k.replace("f", n, 1): "$( v%d %s $)\n" % (v, n) for k, v in start.items()})
        return names

    def m_log(d, cases):
        names = setup(d, cases)
        return [x for n in names for x in ("open log %s" % n, "close log")], names

    def m_number(d, cases):
        names = setup(d, cases)
        return ["tools"] + ["number %s 1 2 1" % n for n in names] + ["exit"], names

    def m_copy(d, cases):
        names = setup(d, cases)
        fc.fill(d, {"src.txt": "copied\n"})
        return ["tools"] + ["copy src.txt %s" % n for n in names] + ["exit"], names

    def m_add(d, cases):
        names = setup(d, cases)
        return ["tools"] + ['add %s "y" ""' % n for n in names] + ["exit"], names

    def m_source(d, cases):
        names = setup(d, cases)
        fc.fill(d, {"main.mm": fc.SRC})
        return ["read main.mm"] + ["write source %s" % n for n in names], names

    def thms(d, names, ext):
        more = "".join("%s $p |- p $= ax $.\n" % n[:-len(ext)] for n in names)
        fc.fill(d, {"main.mm": "$( $t htmldef \"p\" as \"P\"; htmldef \"|-\" as \"T\"; latexdef \"p\" as \"p\"; latexdef \"|-\" as \"T\"; $)\n"
                               "$c |- p $.\nax $a |- p $.\n" + more})

    def m_midi(d, cases):
        names = setup(d, cases, ".txt")
        thms(d, names, ".txt")
        return ["read main.mm"] + ["midi %s" % n[:-4] for n in names], names

    def m_html(d, cases):
        names = setup(d, cases, ".html")
        thms(d, names, ".html")
        return ["read main.mm"] + ["show statement %s /html" % n[:-5] for n in names], names

    def m_tex(d, cases):
        names = setup(d, cases)
        thms(d, ["q.x"], ".x")
        return ["read main.mm"] + [x for n in names for x in ("open tex %s" % n, "close tex")], names

    def m_delete(d, cases):
        names = setup(d, cases)
        fc.fill(d, {"main.mm": fc.SRC + "".join("$[ %s $]\n" % n for n in names)})
        return ["read main.mm", "write source out.mm"], names

    w = gen_cases["w"]
    todo = [("open log", m_log, w), ("tools number", m_number, w), ("tools copy", m_copy, w), ("write source", m_source, w),
            ("midi", m_midi, w), ("show statement /html", m_html, w), ("open tex", m_tex, w),
            ("tools add", m_add, [x for x in w if "f" in x[0]]), ("write source (included files)", m_delete, gen_cases["d"])]
    todo = [(k, m, cs[i:i + 256]) for k, m, cs in todo for i in range(0, len(cs), 256)]
    for kind, res in mm.pmap(lambda t: (t[0], replay(exe, *t)), todo):
        n, bads = res
        c.traces(n)
        for what, rep in bads:
            c.violation(what, rep)

    # calls recorded, one command per session; then the same command with one call failing, or killed at a call
    rng = c.rng
    jobs = []
    for _ in range(c.scale(60, 600)):
        kind = rng.choice(fc.KINDS)
        f = rng.choice(["out.mm", "a", "b.txt"])
        k = rng.random()
        S = set(range(rng.randint(0, 10))) if k < .5 else set(range(10)) if k < .7 else {v for v in range(11) if rng.random() < .6}
        files = fc.versions(f, S)
        jobs.append((kind, f, files, rng.randrange(1 << 30)))

    def one(j):
        kind, f, files, sd = j
        out = [fc.run_one(exe, so, kind, f, files, random.Random(sd))]
        n = len(out[0][0]["ops"])
        for k in range(1, n + 1):
            out.append(fc.run_one(exe, so, kind, f, files, random.Random(sd), fail=k))
        for k in random.Random(sd).sample(range(1, n + 1), min(n, 3)):
            out.append(fc.run_one(exe, so, kind, f, files, random.Random(sd), kill=k))
        return out

    runs = [x for part in mm.pmap(one, jobs) for x in part]
    cases, idx = [], []
    for case, r, info in runs:
        if r.rc != 0:
            c.violation("the program died (%s) replacing a file" % r.rc, dict(info, output=r.text[-600:]))
            continue
        cases.append(case)
        idx.append((r, info))
    reps = check.validate(c, "FilesTrace", cases)
    if len(reps) != len(cases):
        raise mm.NoAnswer("FilesTrace judged %d of %d" % (len(reps), len(cases)))
    c.traces(len(cases))
    c.count("commands_with_a_failing_call", sum(1 for x in idx if x[1]["fail"]))
    c.count("commands_killed_at_a_call", sum(1 for x in idx if x[1]["kill"]))
    c.count("system_calls", sum(len(x["ops"]) for x in cases))
    for tag, i, why in reps:
        if tag == "REJECT":
            r, info = idx[i - 1]
            c.violation("%s (%s, failing call %s, killed at %s): %s" % (info["kind"], info["file"], info["fail"] or "none", info["kill"] or "none", why),
                        dict(info, output=r.text[-800:]))
    c.cov["rule"] = "all 2048 directories of a file and its versions 1-10 replayed with nine commands; random directories with every call recorded, then failing, then killed"
    for x in idx[:3]:
        c.sample({"command": x[1]["commands"], "calls": [(o["op"], o["a"], o["b"]) for o in x[1]["calls"]]})


if __name__ == "__main__":
    check.main("P09", body)
