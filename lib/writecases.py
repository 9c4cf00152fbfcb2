"""Source trees as pieces, and sessions of READ and WRITE SOURCE over them (for WriteTrace)."""
import os, random, re, shutil
from . import filecases as fc, gen, mm, obs, proofcases as pc, readcases as rc


def ws(rng):
    return rng.choice([" ", " ", " ", "\n", "  ", "\t", "\n\n", " \n ", "\n  "])


def pieces(rng, toks, crlf=0, known=None):
    """Token list (with $[ f $] groups) to pieces with random white space."""
    out = []

    def text(s):
        if crlf and "\n" in s:
            parts = s.split("\n")
            for n, x in enumerate(parts):
                if n:
                    out.append({"k": "r", "s": "\r\n" if crlf == 1 else "\r"} if rng.random() < .8 else {"k": "t", "s": " \n"})
                if x:
                    out.append({"k": "t", "s": x})
        else:
            out.append({"k": "t", "s": s})

    i = 0
    buf = "\n" if rng.random() < .1 else ""
    while i < len(toks):
        if toks[i] == "$[":
            j = i
            while toks[j] != "$]":
                j += 1
            text(buf)
            w = [x for x in toks[i + 1:j] if not x.startswith("$(")]
            s = "$["
            for x in toks[i + 1:j + 1]:
                s += rng.choice([" ", " ", "  ", "\n"]) + x
            sep = rng.random()
            if not crlf and w[0] in (known or ()) and sep < .12:
                out.append({"k": "s", "f": w[0], "s": "$( Skip $[ %s $] $)" % w[0]})
            else:
                out.append({"k": "i", "f": w[0], "s": s})
            buf = ws(rng)
            i = j + 1
        else:
            buf += toks[i] + ws(rng)
            i += 1
    text(buf)
    if rng.random() < .15:
        while out and out[-1]["k"] == "r":
            out.pop()
        if out and out[-1]["k"] == "t":
            out[-1]["s"] = out[-1]["s"].rstrip("\n\r")
        out.append({"k": "z", "s": ""})
    elif not (out and out[-1]["k"] in "tr" and out[-1]["s"].endswith("\n") or (out and out[-1]["k"] == "r")):
        out.append({"k": "t", "s": "\n"})
    return [p for p in out if p["s"] or p["k"] == "z"]


def show(ps):
    return "".join(p["s"] for p in ps)


def make(seed):
    rng = random.Random(seed)
    if rng.random() < .3:
        db = pc.make_db(rng, rng.choice([2, 4]), steps=(3, 8))
        if rng.random() < .5:
            pc.compress_all(rng, db, .7)
        st = pc.strip(db.stmts)
    else:
        st = rc.frames_db(rng, rng.choice([6, 15, 30]))
    toks = rc.comment_in(rng, rc.tokens(st), rng.choice([0, 3, 10]))
    files = rc.split_files(rng, toks) if rng.random() < .9 else {"main.mm": toks}
    if rng.random() < .04 and len(files) > 1:
        del files[rng.choice([n for n in files if n != "main.mm"])]
    D = {}
    for n, t in files.items():
        D[n] = pieces(rng, t, crlf=rng.choice([0, 0, 0, 0, 0, 1, 2]), known=[x for x in files if x != "main.mm"])
    # already expanded text: a mark pair in the place of a command, when the file is not otherwise used
    for n in list(D):
        if rng.random() < .15:
            for q, p in enumerate(D[n]):
                if p["k"] == "i" and p["f"] in D and p["f"] != n and rng.random() < .5:
                    f = p["f"]
                    inner = [x for x in D[f]]
                    if not any(x["k"] in "rz" for x in inner) and show(inner).endswith("\n"):
                        D[n] = D[n][:q] + [{"k": "b", "f": f, "s": "$( Begin $[ %s $] $)%s" % (f, rng.choice("\n\n "))}] + inner + \
                            [{"k": "e", "f": f, "s": "$( End $[ %s $] $)" % f}] + D[n][q + 1:]
                    break
    for n in list(D):
        for v in range(1, 10):
            if rng.random() < .12:
                D["%s~%d" % (n, v)] = [{"k": "t", "s": "older %s %d\n" % (n, v)}] if rng.random() < .8 else list(D[n])
    steps = []
    outs = ["main.mm", "out.mm"] + rng.sample(sorted(files), min(2, len(files)))
    mains = ["main.mm"]
    for _ in range(rng.choice([1, 1, 2, 3])):
        w = []
        for _ in range(rng.choice([1, 1, 2])):
            split = rng.random() < .45
            w.append({"out": rng.choice(outs), "split": split, "keep": not split and rng.random() < .5,
                      "safe": True if split else rng.random() < .85})
        steps.append({"main": rng.choice(mains + mains + ["main.mm"]), "writes": w})
        mains += [x["out"] for x in w if x["out"] in ("main.mm", "out.mm")]
    return {"dir": sorted(D.items()), "steps": steps}


def run(exe, case):
    """Run the sessions; fills in what was seen."""
    d = mm.scratch("wc-")
    fc.fill(d, {n: show(ps) for n, ps in case["dir"]})
    bad = None
    for st in case["steps"]:
        cmds = ["read %s" % st["main"]]
        for w in st["writes"]:
            cmds.append("write source %s%s%s%s" % (w["out"], " /split" if w["split"] else "", " /keep_includes" if w["keep"] else "",
                                                   "" if w["safe"] else " /no_versioning"))
        r = mm.session(exe, cmds + ["exit"], d, timeout=60)
        st["_out"] = r.text[-2500:]
        st["_cmds"] = cmds
        if re.search(r"\?Error(?!: file )", r.out(0).split("?BUG CHECK")[0]):
            # an invalid database was reported as such: what is written then is not the property's matter
            case["steps"] = case["steps"][:case["steps"].index(st)]
            case["cut"] = True
            break
        if r.rc != 0 or len(r.chunks) < 1:
            bad = "the program died (%s)" % r.rc
            break
        st["_read"] = "?Source was not read" not in r.out(0)
        st["end"] = [[n, t] for n, t in fc.snapshot(d).items()]
    shutil.rmtree(d, ignore_errors=True)
    return bad
