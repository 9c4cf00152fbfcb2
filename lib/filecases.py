"""Directories before and after commands that replace files, with the system calls in between."""
import os, random, shutil, subprocess
from . import mm

SHIM = os.path.join(os.path.dirname(os.path.abspath(__file__)), "shim", "fsshim.c")


def shim():
    d = mm.scratch("shim-")
    so = os.path.join(d, "fsshim.so")
    r = subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", so, SHIM, "-ldl"], capture_output=True, text=True)
    if r.returncode:
        raise mm.NoAnswer("shim does not compile: " + r.stderr[-500:])
    return so


def snapshot(d):
    out = {}
    for n in sorted(os.listdir(d)):
        p = os.path.join(d, n)
        if os.path.isfile(p):
            with open(p, encoding="latin-1", newline="") as f:
                out[n] = f.read()
    return out


def fill(d, files):
    for n, t in files.items():
        with open(os.path.join(d, n), "w", encoding="latin-1", newline="") as f:
            f.write(t)


def clear(d):
    for n in os.listdir(d):
        os.remove(os.path.join(d, n))


SRC = "$c |- wff $. $v x $. wx $f wff x $.\nax $a |- x $.\n"


def versions(f, S, tag=""):
    """files f (0), f~1 .. for v in S, contents all different, two lines each"""
    return {f if v == 0 else "%s~%d" % (f, v): "old%s %s %d\nline2 %d\n" % (tag, f, v, v) for v in S}


def command(rng, kind, f):
    """(files needed, commands, requests given the directory, free names are zz~tools*)"""
    if kind == "log":
        return {}, ["open log %s" % f, "close log"], lambda D: [("w", f, True)]
    if kind == "number":
        return {}, ["tools", "number %s 1 3 1" % f, "exit"], lambda D: [("w", f, True)]
    if kind == "add":
        return {}, ["tools", 'add %s "zz" ""' % f, "exit"], lambda D: [("w", f, True)] if f in D else []
    if kind == "addold":
        return {}, ["tools", 'add %s~2 "zz" ""' % f, "exit"], lambda D: [("w", f, True)] if f + "~2" in D else []
    if kind == "copy":
        return {"src.txt": "copied\n", "src2.txt": "more\n"}, ["tools", 'copy "src.txt,src2.txt" %s' % f, "exit"], lambda D: [("w", f, True)]
    if kind in ("source", "source_nv", "source_self", "source_keep"):
        main = f if kind == "source_self" else "main.mm"
        inc = "inc.mm"
        files = {inc: "$( included $)\n", "inc.mm~1": "older included\n"}
        if rng.random() < .5:
            del files["inc.mm~1"]
        files[main] = SRC + "$[ %s $]\n" % inc
        q = {"source_nv": " /no_versioning", "source_keep": " /keep_includes"}.get(kind, "")
        safe = kind != "source_nv"
        reqs = [("w", f, safe)] + ([] if kind == "source_keep" else [("d", inc, safe)])
        return files, ["read %s" % main, "write source %s%s" % (f, q)], lambda D: reqs
    raise ValueError(kind)


KINDS = ["log", "number", "add", "addold", "copy", "source", "source_nv", "source_self", "source_keep"]


def run_one(exe, so, kind, f, files, rng, fail=0, kill=0):
    """One command in a fresh directory: the case for FilesTrace."""
    d = mm.scratch("fc-")
    need, cmds, reqs = command(rng, kind, f)
    files = dict(files)
    files.update(need)
    fill(d, files)
    log = d + ".log"
    env = {"LD_PRELOAD": so, "FSLOG": log}
    if fail:
        env["FSFAIL"] = str(fail)
    if kill:
        env["FSKILL"] = str(kill)
    r = mm.run(exe, mm.PRE + cmds + ["exit"], d, env=env)
    end = snapshot(d)
    ops = []
    if os.path.exists(log):
        for l in open(log, encoding="latin-1"):
            op, a, b, ok = l.rstrip("\n").split("\t")
            ops.append({"op": "write" if op == "append" else op, "a": a, "b": b, "ok": ok == "1"})
        os.remove(log)
    shutil.rmtree(d, ignore_errors=True)
    pool = set(files.values())
    free = sorted({n for n in end if n.startswith("zz~tools")} | {"zz~tools1.tmp"})
    said = "?" not in r.text.split("MM>", 3)[-1].replace("(Y, N) <N>?", "") if not kill else False
    case = {"dir": sorted(files.items()), "end": [[n, t if t in pool else "new"] for n, t in sorted(end.items())], "ops": ops,
            "reqs": [{"k": k, "f": g, "safe": s, "c": "asked " + g} for k, g, s in reqs(files)],
            "fault": bool(fail or kill), "free": free, "answer": "done" if said else "failed"}
    return case, r, {"kind": kind, "file": f, "fail": fail, "kill": kill, "commands": cmds, "before": files, "after": end, "calls": ops}
