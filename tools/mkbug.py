"""mkbug.py: write seeded/<id> from a spec file: a Python file defining ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO, FILES={name:text}."""
import difflib, json, os, runpy, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''#!/bin/bash
# exit 0: the behaviour is right; non-zero: it is not
here=$(cd "$(dirname "$0")" && pwd)
MM=${METAMATH:-$PWD/_build/main/src/metamath}
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 3
mm() { timeout 60 "$MM" 2>&1; }
'''


def make(ns):
    d = os.path.join(ROOT, "seeded", ns["ID"])
    os.makedirs(d, exist_ok=True)
    byfile = {}
    for f, old, new in ns["EDITS"]:
        if f not in byfile:
            t = open(os.environ.get("MM_REPO", "/repo") + "/" + f, encoding="latin-1").read()
            byfile[f] = [t, t]
        t = byfile[f][1]
        assert t.count(old) == 1, (ns["ID"], f, t.count(old), old)
        byfile[f][1] = t.replace(old, new)
    out = ""
    for f, (a, b) in byfile.items():
        out += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w", encoding="latin-1").write(out)
    open(d + "/demo.sh", "w").write(HEAD + ns["DEMO"].strip("\n") + "\n")
    for n, t in ns.get("FILES", {}).items():
        open(os.path.join(d, n), "w").write(t)
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)


BUGS = []


def bug(ID, PROP, NEEDS, BREAKS, EDITS, DEMO, **FILES):
    make(dict(ID=ID, PROP=PROP, NEEDS=NEEDS, BREAKS=BREAKS, EDITS=EDITS, DEMO=DEMO, FILES=FILES))
    BUGS.append(ID)


if __name__ == "__main__":
    for f in sys.argv[1:]:
        exec(compile(open(f).read(), f, "exec"), dict(bug=bug))
    print(" ".join(BUGS))
