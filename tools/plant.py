"""plant.py ID [--keep]: confirm the planted bug /verif/seeded/ID on /repo and run its property's check.

Applies the patch to /repo, builds, runs the stable tests and the demonstration, runs the check, and undoes it."""
import json, os, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, errors="replace", **kw)


def tests_ok():
    r = sh("bash /opt/vp/test.sh /tmp/plant-out.json")
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = base["stable"]
    got = json.load(open("/tmp/plant-out.json"))
    have = set(got.get("passed", got))
    want = set(want if isinstance(want, list) else want.get("passed", want))
    return sorted(want - have)


def demo(d):
    return sh("timeout 300 bash %s/demo.sh" % d, cwd="/repo").returncode


def one(bid, checks=True):
    d = os.path.join(ROOT, "seeded", bid)
    meta = json.load(open(d + "/meta.json"))
    res = {"id": bid, "property": meta["property"]}
    assert not sh("git -C /repo status --porcelain --untracked-files=no").stdout.strip()
    sh("bash /opt/vp/build.sh")
    res["demo_clean"] = demo(d)
    a = sh("git -C /repo apply %s/patch.diff" % d)
    if a.returncode:
        res["apply"] = a.stderr
        return res
    try:
        b = sh("bash /opt/vp/build.sh")
        res["build"] = b.returncode
        if b.returncode:
            res["err"] = b.stderr[-600:]
            return res
        res["tests_lost"] = tests_ok()
        res["demo_bug"] = demo(d)
        if checks:
            ps = [meta["property"]] if checks is True else checks
            res["checks"] = {}
            for p in ps:
                r = sh("VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 checks/%s.py" % p, cwd=ROOT)
                res["checks"][p] = r.returncode
                res.setdefault("first", {})[p] = r.stdout.strip().split("\n")[0][:200]
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
    return res


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    allc = [a[2:] for a in sys.argv[1:] if a.startswith("--P") ] or [a[2:] for a in sys.argv[1:] if a.startswith("--p")]
    chk = [a[2:] for a in sys.argv[1:] if a.startswith("--P")]
    for b in ids or sorted(os.listdir(ROOT + "/seeded")):
        print(json.dumps(one(b, chk or True)), flush=True)
