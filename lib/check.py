"""What every check shares: seeds, tiers, verdicts, replay files, evidence."""
import json, os, random, sys, time, traceback
from . import mm, tlc

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        for a in sys.argv[1:]:
            if a in ("quick", "thorough"):
                self.tier = a
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random(self.seed * 1000003 + hash_str(pid))
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []     # (description, replay dict)
        self.known = []
        self.findings = load_findings(pid)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def scale(self, quick, thorough):
        n = thorough if self.thorough else quick
        x = float(os.environ.get("MM_SCALE", "1"))  # smaller runs while developing
        return n if x == 1 else max(1, int(n * x))

    def add_tlc(self, r, name=None):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated - r.inits
        if name:
            self.cov.setdefault("runs", {})[name] = {"distinct": r.distinct, "generated": r.generated,
                                                     "wall_s": round(r.wall, 1)}

    def traces(self, n):
        self.cov["traces_validated_against_impl"] += n

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, x, limit=6):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(x)

    def violation(self, what, replay):
        for f in self.findings:
            if f["match"](what, replay):
                if f["what"] not in self.known:
                    self.known.append(f["what"])
                return
        self.violations.append((what, replay))

    def finish(self):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        if not ev["assumptions"]:
            del ev["assumptions"]
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        import glob
        for f in glob.glob(os.path.join(ROOT, "evidence", "replay", self.pid + "-*.json")):
            os.remove(f)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        if self.violations:
            rd = os.path.join(ROOT, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            for n, (what, replay) in enumerate(self.violations[:5]):
                p = os.path.join(rd, "%s-%d.json" % (self.pid, n))
                with open(p, "w") as f:
                    json.dump({"property": self.pid, "what": what, "seed": self.seed, "replay": replay}, f, indent=1)
                print("  " + what)
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
            print("%s: %d violation(s) in %.1fs" % (self.pid, len(self.violations), time.time() - self.t0))
            return 1
        print("%s: held on everything explored (%d model states, %d traces) in %.1fs" % (
            self.pid, self.cov["states"], self.cov["traces_validated_against_impl"], time.time() - self.t0))
        return 0


def hash_str(s):
    h = 0
    for c in s:
        h = (h * 131 + ord(c)) % (1 << 30)
    return h


def load_findings(pid):
    """known-findings.json: [{"property", "what", "contains": [substrings of the description]}]."""
    p = os.path.join(ROOT, "known-findings.json")
    out = []
    if os.path.exists(p):
        for e in json.load(open(p)).get("findings", []):
            if e["property"] == pid:
                subs = e["contains"]
                out.append({"what": e["what"], "match": (lambda w, r, subs=subs: all(s in w for s in subs))})
    return out


def main(pid, body, level="model_checking"):
    """Run a check body; exit 0, 1 (violation) or 2 (no answer)."""
    c = Check(pid, level)
    rc = 2
    try:
        body(c)
        rc = c.finish()
    except mm.NoAnswer as e:
        print("NO ANSWER: %s" % e)
    except Exception:
        traceback.print_exc()
    finally:
        mm.cleanup()
    sys.stdout.flush()
    os._exit(rc)


def validate(c, module, cases, key=None, timeout=800, workers=8, heap="6g", name=None, shards=1):
    """Write the recorded cases, let TLC judge them; return the reports.

    A report is <<"ACCEPT"|"REJECT", case index, ...>>.  Anything else than a completed
    TLC run is no answer."""
    d = mm.scratch("trace-")
    p = os.path.join(d, "trace.ndjson")
    with open(p, "w") as f:
        for x in cases:
            f.write(json.dumps(x) + "\n")
    r = tlc.run(module, env={"TRACE_FILE": p}, timeout=timeout, workers=workers, heap=heap)
    if not r.finished or r.rc != 0:
        raise mm.NoAnswer("TLC on %s failed (rc %s):\n%s" % (module, r.rc, r.out[-3000:]))
    c.add_tlc(r, name or module)
    return [x for x in r.reports() if x and x[0] in ("ACCEPT", "REJECT")]


def model_check(c, module, cfg=None, timeout=800, args=(), env=None, workers=8, expect=None, heap="6g"):
    """Exhaustive run of a design-level configuration; a failure there is an error of the check."""
    r = tlc.run(module, cfg=cfg, timeout=timeout, args=args, env=env, workers=workers, heap=heap)
    if not r.finished or r.rc != 0:
        raise mm.NoAnswer("TLC on %s/%s failed (rc %s):\n%s" % (module, cfg, r.rc, r.out[-3000:]))
    c.add_tlc(r, (cfg or module).replace(".cfg", ""))
    return r
