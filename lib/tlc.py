"""Running TLC and reading its reports."""
import json, os, re, shutil, subprocess, time
from . import mm

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Result:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        m = re.findall(r"Finished computing initial states: ([\d,]+)", out)
        self.inits = int(m[-1].replace(",", "")) if m else 0
        self.finished = "Model checking completed" in out
        self.violated = re.findall(r"Invariant (\S+) is violated|property (\S+) (?:is|was) violated", out)

    def reports(self):
        """The tuples printed with PrintT, as lists of parsed TLA+ values."""
        return parse_reports(self.out)


def run(module, env=None, cfg=None, workers=8, args=(), timeout=800, heap="6g"):
    """Run TLC on spec/<module>.tla in a scratch metadir."""
    meta = mm.scratch("tlcmeta-")
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ["java", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + meta, "-Xmx" + heap, "-Xss64m", "-cp", CP, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
           "-workers", str(workers), "-config", cfg or module + ".cfg", *args, module + ".tla"]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
        rc, out = p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as x:
        rc, out = -99, (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
    shutil.rmtree(meta, ignore_errors=True)
    r = Result(rc, out, time.time() - t)
    r.cmd = " ".join(cmd)
    return r


def parse_reports(out):
    """Reports are printed as PrintT("@@" \\o ToJson(value)): one line each."""
    res = []
    for l in out.split("\n"):
        if l.startswith('"@@'):
            res.append(json.loads(json.loads('"' + l.strip()[3:])))
    return res
