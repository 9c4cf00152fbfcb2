"""Building the real program from /repo's working tree and driving it."""
import glob, os, re, shutil, signal, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("MM_REPO", "/repo")


class NoAnswer(Exception):
    """The check could not run (not a verdict)."""


_scratch = []


def scratch(prefix="mmv-"):
    d = tempfile.mkdtemp(prefix=prefix)
    _scratch.append(d)
    return d


def cleanup():
    for d in _scratch:
        shutil.rmtree(d, ignore_errors=True)
    _scratch.clear()


def build(extra=(), opt="-O1"):
    """Compile every C source of /repo/src into a scratch directory."""
    out = scratch("mmbuild-")
    srcs = sorted(glob.glob(os.path.join(REPO, "src", "*.c")))
    if not srcs:
        raise NoAnswer("no sources")

    def cc(s):
        o = os.path.join(out, os.path.basename(s)[:-2] + ".o")
        r = subprocess.run(["gcc", opt, "-w", *extra, "-I", os.path.join(REPO, "src"), "-c", s, "-o", o],
                           capture_output=True, text=True)
        return o, r

    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(cc, srcs))
    for o, r in res:
        if r.returncode:
            raise NoAnswer("compile failed: " + r.stderr[-2000:])
    exe = os.path.join(out, "metamath")
    r = subprocess.run(["gcc", *extra, "-o", exe] + [o for o, _ in res] + ["-lm"], capture_output=True, text=True)
    if r.returncode:
        raise NoAnswer("link failed: " + r.stderr[-2000:])
    return exe


PROMPT = re.compile(r"(?m)(?:^|(?<=MM> )|(?<=MM-PA> )|(?<=TOOLS> ))(MM> |MM-PA> |TOOLS> )")


class Run:
    """Result of one session: rc, text, chunks = [(prompt, output)], one per prompt shown."""

    def __init__(self, rc, text):
        self.rc = rc
        self.text = text
        parts = PROMPT.split(text)
        self.banner = parts[0]
        self.chunks = [(parts[i].strip(), parts[i + 1]) for i in range(1, len(parts) - 1, 2)]

    @property
    def crashed(self):
        return self.rc not in (0,)

    def out(self, i):
        return self.chunks[i][1]


def run(exe, cmds, cwd, timeout=120, env=None, args=()):
    """Feed commands on stdin. rc: exit status, negative = signal, -99 = timeout."""
    data = cmds if isinstance(cmds, str) else "\n".join(cmds) + "\n"
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.Popen([exe, *args], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         cwd=cwd, env=e, start_new_session=True)
    try:
        o, _ = p.communicate(data.encode("latin-1"), timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, _ = p.communicate()
        rc = -99
    return Run(rc, o.decode("latin-1"))


PRE = ["set scroll continuous", "set width 9999"]


def session(exe, cmds, cwd, **kw):
    """Like run(), but with continuous scrolling and wide lines; the two set-up chunks are dropped."""
    r = run(exe, PRE + list(cmds), cwd, **kw)
    r.chunks = r.chunks[len(PRE):]
    return r


def pmap(f, xs, n=8):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, xs))
