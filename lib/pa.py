"""Driving the Proof Assistant interactively: one command at a time, answers read back."""
import os, re, select, signal, subprocess, time

from . import mm

PROMPTS = re.compile(
    rb"(?:^|\n|MM> |MM-PA> |TOOLS> )(MM> |MM-PA> |TOOLS> )$|(\(Y, N\) <N>\? |or quit \(Q\) <A>\? |[Ss]tep [^\n]*\? |<[^\n<>]*>\? )$")


class Dead(Exception):
    """The program ended or stopped answering when it should not have."""


class Pa:
    def __init__(self, exe, cwd, timeout=60, args=(), env=None):
        e = dict(os.environ)
        if env:
            e.update(env)
        self.p = subprocess.Popen([exe, *args], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                  cwd=cwd, env=e, start_new_session=True)
        self.timeout = timeout
        self.log = []
        self.prompt = None
        self.read()

    def read(self):
        buf = b""
        end = time.time() + self.timeout
        fd = self.p.stdout.fileno()
        while True:
            r, _, _ = select.select([fd], [], [], max(0.0, end - time.time()))
            if not r:
                self.kill()
                raise Dead("no answer within %d s; last output: %r" % (self.timeout, buf[-300:]))
            x = os.read(fd, 65536)
            if not x:
                self.p.wait()
                self.rc = self.p.returncode
                self.prompt = None
                self.out = buf.decode("latin-1")
                return self.out
            buf += x
            if b"or A <return> to abort program:" in buf[-200:]:
                self.kill()
                raise Dead("internal error: " + buf.decode("latin-1")[-900:][:300])
            m = PROMPTS.search(buf[-400:])
            if m:
                self.prompt = (m.group(1) or m.group(2)).decode("latin-1").strip()
                self.out = buf[:len(buf) - len(m.group(1) or m.group(2))].decode("latin-1")
                if "?BUG CHECK" in self.out:
                    self.kill()
                    raise Dead("internal error: " + self.out[self.out.index("?BUG"):][:300])
                return self.out

    def cmd(self, line):
        """Send one line; return the output up to the next prompt."""
        self.log.append(line)
        try:
            self.p.stdin.write((line + "\n").encode("latin-1"))
            self.p.stdin.flush()
        except BrokenPipeError:
            self.p.wait()
            raise Dead("the program had ended (status %s)" % self.p.returncode)
        out = self.read()
        if self.prompt is None and self.rc != 0:
            raise Dead("the program ended with status %s after %r: %s" % (self.rc, line, out[-300:]))
        return out

    @property
    def over(self):
        return self.prompt is None

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()

    def close(self):
        """End the session without caring about what it says."""
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(10)
        except subprocess.TimeoutExpired:
            self.kill()
        self.p.stdout.close()


LINE = re.compile(r"^ *(\d+) (?:-?\d+)? *(\S+?)(?:=(\S+))? +\$([aepf?]) (.*)$")
SRC = re.compile(r"^ +=(\S+) +  = (.*)$|^ +=(\S+)  = (.*)$")


def listing(text):
    """SHOW NEW_PROOF /ALL with wide lines: one record per step."""
    nodes = []
    for l in text.split("\n"):
        if not l.strip():
            continue
        m = LINE.match(l)
        if m:
            n, hyp, lab, typ, f = m.groups()
            if int(n) != len(nodes) + 1:
                raise ValueError("step numbers: " + l)
            nodes.append({"h": hyp, "l": lab or "", "k": typ, "t": f.split(), "s": None, "u": []})
            continue
        m = SRC.match(l)
        if m and nodes:
            lab = m.group(1) or m.group(3)
            f = (m.group(2) if m.group(1) else m.group(4)).split()
            if lab == "(User)":
                nodes[-1]["u"] = f
            elif not nodes[-1]["l"]:
                nodes[-1]["l"] = lab
                nodes[-1]["s"] = f
            else:
                raise ValueError("line: " + l)
            continue
        raise ValueError("line: " + l)
    for n in nodes:
        if not n["l"]:
            raise ValueError("step without a label")
        if n["s"] is None:
            n["s"] = [] if n["l"] == "?" else list(n["t"])
    return nodes
