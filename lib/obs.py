"""Reading the program's answers."""
import re

ERR = re.compile(r'\?Error (?:on line \d+ of file "[^"]*" )?at\s+statement \d+, label "([^"]+)", type "\$p"')


def verify_verdicts(text, labels):
    """label -> ok | incomplete | error, from the output of VERIFY PROOF (wide lines)."""
    bad = set(ERR.findall(text))
    inc = set()
    m = re.search(r"Warning: The following \$p statement\(s\) were not proved:\s+([^\n]*(?:\n[^\n]+)*)", text)
    if m:
        inc = set(x.strip() for x in re.split(r"[,\s]+", m.group(1)) if x.strip())
    return {l: "error" if l in bad else "incomplete" if l in inc else "ok" for l in labels}


def read_ok(text):
    return "No errors were found" in text


STMT = re.compile(r"^(\d+) (\S+) \$([efap]) (.*?) \$(?:=|\.)")


def _pairs(s):
    out = []
    for p in re.findall(r"<([^<>,]+),([^<>,]+)>", s):
        out.append(list(p))
    return out


def show_full(text):
    """SHOW STATEMENT * / FULL -> list of {k,l,m} with, for $a and $p, the frame."""
    out = []
    cur = None
    mode = None
    for l in text.split("\n"):
        m = STMT.match(l)
        if m and not l.startswith("  "):
            cur = {"k": m.group(3), "l": m.group(2), "m": m.group(4).split()}
            if cur["k"] in "ap":
                cur.update(hyps=[], dv=[], opt=[], odv=[], vars=[], add=[])
            out.append(cur)
            mode = None
            continue
        if cur is None:
            continue
        if l.startswith("Its mandatory hypotheses in RPN order are:"):
            mode = "hyps"
            continue
        h = re.match(r"^  (\S+) \$([ef]) (.*) \$\.$", l)
        if mode == "hyps" and h:
            cur["hyps"].append({"k": h.group(2), "l": h.group(1), "m": h.group(3).split()})
            continue
        for key, head in (("dv", "Its mandatory disjoint variable pairs are:"), ("odv", "Its optional disjoint variable pairs are:"),
                          ("opt", "Its optional hypotheses are:"),
                          ("vars", "The statement and its hypotheses require the variables:"),
                          ("add", "These additional variables are allowed in its proof:")):
            if l.startswith(head):
                mode = None
                rest = l[len(head):].strip()
                if rest == "(None)":
                    cur[key] = []
                elif key in ("dv", "odv"):
                    cur[key] = _pairs(rest)
                else:
                    cur[key] = rest.split()
    return out
