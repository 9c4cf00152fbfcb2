"""Proof texts in every written form, and what the program makes of them (judged by FormTrace.tla)."""
import os, re
from . import gen, mm, proofcases as pc


def holes(rng, node, rate):
    """Replace some subproofs by an unknown step."""
    if rng.random() < rate:
        return gen.Node("?", [], node.f)
    return gen.Node(node.lab, [holes(rng, k, rate) for k in node.kids], node.f)


def write_form(rng, node, db, label, how):
    """A proof text of the tree; the tokens of the text forms."""
    explicit = how.startswith("explicit")
    packed = how.endswith("packed")
    cnt = {}

    def key(n):
        return (n.lab,) + tuple(key(k) for k in n.kids)

    def count(n):
        if n.kids or n.lab in db.frames:
            k = key(n)
            cnt[k] = cnt.get(k, 0) + 1
            if cnt[k] > 1:
                return
        for c in n.kids:
            count(c)
    count(node)
    share = rng.choice([1, 1, .5]) if packed else 0
    names, out, nxt = {}, [], [0]
    style = rng.choice(["%d", "q%d", "Z.%d", "%d-x"])
    perm = explicit and rng.random() < .6

    def ref(tgt, lab, loc=None):
        if loc:
            out.extend([loc, ":"])
        if explicit:
            out.extend([tgt, "="])
        out.append(lab)

    def walk(n, tgt):
        k = key(n)
        if k in names:
            return ref(tgt, names[k])
        hyps = [h["l"] for h in db.frames[n.lab]["hyps"]] if n.lab in db.frames else []
        order = list(range(len(n.kids)))
        if perm:
            rng.shuffle(order)
        for i in order:
            walk(n.kids[i], hyps[i])
        if n.lab in db.frames and "?" not in str(k) and cnt.get(k, 0) > 1 and rng.random() < share and k not in names:
            while True:
                nxt[0] += 1
                nm = style % nxt[0]
                if nm not in db.used and nm not in db.consts and nm not in db.vtype:
                    break
            names[k] = nm
            return ref(tgt, n.lab, nm)
        ref(tgt, n.lab)
    walk(node, label)
    return out


def glue(rng, toks):
    """Text of a token list: ':' and '=' may touch their neighbours or not."""
    out = ""
    for i, t in enumerate(toks):
        tight = t in ":=" or (i and toks[i - 1] in ":=")
        if i and not (tight and rng.random() < .8):
            out += rng.choice([" ", " ", " ", "\n  "])
        out += t
    return out


def spoil(rng, pf, labels):
    """Damage a proof text so that (mostly) it stops being a proof."""
    if pf["f"] == "c":
        ls, cs = list(pf["ls"]), list(pf["cs"])
        for _ in range(rng.choice([1, 1, 2])):
            r = rng.random()
            i = rng.randrange(len(cs)) if cs else 0
            if r < .3 and cs:
                cs[i] = rng.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
            elif r < .5:
                cs.insert(i, rng.choice("ABCDEFGHIJKLMNOPQRST"))
            elif r < .65 and len(cs) > 1:
                del cs[i]
            elif r < .8 and ls:
                del ls[rng.randrange(len(ls))]
            elif r < .9 and ls:
                ls[rng.randrange(len(ls))] = rng.choice(["zz9"] + labels)
            else:
                cs += [rng.choice("UV"), rng.choice("ABCDEF")]
        return {"f": "c", "ls": ls, "cs": cs}
    s = list(pf["s"])
    for _ in range(rng.choice([1, 1, 2])):
        r = rng.random()
        at = [i for i, t in enumerate(s) if t not in ":="]
        i = rng.choice(at)
        if r < .25 and len(s) > 3:
            del s[i]
        elif r < .5:
            s[i] = rng.choice(["zz9"] + labels)
        elif r < .75:
            s.insert(i, rng.choice(labels))
        elif r < .85:
            s[i] = s[rng.choice(at)]
        else:
            s.append(rng.choice(labels))
    return {"f": "t", "s": s}


def parse_text(txt):
    """Proof text -> pf record (tokens or labels+letters)."""
    t = txt.split()
    if t and t[0] == "(":
        if ")" not in t:
            return {"f": "c", "ls": t[1:], "cs": ["!"]}
        i = t.index(")")
        return {"f": "c", "ls": t[1:i], "cs": list("".join(t[i + 1:]))}
    return {"f": "t", "s": re.sub(r"([:=])", r" \1 ", txt).split()}


def render_stmt(s):
    if s["k"] == "p" and "_text" in s:
        return s["l"] + " $p " + " ".join(s["m"]) + " $= " + s["_text"] + " $."
    return gen.render_stmt(s)


def render(stmts):
    return "\n".join(render_stmt(s) for s in stmts) + "\n"


CLIP = re.compile(r'Proof of "([^"]+)":\n-+Clip out the proof below this line to put it in the source file:\n(.*?)\n-+The proof of "[^"]+" \((\d+) bytes\) ends above this line\.', re.S)


def shown(out):
    m = CLIP.search(out)
    if not m:
        return None
    t = m.group(2).split()
    if not t or t[-1] != "$.":
        return None
    return parse_text(" ".join(t[:-1]))


PROOF = re.compile(r"(\S+)\s+\$p\s+(.*?)\s+\$=\s+(.*?)\s+\$\.", re.S)


def proofs_of_source(text):
    """label -> (statement symbols, pf) of a source without comments in its proofs."""
    text = re.sub(r"\$\(.*?\$\)", " ", text, flags=re.S)
    return {m.group(1): (m.group(2).split(), parse_text(m.group(3))) for m in PROOF.finditer(text)}
