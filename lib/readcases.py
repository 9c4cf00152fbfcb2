"""Sources for READ: random well-formed text, edits of it, comments and inclusions."""
import os, string
from . import gen, mm, obs

SAFE = ["x", "y", "z", "w", "A", "B", "ph", "ps", "v1", "v2", "t'", "S*"]
CON = ["|-", "wff", "set", "(", ")", "->", "=", "+", "0", ".", "a-b", "_"]


def frames_db(rng, n=30, p_plain=1.0):
    """Random well-formed statements in nested scopes; proofs are unknown."""
    st = []
    con = rng.sample(CON, rng.randint(2, len(CON)))
    used = set()
    scopes = []            # saved (vars, hyps)
    vs, hyps = [], []      # active variables; active hyps (k, m)
    var_ever = set()
    cnt = [0]

    def lab():
        while True:
            cnt[0] += 1
            l = rng.choice(["", "l", "ax-", "T.", "_", "9"]) + str(cnt[0]) if rng.random() < .6 else \
                "".join(rng.choice(string.ascii_letters + string.digits + "-_.") for _ in range(rng.randint(1, 6)))
            if l not in used and l not in con and l not in SAFE:
                used.add(l)
                return l

    split = rng.random() < .4
    if split and len(con) > 2:
        st.append({"k": "c", "l": "", "m": con[:2]})
        late = con[2:]
        con_now = con[:2]
    else:
        st.append({"k": "c", "l": "", "m": con})
        late, con_now = [], list(con)
    while len(st) < n:
        c = rng.random()
        if c < .14 and len(scopes) < 5:
            st.append({"k": "{", "l": "", "m": []})
            scopes.append((list(vs), list(hyps)))
        elif c < .24 and scopes:
            st.append({"k": "}", "l": "", "m": []})
            vs, hyps = scopes.pop()
        elif c < .36:
            free = [v for v in SAFE if v not in vs and v not in con]
            if free:
                new = rng.sample(free, rng.randint(1, min(3, len(free))))
                st.append({"k": "v", "l": "", "m": new})
                vs = vs + new
                var_ever |= set(new)
        elif c < .56 and vs:
            have = {h[1][1] for h in hyps if h[0] == "f"}
            free = [v for v in vs if v not in have]
            if free:
                v = rng.choice(free)
                m = [rng.choice(con_now), v]
                st.append({"k": "f", "l": lab(), "m": m})
                hyps = hyps + [("f", m)]
        elif c < .66 and len(vs) > 1:
            st.append({"k": "d", "l": "", "m": rng.sample(vs, rng.randint(2, min(5, len(vs))))})
        elif c < .76:
            cov = vs if rng.random() < .03 else [v for v in vs if any(h[0] == "f" and v == h[1][1] for h in hyps)]
            m = [rng.choice(con_now)] + [rng.choice(con_now + cov + cov) for _ in range(rng.randint(0, 4))]
            st.append({"k": "e", "l": lab(), "m": m})
            hyps = hyps + [("e", m)]
        elif c < .8 and late and not scopes:
            st.append({"k": "c", "l": "", "m": late})
            con_now += late
            late = []
        else:
            cov = [v for v in vs if any(h[0] == "f" and v == h[1][1] for h in hyps)]
            ev = {x for h in hyps if h[0] == "e" for x in h[1]} & set(vs)
            for v in ev - set(cov):
                fm = [rng.choice(con_now), v]
                st.append({"k": "f", "l": lab(), "m": fm})
                hyps = hyps + [("f", fm)]
                cov.append(v)
            m = [rng.choice(con_now)] + [rng.choice(con_now + cov + cov) for _ in range(rng.randint(0, 6))]
            if rng.random() < .5:
                st.append({"k": "a", "l": lab(), "m": m})
            else:
                st.append({"k": "p", "l": lab(), "m": m, "pf": {"f": "n", "s": ["?"]}})
    while scopes:
        st.append({"k": "}", "l": "", "m": []})
        scopes.pop()
    return st


def tokens(st):
    return " ".join(gen.render_stmt(s) for s in st).split()


KWS = ["$c", "$v", "$d", "$f", "$e", "$a", "$p", "${", "$}", "$.", "$="]


def edit_tokens(rng, toks):
    """A few token-level edits."""
    t = list(toks)
    for _ in range(rng.choice([1, 1, 1, 2])):
        i = rng.randrange(len(t))
        k = rng.randrange(8)
        if k == 0:
            del t[i]
        elif k == 1:
            t.insert(i, rng.choice(t))
        elif k == 2:
            j = rng.randrange(len(t))
            t[i], t[j] = t[j], t[i]
        elif k == 3:
            t[i] = rng.choice(t)
        elif k == 4:
            t.insert(i, rng.choice(KWS))
        elif k == 5:
            kw = [j for j, x in enumerate(t) if x in KWS]
            if kw:
                t[rng.choice(kw)] = rng.choice(KWS)
        elif k == 6:
            j = min(len(t), i + rng.randint(1, 6))
            seg = t[i:j]
            del t[i:j]
            p = rng.randrange(len(t) + 1)
            t[p:p] = seg
        else:
            t = t[:i] if rng.random() < .3 else t[:i] + t[i + 1:]
        if not t:
            t = ["$c", "a", "$."]
    return t


def edit_symbols(rng, st):
    """Edits inside statements, aimed at the rules on symbols, labels and scopes."""
    st = [dict(s, m=list(s["m"])) for s in st]
    for _ in range(rng.choice([1, 1, 2])):
        i = rng.randrange(len(st))
        s = st[i]
        k = rng.randrange(9)
        pool = SAFE + CON + ["new", "$"]
        if k == 0 and s["m"]:
            s["m"][rng.randrange(len(s["m"]))] = rng.choice(pool[:-1])
        elif k == 1 and s["m"]:
            del s["m"][rng.randrange(len(s["m"]))]
        elif k == 2:
            if s["k"] not in "{}":
                s["m"].insert(rng.randint(0, len(s["m"])), rng.choice(pool[:-1]))
        elif k == 3:
            labs = [x["l"] for x in st if x["l"]] + SAFE + CON
            if s["l"]:
                s["l"] = rng.choice(labs)
        elif k == 4 and s["l"]:
            s["l"] = s["l"] + rng.choice(["*", "/", "~", "'", "a", ".", "-", "_", "(", "?", ":", "="])
        elif k == 5:
            j = rng.randrange(len(st))
            st[i], st[j] = st[j], st[i]
        elif k == 6:
            st.insert(rng.randrange(len(st) + 1), dict(s, m=list(s["m"])))
        elif k == 7:
            del st[i]
            if not st:
                st.append({"k": "c", "l": "", "m": ["a"]})
        else:
            if s["k"] in "fea":
                s["k"] = rng.choice("fea")
            elif s["k"] in "cv":
                s["k"] = "v" if s["k"] == "c" else "c"
    return st


def lay_out(rng, toks, chars=False):
    """Tokens to text with random white space; optionally a character-level edit."""
    out = []
    for x in toks:
        out.append(x)
        out.append(rng.choice([" ", " ", " ", "\n", "  ", "\t", "\n\n", " \f" if rng.random() < .1 else " "]))
    s = "".join(out)
    if chars:
        i = rng.randrange(len(s))
        k = rng.randrange(5)
        if k == 0:
            s = s[:i] + s[i + 1:]
        elif k == 1:
            s = s[:i] + rng.choice("$ \n().[]!x\x01{}=~") + s[i:]
        elif k == 2:
            w = [j for j, ch in enumerate(s) if ch.isspace()]
            j = rng.choice(w)
            s = s[:j] + s[j + 1:]
        elif k == 3:
            w = [j for j, ch in enumerate(s) if ch == "$"]
            if w:
                j = rng.choice(w)
                s = s[:j + 1] + rng.choice("$.=(){}[]cvfeapdx ") + s[j + 2:]
        else:
            s = s[:i] + rng.choice(["$( c $)", " $( c $) ", " $( a $( b $) ", " $) ", " $( ", " $( x$) ", " $$ ", " $1 "]) + s[i:]
    return s


COMMENTS = ["$( $)", "$( a comment $)", "$( $c not read $. $)", "$( two\nlines $)", "$( with $ alone and $. $= $p ${ $)", "$( ~ l `x` $)",
            "$( $[ no.mm $] $)", "$(\n$)", "$( $$ $)", "$( \"quoted\" $)", "$( $a $) $( $) $( b $)"]


def comment_in(rng, toks, n):
    t = list(toks)
    for _ in range(n):
        t.insert(rng.randint(0, len(t)), rng.choice(COMMENTS))
    return t


def split_files(rng, toks, depth=0, names=None):
    """Distribute a token stream over included files: returns {name: token list}, main name."""
    files = {}
    cnt = [0]
    odd = rng.sample(["f", "f1", "f1.", "f1.mm", "f1.mmx", "1.mm", "main.m", "main.mm2", "n"], 9) if rng.random() < .25 else []

    def go(ts, d):
        ts = list(ts)
        k = rng.randint(0, 3) if d < 4 and len(ts) > 3 else 0
        for _ in range(k):
            if len(ts) < 4:
                break
            i = rng.randrange(len(ts))
            j = min(len(ts), i + rng.choice([1, 5, 20, 60, 200]))
            if any(x in ("$[", "$]") for x in ts[i:j]) or any(x == "$[" for x in ts[max(0, i - 2):i]):
                continue
            cnt[0] += 1
            nm = odd[cnt[0]] if cnt[0] < len(odd) else "g%d.mm" % cnt[0] if odd else "f%d.mm" % cnt[0]
            sub = go(ts[i:j], d + 1)
            files[nm] = sub
            inc = ["$[", nm, "$]"] if rng.random() < .85 else ["$[", "$( c $)", nm, "$( d $)", "$]"]
            ts[i:j] = inc
        return ts

    main = go(toks, 0)
    files["main.mm"] = main
    # repeated inclusions (ignored by the language)
    names = [n for n in files if n != "main.mm"]
    if names:
        for _ in range(rng.choice([0, 1, 2, 3])):
            f = rng.choice(list(files))
            n = rng.choice(names + (["main.mm"] if rng.random() < .5 else []))
            ts = files[f]
            spots = [i for i in range(len(ts) + 1) if "$[" not in ts[max(0, i - 4):i] or ts[i - 1:i] == ["$]"]]
            p = rng.choice(spots) if spots else len(ts)
            ts[p:p] = ["$[", n, "$]"]
    return files


def as_lines(s):
    return [list(l) for l in s.split("\n")]


def case(files, main="main.mm"):
    """files: name -> text.  A case without observation."""
    return {"files": [{"name": n, "lines": as_lines(t)} for n, t in sorted(files.items())], "main": main, "_text": files}


def run_reads(exe, cases, extra=(), per=12):
    """READ every case in a session with others; returns [(ok, output, [extra outputs], rc)]."""
    groups = [list(range(i, min(len(cases), i + per))) for i in range(0, len(cases), per)]

    def one(g):
        d = mm.scratch("rd-")
        cmds = []
        for n in g:
            sub = os.path.join(d, "c%d" % n)
            os.mkdir(sub)
            for f, t in cases[n]["_text"].items():
                with open(os.path.join(sub, f), "w", newline="", encoding="latin-1") as h:
                    h.write(t)
            cmds += ['set root_directory "c%d"' % n, 'read "%s"' % cases[n]["main"], *extra, "erase"]
        r = mm.session(exe, cmds + ["exit"], d, timeout=200)
        import shutil
        shutil.rmtree(d, ignore_errors=True)
        return r

    res = [None] * len(cases)
    for g, r in zip(groups, mm.pmap(one, groups)):
        k = 0
        for n in g:
            if len(r.chunks) < k + 2 + len(extra):
                # the program warns that a false internal check may follow reported errors
                res[n] = (None, r.text[-800:], [], r.rc)
                if len(g) == 1 and "?Error" in r.text.split("?BUG CHECK")[0] and "?BUG CHECK" in r.text:
                    res[n] = (False, r.text[-800:], [], r.rc)
                k = 10 ** 9
                continue
            if '"c%d' % n not in r.out(k):      # out of step after an earlier failure
                res[n] = (None, r.text[-800:], [], r.rc)
                k = 10 ** 9
                continue
            o = r.out(k + 1)
            if "?BUG CHECK" in o and "?Error" not in o.split("?BUG CHECK")[0]:
                res[n] = (None, o[-800:], [], r.rc)
                continue
            ok = obs.read_ok(o)
            ex = [r.out(k + 2 + i) for i in range(len(extra))]
            res[n] = (ok, o, ex, r.rc)
            k += 3 + len(extra)
        if len(g) > 1:
            for n in g:
                if res[n][0] is None:   # find out alone
                    res[n] = run_reads(exe, [cases[n]], extra, per=1)[0]
    return res
