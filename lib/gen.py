"""Random Metamath databases with (mostly) valid proofs.

The generator only proposes inputs; what is right or wrong about them is decided by the
TLA+ specification."""
import string, sys

sys.setrecursionlimit(20000)

CONST_POOL = ["(", ")", "->", "-.", "=", "+", "e.", "A.", "0", "1", "[", "]", "/\\", "\\/", ",", "|", "suc", "!", "<", "&"]


class Node:
    __slots__ = ("lab", "kids", "f")

    def __init__(self, lab, kids, f):
        self.lab, self.kids, self.f = lab, kids, f

    def rpn(self):
        out = []
        st = [(self, 0)]
        while st:
            n, i = st.pop()
            if i < len(n.kids):
                st.append((n, i + 1))
                st.append((n.kids[i], 0))
            else:
                out.append(n.lab)
        return out

    def size(self):
        return 1 + sum(k.size() for k in self.kids)


def subst(m, s):
    out = []
    for x in m:
        if x in s:
            out.extend(s[x])
        else:
            out.append(x)
    return out


def match(p, m, s, isvar, budget=None):
    """First-solution matcher used only to propose steps."""
    budget = [2000] if budget is None else budget
    budget[0] -= 1
    if budget[0] < 0:
        return None
    if not p:
        return s if not m else None
    h = p[0]
    if not isvar(h):
        return match(p[1:], m[1:], s, isvar, budget) if m and m[0] == h else None
    if h in s:
        n = len(s[h])
        return match(p[1:], m[n:], s, isvar, budget) if m[:n] == s[h] else None
    if len(p) == 1:
        return {**s, h: m}
    for n in range(0, len(m) + 1):
        r = match(p[1:], m[n:], {**s, h: m[:n]}, isvar, budget)
        if r is not None:
            return r
    return None


class Db:
    def __init__(self, rng, nvars=3, tcs=("wff", "class"), nsyn=3, nax=4, empties=False, maxd=3):
        self.rng = rng
        self.stmts = []
        self.frames = {}
        self.order = []
        self.nlab = 0
        self.vtype = {}
        self.fhyp = {}
        self.active_hyps = []      # dicts k,l,m
        self.active_ds = set()
        self.scopes = []
        self.used = set()
        self.maxd = maxd
        self.tcs = list(tcs)
        self.consts = ["|-"] + self.tcs
        self.body = rng.sample(CONST_POOL, min(len(CONST_POOL), 4 + nsyn))
        self.consts += self.body
        self.emit("c", "", self.consts)
        for t in self.tcs:
            for i in range(nvars):
                v = self.newvar(t)
        self.syntax = {t: [] for t in self.tcs}
        for t in self.tcs:
            for _ in range(nsyn):
                self.add_syntax(t)
        if empties:
            l = self.label("emp")
            t = rng.choice(self.tcs)
            self.assertion("a", l, [t])
            self.syntax[t].append(l)
        for _ in range(nax):
            self.add_axiom()

    # --- emission and bookkeeping -------------------------------------------------
    def emit(self, k, l, m, **kw):
        s = {"k": k, "l": l, "m": list(m)}
        s.update(kw)
        self.stmts.append(s)
        return s

    def label(self, base=None):
        r = self.rng
        while True:
            self.nlab += 1
            if base is None:
                l = "".join(r.choice(string.ascii_letters + string.digits + "-_.") for _ in range(r.randint(1, 5)))
                l = l + str(self.nlab) if r.random() < .5 else l
            else:
                l = base + str(self.nlab)
            if l not in self.used and l not in self.consts and l not in self.vtype:
                self.used.add(l)
                return l

    def isvar(self, x):
        return x in self.vtype

    def newvar(self, t, name=None):
        r = self.rng
        while name is None:
            n = r.choice("xyzwvuABCDPQRST") + r.choice(["", "", "'", "1", "2"])
            if n not in self.vtype and n not in self.consts and n not in self.used:
                name = n
            elif r.random() < .2:
                n = "v%d" % r.randint(0, 999)
                if n not in self.vtype and n not in self.used:
                    name = n
        self.emit("v", "", [name])
        self.vtype[name] = t
        l = self.label("f" + t[0])
        self.emit("f", l, [t, name])
        self.fhyp[name] = l
        self.active_hyps.append({"k": "f", "l": l, "m": [t, name]})
        return name

    def hyp(self, m):
        l = self.label("h")
        self.emit("e", l, m)
        self.active_hyps.append({"k": "e", "l": l, "m": list(m)})
        return l

    def dvs(self, vs):
        self.emit("d", "", vs)
        for i in range(len(vs)):
            for j in range(i):
                self.active_ds.add(frozenset((vs[i], vs[j])))

    def open(self):
        self.emit("{", "", [])
        self.scopes.append((len(self.active_hyps), set(self.active_ds)))

    def close(self):
        self.emit("}", "", [])
        n, ds = self.scopes.pop()
        gone = self.active_hyps[n:]
        for h in gone:
            if h["k"] == "f":
                v = h["m"][1]
                if self.fhyp.get(v) == h["l"]:
                    del self.fhyp[v]
        del self.active_hyps[n:]
        self.active_ds = ds

    def avail(self, t=None):
        return [v for v in self.fhyp if t is None or self.vtype[v] == t]

    def frame(self, m):
        mv = {x for x in m if self.isvar(x)}
        for h in self.active_hyps:
            if h["k"] == "e":
                mv |= {x for x in h["m"] if self.isvar(x)}
        hy = [h for h in self.active_hyps if h["k"] == "e" or h["m"][1] in mv]
        return {"m": list(m), "hyps": hy, "vars": mv, "dv": [p for p in self.active_ds if p <= mv], "pos": len(self.order)}

    def assertion(self, k, l, m, **kw):
        f = self.frame(m)
        s = self.emit(k, l, m, **kw)
        f["k"] = k
        self.frames[l] = f
        self.order.append(l)
        return s

    # --- random pieces --------------------------------------------------------------
    def add_syntax(self, t):
        r = self.rng
        ar = r.choice([1, 1, 2, 2, 2, 3])
        vs = []
        for _ in range(ar):
            c = [v for v in self.avail(r.choice(self.tcs)) if v not in vs]
            if c:
                vs.append(r.choice(c))
        style = r.randrange(4)
        b = self.body
        if style == 0:
            m = [r.choice(b)] + vs
        elif style == 1:
            m = vs[:1] + [r.choice(b)] + vs[1:]
        elif style == 2:
            m = ["(" if "(" in b else b[0]] + vs[:1] + [r.choice(b)] + vs[1:] + [")" if ")" in b else b[1]]
        else:
            m = [r.choice(b)] + vs + [r.choice(b)]
        l = self.label("s")
        self.assertion("a", l, [t] + m)
        self.syntax[t].append(l)

    def expr(self, t, depth, vs=None):
        """Random expression of typecode t: (symbols, Node)."""
        r = self.rng
        vs = self.avail() if vs is None else vs
        cand = [v for v in vs if self.vtype[v] == t]
        if (depth <= 0 or r.random() < .35) and cand:
            v = r.choice(cand)
            return [v], Node(self.fhyp[v], [], [t, v])
        syn = self.syntax[t]
        if not syn:
            v = r.choice(cand)
            return [v], Node(self.fhyp[v], [], [t, v])
        if depth <= 0:
            # prefer leaves
            syn = [s for s in syn if not self.frames[s]["hyps"]] or syn
            if depth < -6:
                raise RecursionError
        s = r.choice(syn)
        f = self.frames[s]
        sub, kids = {}, []
        for h in f["hyps"]:
            e, n = self.expr(h["m"][0], depth - 1, vs)
            sub[h["m"][1]] = e
            kids.append(n)
        m = subst(f["m"], sub)
        return m[1:], Node(s, kids, m)

    def try_expr(self, t, depth, vs=None):
        for _ in range(20):
            try:
                return self.expr(t, depth, vs)
            except (RecursionError, IndexError):
                pass
        v = self.rng.choice(self.avail(t))
        return [v], Node(self.fhyp[v], [], [t, v])

    def add_axiom(self, label=None):
        r = self.rng
        scoped = r.random() < .6
        t = self.tcs[0]
        if scoped:
            self.open()
            pool = r.sample(self.avail(), min(len(self.avail()), r.randint(1, 4)))
            if r.random() < .7:
                if len(pool) >= 2 and r.random() < .7:
                    for _ in range(r.randint(1, 2)):
                        self.dvs(r.sample(pool, r.randint(2, min(len(pool), self.maxd))))
                for _ in range(r.choice([0, 1, 1, 2])):
                    self.hyp(["|-"] + self.try_expr(t, r.randint(0, 1), pool)[0])
            else:
                for _ in range(r.choice([1, 2])):
                    self.hyp(["|-"] + self.try_expr(t, 0)[0])
            m = self.try_expr(t, r.randint(0, 2), pool)[0]
        else:
            m = self.try_expr(t, r.randint(1, 2))[0]
        l = label or self.label("ax")
        self.assertion("a", l, ["|-"] + m)
        if scoped:
            self.close()
        return l

    # --- theorems ----------------------------------------------------------------------
    def apply(self, lab, pool, need):
        """Try to apply assertion lab to pool formulas; returns Node or None."""
        r = self.rng
        f = self.frames[lab]
        es = [h for h in f["hyps"] if h["k"] == "e"]
        sub = {}
        got = {}
        for h in es:
            c = list(pool)
            r.shuffle(c)
            for n in c[:8]:
                s2 = match(h["m"], n.f, sub, lambda x: x in f["vars"])
                if s2 is not None:
                    # every variable substituted must be provable: keep only if we can re-derive it
                    if all(v in sub or self.parse(self.vtype[v], s2[v]) is not None for v in s2):
                        sub = s2
                        got[h["l"]] = n
                        break
            else:
                return None
        kids = []
        for h in f["hyps"]:
            if h["k"] == "f":
                v = h["m"][1]
                if v in sub:
                    n = self.parse(self.vtype[v], sub[v])
                    if n is None:
                        return None
                    kids.append(n)
                else:
                    e, n = self.try_expr(h["m"][0], r.choice([0, 0, 1, 1, 2]))
                    sub[v] = e
                    kids.append(n)
            else:
                kids.append(got[h["l"]])
        for p in f["dv"]:
            a, b = tuple(p)
            va = {x for x in sub[a] if self.isvar(x)}
            vb = {x for x in sub[b] if self.isvar(x)}
            for x in va:
                for y in vb:
                    if x == y:
                        return None
                    need.add(frozenset((x, y)))
        return Node(lab, kids, subst(f["m"], sub))

    def parse(self, t, m, depth=0):
        """A syntax proof of (t, m), or None; memoised, bounded."""
        key = (t, tuple(m))
        memo = self.__dict__.setdefault("_memo", {})
        stamp = len(self.fhyp), len(self.order)
        if self.__dict__.get("_stamp") != stamp:
            memo.clear()
            self._stamp = stamp
        if key in memo:
            return memo[key]
        if depth == 0:
            self._budget = 3000
        self._budget -= 1
        memo[key] = None
        if depth > 12 or self._budget < 0:
            return None
        if len(m) == 1 and m[0] in self.fhyp and self.vtype[m[0]] == t:
            memo[key] = Node(self.fhyp[m[0]], [], [t] + list(m))
            return memo[key]
        for s in self.syntax[t]:
            f = self.frames[s]
            for sub in self.matches(f["m"][1:], list(m), {}, f["vars"]):
                kids = []
                for h in f["hyps"]:
                    n = self.parse(h["m"][0], sub[h["m"][1]], depth + 1)
                    if n is None:
                        break
                    kids.append(n)
                else:
                    memo[key] = Node(s, kids, [t] + list(m))
                    return memo[key]
        return None

    def matches(self, p, m, s, vs):
        self._budget -= 1
        if self._budget < 0:
            return
        if not p:
            if not m:
                yield s
            return
        h = p[0]
        if h not in vs:
            if m and m[0] == h:
                yield from self.matches(p[1:], m[1:], s, vs)
        elif h in s:
            n = len(s[h])
            if m[:n] == s[h]:
                yield from self.matches(p[1:], m[n:], s, vs)
        else:
            for n in (range(len(m), len(m) + 1) if len(p) == 1 else range(0, len(m) + 1)):
                yield from self.matches(p[1:], m[n:], {**s, h: m[:n]}, vs)

    def theorem(self, label=None, steps=10, keep=None, nhyps=None, dummy=True, maxlen=40, maxsize=120, drop_d=0.0, twin=0.0):
        """A theorem with a proof tree, inside its own scope.  Returns (stmt, Node) or None."""
        r = self.rng
        mark = len(self.stmts)
        saved = (list(self.active_hyps), set(self.active_ds), dict(self.fhyp), set(self.used), list(self.scopes))
        self.open()
        if dummy and r.random() < .4:
            self.newvar(r.choice(self.tcs))
        if nhyps is None:
            nhyps = r.choice([0, 0, 1, 2, 3])
        dpos = len(self.stmts)
        pool = []
        # hypotheses: instances of axioms' hypotheses, or random formulas
        for _ in range(nhyps):
            src = [h["m"] for l in self.order for h in self.frames[l]["hyps"] if h["k"] == "e"]
            if src and r.random() < .7:
                m = r.choice(src)
                sub = {x: self.try_expr(self.vtype[x], r.choice([0, 0, 1]))[0] for x in m if self.isvar(x)}
                m = subst(m, sub)
            else:
                m = ["|-"] + self.try_expr(self.tcs[0], r.randint(0, 2))[0]
            l = self.hyp(m)
            pool.append(Node(l, [], m))
        logical = [l for l in self.order if self.frames[l]["m"][0] == "|-"]
        need_of = {}
        for _ in range(steps):
            need = set()
            n = self.apply(r.choice(logical), pool, need)
            if n is None or len(n.f) > maxlen or n.size() > maxsize:
                continue
            if any(n.f == o.f for o in pool) and r.random() < .8:
                continue
            pool.append(n)
        cands = [n for n in pool if n.kids] or [n for n in pool if n.lab in self.frames] or pool
        if not cands:
            # undo
            del self.stmts[mark:]
            self.active_hyps, self.active_ds, self.fhyp, self.used, self.scopes = saved
            return None
        node = max(r.sample(cands, min(3, len(cands))), key=lambda n: n.size())
        need = self.dneeds(node)
        if any(len(p) < 2 for p in need):
            need = {p for p in need if len(p) == 2}
        need = sorted((sorted(p) for p in need))
        r.shuffle(need)
        inserted = []
        for p in need:
            if frozenset(p) in self.active_ds:
                continue
            if r.random() < drop_d:
                continue
            if r.random() < .5:
                p = p[::-1]
            inserted.append({"k": "d", "l": "", "m": list(p)})
            self.active_ds.add(frozenset(p))
        for d in inserted:
            self.stmts.insert(r.randint(dpos, len(self.stmts)), d)
        l = label or self.label("th")
        s = self.assertion("p", l, node.f)
        if r.random() < twin:                # the same theorem once more, proved from the statement just before it
            n2 = Node(l, [Node(h["l"], [], h["m"]) for h in self.frames[l]["hyps"]], node.f)
            s2 = self.assertion("p", self.label("tw"), n2.f)
            s2["pf"] = {"f": "n", "s": n2.rpn()}
            s2["_node"] = n2
        self.close()
        return s, node

    def dneeds(self, node):
        need = set()
        st = [node]
        while st:
            n = st.pop()
            st.extend(n.kids)
            if n.lab in self.frames and self.frames[n.lab]["dv"]:
                f = self.frames[n.lab]
                sub = {h["m"][1]: k.f[1:] for h, k in zip(f["hyps"], n.kids) if h["k"] == "f"}
                for p in f["dv"]:
                    a, b = tuple(p)
                    for x in sub.get(a, []):
                        for y in sub.get(b, []):
                            if self.isvar(x) and self.isvar(y):
                                need.add(frozenset((x, y)))
        return need


# --- compressed encoding -----------------------------------------------------------------
LET = "ABCDEFGHIJKLMNOPQRST"
DIG = "UVWXY"


def encode(n):
    """1-based reference number to letters."""
    s = LET[(n - 1) % 20]
    n = (n - 1) // 20
    while n > 0:
        s = DIG[(n - 1) % 5] + s
        n = (n - 1) // 5
    return s


def compress(node, mand, asserts, rng=None, share=1.0, order=None):
    """(labels, chars) of a compressed proof of the tree node.

    mand: mandatory hypothesis labels; asserts: predicate 'is an assertion label'."""
    labs = []
    seen = {}
    for l in node.rpn():
        if l not in mand and l not in labs:
            labs.append(l)
    if rng is not None and order == "shuffle":
        rng.shuffle(labs)
    ref = {l: i + 1 for i, l in enumerate(list(mand) + labs)}
    cnt = {}

    def key(n):
        return (n.lab, tuple(key(k) for k in n.kids))

    keys = {}

    def k_of(n):
        if id(n) not in keys:
            keys[id(n)] = (n.lab,) + tuple(k_of(k) for k in n.kids)
        return keys[id(n)]

    def walk_count(n):
        if asserts(n.lab):
            k = k_of(n)
            cnt[k] = cnt.get(k, 0) + 1
            if cnt[k] > 1:
                return
        for c in n.kids:
            walk_count(c)

    walk_count(node)
    saved = {}
    out = []
    base = len(mand) + len(labs)
    skip = set()

    def walk(n):
        k = k_of(n)
        if k in saved:
            out.append(encode(base + saved[k]))
            return
        for c in n.kids:
            walk(c)
        out.append(encode(ref[n.lab]))
        if asserts(n.lab) and cnt.get(k, 0) > 1 and k not in skip:
            if rng is None or rng.random() < share:
                saved[k] = len(saved) + 1
                out.append("Z")
            else:
                skip.add(k)

    walk(node)
    return labs, "".join(out)


# --- rendering ---------------------------------------------------------------------------
KW = {"c": "$c", "v": "$v", "d": "$d", "f": "$f", "e": "$e", "a": "$a", "p": "$p", "{": "${", "}": "$}"}


def proof_text(pf):
    if pf["f"] == "n":
        return " ".join(pf["s"])
    cs = "".join(pf["cs"])
    chunks = [cs[i:i + 60] for i in range(0, len(cs), 60)] or [""]
    return "( " + " ".join(pf["ls"]) + (" " if pf["ls"] else "") + ") " + "\n ".join(chunks)


def render_stmt(s):
    if s["k"] in "{}":
        return KW[s["k"]]
    t = (s["l"] + " " if s["l"] else "") + KW[s["k"]] + " " + " ".join(s["m"])
    if s["k"] == "p":
        t += " $= " + proof_text(s["pf"])
    return t + " $."


def render(stmts):
    return "\n".join(render_stmt(s) for s in stmts) + "\n"
