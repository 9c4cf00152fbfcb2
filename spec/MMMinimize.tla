----------------------------- MODULE MMMinimize -----------------------------
(* EXPAND and MINIMIZE_WITH: replacing references by proofs, and subproofs by  *)
(* references.                                                                 *)
EXTENDS MMAssist
Lab == INSTANCE MMLabels
Chk == INSTANCE MMProof

(* labels selected by a comma-separated list of patterns (characters); lc maps labels to characters *)
Picks(lc, pat) ==
  LET q == Lab!Split(pat, ",") IN
  {l \in DOMAIN lc : \E j \in DOMAIN q : q[j] # <<>> /\ Lab!Wild(q[j], lc[l])}

(* ----- EXPAND --------------------------------------------------------------- *)
(* Pf: theorem -> labels of its stored proof                                   *)
ExpandOne(D, T, Pf, ls, k) ==
  LET hy == D.frm[k].hyps
      Body(kids) == FlattenSeq([i \in DOMAIN Pf[k] |->
           IF \E j \in DOMAIN hy : hy[j].l = Pf[k][i] THEN kids[CHOOSE j \in DOMAIN hy : hy[j].l = Pf[k][i]]
           ELSE IF Pf[k][i] \in DOMAIN D.frm THEN <<Pf[k][i]>>
           ELSE <<"?">>])          \* unknown already, or a dummy variable
      Push(st, l) ==
        LET a == IF l = "?" THEN 0 ELSE Arity(D, T, l)
            n == Len(st)
            kids == SubSeq(st, n - a + 1, n)
        IN Append(SubSeq(st, 1, n - a), IF l = k THEN Body(kids) ELSE FlattenSeq(kids) \o <<l>>)
      r == FoldLeft(Push, <<>>, ls)
  IN r[1]

Latest(D, K) == SetToSortSeq(K, LAMBDA a, b : D.frm[a].pos > D.frm[b].pos)
Expanded(D, T, Pf, ls, K) == FoldLeft(LAMBDA x, k : ExpandOne(D, T, Pf, x, k), ls, Latest(D, K))

(* ----- what a proof rests on ------------------------------------------------- *)
Rests(D, Pf, order, A) == FoldLeft(LAMBDA X, p : IF p \in X THEN X \cup Elems(Pf[p]) ELSE X, A, order)
Logical(D, l) == l \in DOMAIN D.frm /\ D.frm[l].m[1] = "|-"
Axioms(D, X) == {l \in X : Logical(D, l) /\ D.frm[l].k = "a"}

(* ----- MINIMIZE_WITH ---------------------------------------------------------- *)
Ground1(m, W) == WIn(m, W) = {}
Complete1(s, sh, i) == \A j \in sh.first[i]..i : s[j].l # "?"

(* a complete subproof that was never unified (after INITIALIZE) *)
Spoilt(D, T, s) == LET sh == Shape(D, T, Labels(s)) IN \E i \in DOMAIN s : Complete1(s, sh, i) /\ ~Unified(s[i])

(* nothing else changed: outside replaced subproofs, labels are kept and       *)
(* formulas only get more specific                                             *)
Shortened(D, T, s, t, W) ==
  LET sh == Shape(D, T, Labels(s))
      th == Shape(D, T, Labels(t))
      A == Carried(s, t, sh, th)
      spoilt == Spoilt(D, T, s)
      R == {r \in DOMAIN A : /\ Ground1(s[r].t, W) /\ t[A[r]].t = s[r].t
                             /\ Complete1(t, th, A[r])
                             /\ spoilt \/ \A x \in th.first[A[r]]..A[r] : Unified(t[x])}
      in == UNION {sh.first[r]..r : r \in R}
      out == DOMAIN A \ in
  IN /\ \A i \in out : s[i].l = t[A[i]].l
     /\ Instance(UNION {Pairs3(s[i], t[A[i]]) : i \in out}, W)

(* A statement k fits step i: the formula is an instance, and all hypotheses    *)
(* have complete proofs at hand (logical ones below the step).  The number of   *)
(* steps it would then take at most, or 0.  (Unknown steps below may mislead.)  *)
Cost(D, s, sh, W, i, k) ==
  LET f == D.frm[k]
      subs == MatchAll(f.m, s[i].t, f.vars, <<>>)
      fv == UNION {Elems(f.hyps[j].m) \cap f.vars : j \in DOMAIN f.hyps}
      Proofs(h, x) == {j \in (IF h.k = "f" THEN DOMAIN s ELSE sh.first[i]..(i - 1)) :
                          s[j].t = Put(h.m, x) /\ s[j].l # "?" /\ Complete1(s, sh, j) /\ \A y \in sh.first[j]..j : Unified(s[y])}
      good == {x \in subs : fv \subseteq DOMAIN x /\ \A j \in DOMAIN f.hyps : Proofs(f.hyps[j], x) # {}}
      len(j) == j - sh.first[j] + 1
      Worst(X) == CHOOSE m \in {j - sh.first[j] + 1 : j \in X} : \A j \in X : j - sh.first[j] + 1 <= m
  IN IF ~Complete1(s, sh, i) \/ ~Ground1(s[i].t, W) \/ s[i].u # <<>> \/ good = {} THEN 0
     ELSE LET x == CHOOSE y \in good : TRUE IN
          1 + FoldLeft(LAMBDA a, h : a + Worst(Proofs(h, x)), 0, f.hyps)

(* k could still be put in *)
Missed(D, T, s, W, k, grow) ==
  LET sh == Shape(D, T, Labels(s)) IN
  \E i \in DOMAIN s :
    LET c == Cost(D, s, sh, W, i, k) IN
    c > 0 /\ IF grow THEN s[i].l # k ELSE c < i - sh.first[i] + 1

(* q: [pat, exc, forb, allow, nonew, grow, one, reverted, size0, size1, says]   *)
(* far: statements of other mathboxes, when those are not to be used            *)
Candidates(D, T, lc, far, q) ==
  {l \in Picks(lc, q.pat) : IsAssert(D, T, l)} \ (Picks(lc, q.exc) \cup Picks(lc, q.forb) \cup far)
Permitted(D, Pf, order, lc, q, s) ==      \* axioms the proof may rest on
  Axioms(D, Rests(D, Pf, order, Elems(Labels(s)))) \cup (Picks(lc, q.allow) \ Picks(lc, q.nonew))

Minimized(D, T, Pf, order, lc, far, q, s, t, W) ==
  LET cand == Candidates(D, T, lc, far, q)
      ax == Permitted(D, Pf, order, lc, q, s)
      new == {l \in Used(t) \ Used(s) : Logical(D, l)}
      forb == Picks(lc, q.forb)
      Free(k) == /\ Axioms(D, Rests(D, Pf, order, {k})) \subseteq ax
                 /\ Rests(D, Pf, order, {k}) \cap forb = {}
                 /\ D.frm[k].dv = {}
      J(x) == Chk!Judge(D, T, [f |-> "n", s |-> Labels(x)])
  IN /\ (q.says = "none") = (cand = {})
     /\ (q.says \in {"none", "same"}) => t = s
     /\ t # s => /\ Shortened(D, T, s, t, W)
                 /\ new \subseteq cand
                 /\ Axioms(D, Rests(D, Pf, order, Elems(Labels(t)))) \subseteq ax
                 /\ Rests(D, Pf, order, new) \cap forb = {}
                 /\ ~q.grow => Len(t) < Len(s) /\ q.size1 <= q.size0
                 /\ ~Spoilt(D, T, s) => /\ J(s) = "ok" => J(t) = "ok"
                                        /\ J(s) = "incomplete" => J(t) \in {"ok", "incomplete"}
     /\ q.to # 0 => q.to = q.size1
     /\ q.one # "" /\ Logical(D, q.one) /\ q.one \in cand /\ Free(q.one) /\ ~q.reverted => ~Missed(D, T, t, W, q.one, q.grow)
=============================================================================
