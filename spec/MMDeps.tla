-------------------------------- MODULE MMDeps --------------------------------
(* What a proof depends on, and what depends on a statement.                    *)
EXTENDS MMProof

(* tokens of a stored proof as a tree: for each step the steps below it that     *)
(* matter when it matters itself; a repeated subproof is a leaf.                 *)
(* mode "ess": only subproofs of $e hypotheses matter; "all": everything.        *)
TreeStep(M, D, T, tok, mode) ==      \* M: [n, stk, bad]
  LET n == M.n + 1
      leaf == [M EXCEPT !.n = n, !.stk = Append(@, {n})]
      F == D.frm[T]
  IN IF tok.t \in {"?", "sav"} \/ ActiveHyp(F, tok.v) THEN leaf
     ELSE IF tok.v \notin DOMAIN D.frm \/ D.frm[tok.v].pos >= F.pos THEN [leaf EXCEPT !.bad = TRUE]
     ELSE LET G == D.frm[tok.v]
              h == Len(G.hyps)
              k == Len(M.stk)
          IN IF k < h THEN [leaf EXCEPT !.bad = TRUE]
             ELSE [M EXCEPT !.n = n,
                     !.stk = Append(SubSeq(@, 1, k - h),
                        {n} \cup UNION {M.stk[k - h + j] : j \in {x \in 1..h : mode = "all" \/ G.hyps[x].k = "e"}})]
\* [toks, all, ess, odd]: the tokens and the sets of steps; a proof that cannot be read counts as "?";
\* odd: it has unknown steps and cannot be a tree (what its steps are is then anyone's guess)
Parsed(D, T, pf) ==
  LET d == Decode(D, T, pf)
      run(mode) == FoldLeft(LAMBDA M, t : TreeStep(M, D, T, t, mode), [n |-> 0, stk |-> <<>>, bad |-> d.bad], d.toks)
      A == run("all")
  IN IF A.bad \/ Len(A.stk) # 1 THEN [toks |-> <<[t |-> "?"]>>, all |-> {1}, ess |-> {1}, odd |-> \E i \in DOMAIN d.toks : d.toks[i].t = "?"]
     ELSE [odd |-> FALSE, toks |-> d.toks, all |-> 1..Len(d.toks), ess |-> run("ess").stk[1]]

(* X: label of a $p -> Parsed *)
Steps(X, T, ess) == IF ess THEN X[T].ess ELSE X[T].all
LabsOf(X, T, ess) == {X[T].toks[i].v : i \in {j \in Steps(X, T, ess) : X[T].toks[j].t = "lab"}}
Uses(D, X, T, ess) == IF T \in DOMAIN X THEN LabsOf(X, T, ess) \cap DOMAIN D.frm ELSE {}
Gap(X, T, ess) == T \in DOMAIN X /\ \E i \in Steps(X, T, ess) : X[T].toks[i].t = "?"

RECURSIVE Reach(_, _, _, _, _)          \* closure of S inside F
Reach(D, X, S, F, ess) == LET N == S \cup (UNION {Uses(D, X, s, ess) : s \in S} \cap F)
                          IN IF N = S THEN S ELSE Reach(D, X, N, F, ess)
\* proofs that refer to l; and those that do so through others
Direct(D, X, l) == {T \in DOMAIN X : l \in LabsOf(X, T, FALSE)}
RECURSIVE Affects(_, _, _)
Affects(D, X, S) == LET N == S \cup UNION {Direct(D, X, l) : l \in S} IN IF N = S THEN S ELSE Affects(D, X, N)

Trace(D, X, T, ess, to) ==             \* to: {} or the targets
  LET F == IF to = {} THEN DOMAIN D.frm ELSE Affects(D, X, to)
  IN Reach(D, X, {T}, F, ess)

(* ----- counting steps: decimal numbers, least significant digit first -------------- *)
RECURSIVE AddD(_, _, _)
AddD(a, b, c) == IF a = <<>> /\ b = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                 ELSE LET s == (IF a = <<>> THEN 0 ELSE Head(a)) + (IF b = <<>> THEN 0 ELSE Head(b)) + c
                      IN <<s % 10>> \o AddD(IF a = <<>> THEN <<>> ELSE Tail(a), IF b = <<>> THEN <<>> ELSE Tail(b), s \div 10)
RECURSIVE SubD(_, _)                   \* a - n for a small n <= a
SubD(a, n) == IF n = 0 THEN a ELSE
                LET d == (Head(a) - n) % 10
                    bor == (n - Head(a) + d) \div 10
                IN <<d>> \o (IF Len(a) = 1 THEN <<>> ELSE SubD(Tail(a), bor))
RECURSIVE Trim(_)
Trim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a
HypCount(D, l, ess) == Cardinality({i \in DOMAIN D.frm[l].hyps : ~ess \/ D.frm[l].hyps[i].k = "e"})
\* C: label -> [num, far], for the assertions before; far: length of a longest path
CountOne(D, X, C, T, ess) ==
  IF T \notin DOMAIN X THEN [num |-> <<1>>, far |-> 0, plen |-> 0]
  ELSE LET st == {i \in Steps(X, T, ess) : X[T].toks[i].t # "sav"}
           lab == {i \in st : X[T].toks[i].t = "lab"}
           asn == {i \in lab : X[T].toks[i].v \in DOMAIN D.frm}
           num(i) == IF i \notin asn THEN <<1>>
                     ELSE LET l == X[T].toks[i].v IN C[l].num
           minus == FoldLeft(LAMBDA a, i : IF X[T].toks[i].v \in DOMAIN X THEN a + HypCount(D, X[T].toks[i].v, ess) ELSE a, 0, SetToSeq(asn))
           far(i) == IF i \in asn THEN C[X[T].toks[i].v].far + 1 ELSE 1
           tot == FoldLeft(LAMBDA a, i : AddD(a, num(i), 0), <<>>, SetToSeq(st))
       IN [num |-> Trim(SubD(tot, minus)), plen |-> Cardinality(Steps(X, T, ess)),
           far |-> IF lab = {} THEN 0 - 2 ELSE CHOOSE m \in {far(i) : i \in lab} : \A i \in lab : far(i) <= m]
Counts(D, X, ess) == FoldLeft(LAMBDA C, T : (T :> CountOne(D, X, C, T, ess)) @@ C, <<>>, D.ord)
=============================================================================
