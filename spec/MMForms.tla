------------------------------ MODULE MMForms ------------------------------
(* The written forms of a proof - normal, packed, explicit, explicit packed, *)
(* compressed - and the machine that expands each to the same thing: the     *)
(* tree of steps whose postorder is the RPN list.                            *)
(* A written form is [f |-> "t", s |-> tokens] (":" and "=" are tokens of    *)
(* their own) or [f |-> "c", ls |-> labels, cs |-> letters].                 *)
EXTENDS MMProof, TLC

(* --- tokens to steps: [g target, loc local labels, v label] -------------- *)
(* a step is  {local :} [target =] label                                     *)
Punct == {":", "="}
XSteps(toks) ==
  LET n == Len(toks)
      At(i) == IF i < 1 \/ i > n THEN "" ELSE toks[i]
      idx == TLCEval(SelectSeq([i \in 1..n |-> i], LAMBDA i : toks[i] \notin Punct /\ At(i + 1) \notin Punct))
      RECURSIVE Locs(_)
      Locs(j) == IF At(j) = ":" THEN Append(Locs(j - 2), At(j - 1)) ELSE <<>>
      one(i) == LET g == IF At(i - 1) = "=" THEN At(i - 2) ELSE ""
                    j == IF g = "" THEN i - 1 ELSE i - 3
                IN [g |-> g, loc |-> Locs(j), v |-> toks[i]]
      steps == TLCEval([k \in DOMAIN idx |-> one(idx[k])])
      size(s) == 1 + (IF s.g = "" THEN 0 ELSE 2) + 2 * Len(s.loc)
  IN [bad |-> \/ FoldLeft(LAMBDA a, s : a + size(s), 0, steps) # n      \* every token belongs to a step
              \/ \E k \in DOMAIN steps : steps[k].g \in Punct \/ Elems(steps[k].loc) \cap (Punct \cup {""}) # {}
              \/ \E k \in DOMAIN steps : ~IsInjective(steps[k].loc),
      steps |-> steps]

(* --- expansion ------------------------------------------------------------- *)
(* entry: [e |-> expanded tree, g |-> target named, c |-> the number of that tree]   *)
(* tab numbers the trees built so far, so that equal trees get equal numbers; twice  *)
(* is set when a tree with arguments is built, not referred to, a second time        *)
(* the expansion is the tree of steps; its postorder is the RPN sequence *)
Leaf(l) == [l |-> l, a |-> <<>>]
EInit == [stk |-> <<>>, val |-> <<>>, n |-> 0, bad |-> FALSE, tab |-> <<>>, twice |-> FALSE]
HypLabels(F) == [i \in DOMAIN F.hyps |-> F.hyps[i].l]

(* arguments in hypothesis order: as written when nothing names a target,      *)
(* otherwise each hypothesis takes the entry that names it                     *)
Arrange(args, hl) ==
  IF \A i \in DOMAIN args : args[i].g = "" THEN [bad |-> FALSE, a |-> args]
  ELSE IF {args[i].g : i \in DOMAIN args} # Elems(hl) THEN [bad |-> TRUE, a |-> args]
  ELSE [bad |-> FALSE, a |-> [k \in DOMAIN hl |-> args[CHOOSE i \in DOMAIN args : args[i].g = hl[k]]]]

EPush(M, e, names) ==
  [M EXCEPT !.stk = Append(@, e), !.n = @ + 1,
            !.val = IF names = <<>> THEN @ ELSE [x \in Elems(names) |-> e] @@ @]

EApply(M, D, l, g, names) ==
  LET hl == HypLabels(D.frm[l]) n == Len(hl) k == Len(M.stk) IN
  IF k < n THEN [M EXCEPT !.bad = TRUE]
  ELSE LET x == TLCEval(Arrange(SubSeq(M.stk, k - n + 1, k), hl))
           key == TLCEval(<<l>> \o [i \in DOMAIN x.a |-> x.a[i].c])
           old == key \in DOMAIN M.tab
           e == TLCEval([e |-> [l |-> l, a |-> [i \in DOMAIN x.a |-> x.a[i].e]], g |-> g,
                         c |-> ToString(IF old THEN M.tab[key] ELSE Cardinality(DOMAIN M.tab))])
       IN EPush([M EXCEPT !.stk = SubSeq(@, 1, k - n), !.bad = @ \/ x.bad, !.twice = @ \/ (old /\ n > 0),
                          !.tab = IF old THEN @ ELSE (key :> Cardinality(DOMAIN M.tab)) @@ @], e, names)

(* text form *)
EText(M, D, T, s) ==
  IF M.bad THEN M
  ELSE IF s.v = "?" THEN (IF s.loc # <<>> THEN [M EXCEPT !.bad = TRUE] ELSE EPush(M, [e |-> Leaf("?"), g |-> s.g, c |-> "?"], <<>>))
  ELSE IF s.v \in DOMAIN M.val THEN (IF s.loc # <<>> THEN [M EXCEPT !.bad = TRUE] ELSE EPush(M, [M.val[s.v] EXCEPT !.g = s.g], <<>>))
  ELSE IF ActiveHyp(D.frm[T], s.v) THEN (IF s.loc # <<>> THEN [M EXCEPT !.bad = TRUE] ELSE EPush(M, [e |-> Leaf(s.v), g |-> s.g, c |-> s.v], <<>>))
  ELSE IF s.v \notin DOMAIN D.frm \/ D.frm[s.v].pos >= D.frm[T].pos \/ Elems(s.loc) \cap DOMAIN M.val # {}
    THEN [M EXCEPT !.bad = TRUE]
  ELSE EApply(M, D, s.v, s.g, s.loc)

(* compressed form: steps decoded by the letter machine *)
EComp(M, D, T, tok, keep) ==
  IF M.bad THEN M
  ELSE IF tok.t = "?" THEN EPush(M, [e |-> Leaf("?"), g |-> "", c |-> "?"], <<>>)
  ELSE IF tok.t = "sav" THEN
     (IF tok.v \in DOMAIN M.val THEN EPush(M, M.val[tok.v], <<>>) ELSE [M EXCEPT !.bad = TRUE])
  ELSE IF ActiveHyp(D.frm[T], tok.v) THEN EPush(M, [e |-> Leaf(tok.v), g |-> "", c |-> tok.v], <<>>)
  ELSE IF tok.v \notin DOMAIN D.frm \/ D.frm[tok.v].pos >= D.frm[T].pos THEN [M EXCEPT !.bad = TRUE]
  ELSE LET N == EApply(M, D, tok.v, "", <<>>) IN
       IF N.bad \/ N.n \notin keep THEN N ELSE [N EXCEPT !.val = (N.n :> N.stk[Len(N.stk)]) @@ @]

BadForm == [bad |-> TRUE, e |-> Leaf(""), named |-> FALSE, shared |-> FALSE, all |-> FALSE, twice |-> FALSE]
Done(M, T, named, shared, all) ==
  IF M.bad \/ Len(M.stk) # 1 THEN BadForm
  ELSE [bad |-> FALSE, e |-> M.stk[1].e, named |-> named, shared |-> shared, all |-> all, twice |-> M.twice]

(* The expansion of a written proof of T, and which devices its text uses      *)
Expansion(D, T, pf) ==
  IF pf.f = "c" THEN
    LET d == Decode(D, T, pf) IN
    IF d.lost THEN BadForm
    ELSE Done(FoldLeft(LAMBDA m, t : EComp(m, D, T, t, d.keep), EInit, d.toks), T, FALSE, TRUE, FALSE)
  ELSE
    LET x == TLCEval(XSteps(TLCEval(pf.s))) IN
    IF x.bad \/ x.steps = <<>> \/ Cardinality({x.steps[i].g = "" : i \in DOMAIN x.steps}) > 1
      THEN BadForm                       \* targets are named for every step or for none
    ELSE Done(FoldLeft(LAMBDA m, s : EText(m, D, T, s), EInit, x.steps), T,
              \E i \in DOMAIN x.steps : x.steps[i].g # "",
              \E i \in DOMAIN x.steps : x.steps[i].loc # <<>>,
              \A i \in DOMAIN x.steps : x.steps[i].g # "")

(* What VERIFY PROOF must say about a written proof *)
RECURSIVE Postorder(_)
Postorder(t) == Append(FlattenSeq([i \in DOMAIN t.a |-> Postorder(t.a[i])]), NormalTok(t.l))
WrittenVerdict(D, T, pf, x) ==
  IF x.bad THEN "error"
  ELSE IF pf.f = "c" /\ \E i \in DOMAIN pf.ls : ~CompLabelOK(D, D.frm[T], pf.ls[i]) THEN "error"
  ELSE Verdict(PRun(PInit, D, T, TLCEval(Postorder(x.e))), D, T)

(* the devices a named format may use *)
FormOK(how, pf, x) ==
  CASE how = "normal" -> pf.f = "t" /\ ~x.named /\ ~x.shared
    [] how = "packed" -> pf.f = "t" /\ ~x.named
    [] how = "explicit" -> pf.f = "t" /\ x.all /\ ~x.shared
    [] how = "explicitpacked" -> pf.f = "t" /\ x.all
    [] how = "compressed" -> pf.f = "c"
    [] OTHER -> TRUE
(* packing leaves no subproof written out twice, unless asked to keep the proof as it is *)
PackedOK(how, fast, x) == (how \in {"packed", "explicitpacked", "compressed"} /\ ~fast) => ~x.twice
=============================================================================
