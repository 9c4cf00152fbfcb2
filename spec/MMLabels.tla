------------------------------ MODULE MMLabels ------------------------------
(* Which statements a <label-match> selects.  Labels and patterns are           *)
(* sequences of one-character strings.                                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

\* positions of p reachable from those in S by letting stars stand for nothing
RECURSIVE Slide(_, _)
Slide(p, S) == LET T == S \cup {i + 1 : i \in {j \in S : j <= Len(p) /\ p[j] = "*"}}
               IN IF T = S THEN S ELSE Slide(p, T)
Wild(p, s) ==
  (Len(p) + 1) \in FoldLeft(LAMBDA S, c :
       Slide(p, {i + 1 : i \in {j \in S : j <= Len(p) /\ (p[j] = c \/ p[j] = "?")}} \cup {j \in S : j <= Len(p) /\ p[j] = "*"}),
       Slide(p, {1}), s)

Split(p, c) == \* the pieces between separators
  FoldLeft(LAMBDA a, x : IF x = c THEN Append(a, <<>>) ELSE [a EXCEPT ![Len(a)] = Append(@, x)], <<<<>>>>, p)
Has(p, c) == \E i \in DOMAIN p : p[i] = c
Digit == ("0" :> 0) @@ ("1" :> 1) @@ ("2" :> 2) @@ ("3" :> 3) @@ ("4" :> 4) @@ ("5" :> 5) @@ ("6" :> 6) @@ ("7" :> 7) @@ ("8" :> 8) @@ ("9" :> 9)
Num(s) == FoldLeft(LAMBDA a, x : 10 * a + Digit[x], 0, s)

(* S: the statements, in order: [k, c] with c the characters of the label (empty *)
(* for statements without one).  P: [proving, changed] statement numbers.        *)
Asn(S) == {i \in DOMAIN S : S[i].k \in {"a", "p"}}
At(S, c) == {i \in Asn(S) : S[i].c = c}
One(S, P, p) ==
  IF Has(p, "~") THEN
     LET q == Split(p, "~")
         from == IF q[1] = <<>> THEN {1} ELSE At(S, q[1])
         to == IF q[2] = <<>> THEN {Len(S)} ELSE At(S, q[2])
     IN {i \in Asn(S) : \E f \in from : \E t \in to : f <= i /\ i <= t}
  ELSE IF p[1] = "#" THEN {i \in DOMAIN S : i = Num(Tail(p)) /\ S[i].c # <<>>}
  ELSE IF p[1] = "@" THEN {i \in Asn(S) : Cardinality({j \in Asn(S) : j <= i}) = Num(Tail(p))}
  ELSE IF p = <<"=">> THEN {i \in Asn(S) : i = P.proving}
  ELSE IF p = <<"%">> THEN {i \in Asn(S) : S[i].k = "p" /\ i \in P.changed}
  ELSE {i \in DOMAIN S : S[i].c # <<>> /\ Wild(p, S[i].c)}
Select(S, P, p) == LET q == Split(p, ",") IN UNION {One(S, P, q[j]) : j \in {h \in DOMAIN q : q[h] # <<>>}}
=============================================================================
