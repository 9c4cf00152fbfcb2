-------------------------------- MODULE DvGen --------------------------------
(* Distinct-variable obligations, exhaustively: an axiom whose two variables  *)
(* must be distinct is instantiated with every pair of variable lists over    *)
(* NV variables, in a theorem carrying every set of distinct pairs.           *)
EXTENDS MMProof, Json

CONSTANT NV
Var(j) == IF j = 1 THEN "v" ELSE IF j = 2 THEN "w" ELSE IF j = 3 THEN "z" ELSE "t"
FL(j) == IF j = 1 THEN "fv" ELSE IF j = 2 THEN "fw" ELSE IF j = 3 THEN "fz" ELSE "ft"
St(k, l, m) == [k |-> k, l |-> l, m |-> m]
Prelude ==
  << St("c", "", <<"w0", "|-", "=", ".">>), St("v", "", <<"z", "x", "v", "y", "w", "t">>),
     St("f", "fx", <<"w0", "x">>), St("f", "fv", <<"w0", "v">>), St("f", "fw", <<"w0", "w">>),
     St("f", "fy", <<"w0", "y">>), St("f", "fz", <<"w0", "z">>), St("f", "ft", <<"w0", "t">>),
     St("a", "nil", <<"w0", ".">>), St("a", "cat", <<"w0", "x", "y">>),
     St("{", "", <<>>), St("d", "", <<"x", "y">>),
     St("a", "ax", <<"|-", "x", "=", "y">>), St("}", "", <<>>) >>
AllPairs == {{Var(a), Var(b)} : a, b \in 1..NV} \ {{Var(a)} : a \in 1..NV}

RECURSIVE SetSeq(_)
SetSeq(s) == IF s = {} THEN <<>> ELSE LET e == CHOOSE e \in s : TRUE IN <<e>> \o SetSeq(s \ {e})
RECURSIVE Expr(_, _)   \* symbols of the list of the variables with index in s, from index j
Expr(s, j) == IF j > NV THEN <<>> ELSE (IF j \in s THEN <<Var(j)>> ELSE <<>>) \o Expr(s, j + 1)
RECURSIVE ExprPf(_, _, _)
ExprPf(s, j, first) ==
  IF j > NV THEN <<>>
  ELSE IF j \in s THEN <<FL(j)>> \o (IF first THEN <<>> ELSE <<"cat">>) \o ExprPf(s, j + 1, FALSE)
  ELSE ExprPf(s, j + 1, first)
Sym(s) == IF s = {} THEN <<".">> ELSE Expr(s, 1)
Pf(s) == IF s = {} THEN <<"nil">> ELSE ExprPf(s, 1, TRUE)

VARIABLES stage, s1, s2, ds
Init == stage = 0 /\ s1 = {} /\ s2 = {} /\ ds = {}
PickPairs == /\ stage = 0 /\ stage' = 1 /\ ds' \in SUBSET AllPairs /\ UNCHANGED <<s1, s2>>
PickLists == /\ stage = 1 /\ stage' = 2 /\ UNCHANGED ds
             /\ s1' \in SUBSET (1..NV) /\ s2' \in SUBSET (1..NV)
Next == PickPairs \/ PickLists
Spec == Init /\ [][Next]_<<stage, s1, s2, ds>>

Thm == LET dseq == SetSeq(ds) IN
  <<St("{", "", <<>>)>> \o
  [j \in DOMAIN dseq |-> St("d", "", SetSeq(dseq[j]))] \o
  <<[k |-> "p", l |-> "T", m |-> <<"|-">> \o Sym(s1) \o <<"=">> \o Sym(s2)],
    St("}", "", <<>>)>>
P0 == TLCEval(ReadAll(Prelude))
D == ReadFrom(P0, Thm)
Proof == [f |-> "n", s |-> Pf(s1) \o Pf(s2) \o <<"ax">>]
V == Judge(D, "T", Proof)
\* the textbook formulation, independent of the machine
Should == \A a \in s1, b \in s2 : a # b /\ {Var(a), Var(b)} \in ds
Right == stage = 2 => (V = "ok" <=> Should)
ASSUME PrintT("@@" \o ToJson(<<"DB", Prelude>>))
Emit == stage = 2 => PrintT("@@" \o ToJson(<<"CASE", Thm, Proof.s, V>>))
=============================================================================
