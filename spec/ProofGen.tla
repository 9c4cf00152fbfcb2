------------------------------ MODULE ProofGen ------------------------------
(* Exhaustive behaviours of the proof machine on a small fixed database:     *)
(* every sequence of at most MaxLen steps over the usable labels (and "?"),  *)
(* for every target.  Each is printed with the verdict the specification      *)
(* gives it; the driver replays all of them into the program.                  *)
EXTENDS MMProof, Json

CONSTANTS MaxLen, Which

St(k, l, m) == [k |-> k, l |-> l, m |-> m]
\* database 1: modus ponens over a one-connective language
Db1 == << St("c", "", <<"wff", "|-", "(", ")", ">">>), St("v", "", <<"p", "q">>),
          St("f", "wp", <<"wff", "p">>), St("f", "wq", <<"wff", "q">>),
          St("a", "wi", <<"wff", "(", "p", ">", "q", ")">>),
          St("a", "id", <<"|-", "(", "p", ">", "p", ")">>),
          St("{", "", <<>>),
          St("e", "mi", <<"|-", "p">>), St("e", "ma", <<"|-", "(", "p", ">", "q", ")">>),
          St("a", "mp", <<"|-", "q">>), St("}", "", <<>>),
          St("{", "", <<>>),
          St("e", "h", <<"|-", "q">>),
          St("p", "T", <<"|-", "q">>), St("}", "", <<>>),
          St("{", "", <<>>), St("e", "h", <<"|-", "q">>), St("}", "", <<>>) >>
\* database 2: strings with an empty expression, distinct variables, two typecodes
Db2 == << St("c", "", <<"w", "s", "|-", "=", "@">>), St("v", "", <<"x", "y", "z">>),
          St("f", "wx", <<"w", "x">>), St("f", "wy", <<"w", "y">>), St("f", "sz", <<"s", "z">>),
          St("a", "we", <<"w">>), St("a", "wc", <<"w", "x", "y">>), St("a", "ws", <<"w", "@", "z">>),
          St("{", "", <<>>), St("d", "", <<"x", "y">>),
          St("a", "ax", <<"|-", "x", "=", "y">>), St("}", "", <<>>),
          St("{", "", <<>>), St("d", "", <<"x", "z">>),
          St("p", "T", <<"|-", "x", "=", "@", "z">>), St("}", "", <<>>) >>
\* database 3: hypotheses with several variables next to each other, instances that are empty
Db3 == << St("c", "", <<"w", "|-", "a">>), St("v", "", <<"x", "y">>),
          St("f", "wx", <<"w", "x">>), St("f", "wy", <<"w", "y">>),
          St("a", "we", <<"w">>), St("a", "wa", <<"w", "a">>), St("a", "e0", <<"|-">>), St("a", "e1", <<"|-", "a">>),
          St("{", "", <<>>), St("e", "mi", <<"|-", "x", "y">>), St("a", "mr", <<"|-", "y">>), St("}", "", <<>>),
          St("p", "T", <<"|-", "a">>) >>
Stmts == CASE Which = 1 -> SubSeq(Db1, 1, 15) [] Which = 2 -> Db2 [] OTHER -> Db3
D == TLCEval(ReadAll(Stmts))
Alphabet == CASE Which = 1 -> {"wp", "wq", "wi", "id", "mp", "h", "?"}
              [] Which = 2 -> {"wx", "wy", "sz", "we", "wc", "ws", "ax", "?"}
              [] OTHER -> {"wx", "we", "wa", "e0", "e1", "mr", "?"}

VARIABLES seq, mach
Init == seq = <<>> /\ mach = PInit
Extend(t) == /\ Len(seq) < MaxLen /\ ~mach.bad
             /\ seq' = Append(seq, t)
             /\ mach' = PStep(mach, D, "T", NormalTok(t))
Next == \E t \in Alphabet : Extend(t)
Spec == Init /\ [][Next]_<<seq, mach>>

\* every known stack entry of a good prefix is an instance built only from declared symbols
TypedStack == \A j \in DOMAIN mach.stk : mach.stk[j].u \/ Elems(mach.stk[j].m) \subseteq (D.con \cup D.var)
\* one entry is pushed per step, never more
StackBound == Len(mach.stk) <= Len(seq)
\* no unknown step is ever the reason for an "ok"
NoFalseOk == (\E j \in DOMAIN seq : seq[j] = "?") => Verdict(mach, D, "T") # "ok"
ASSUME PrintT("@@" \o ToJson(<<"DB", Stmts>>))
Emit == seq # <<>> => PrintT("@@" \o ToJson(<<"CASE", seq, Verdict(mach, D, "T")>>))
=============================================================================
