------------------------------ MODULE CodecGen ------------------------------
(* Every letter string of at most MaxLen characters of a compressed proof     *)
(* over a small database whose reference list is long enough (23 entries) for *)
(* two-letter references; prefixes that are already wrong are extended once.  *)
EXTENDS MMProof, Json

CONSTANTS MaxLen, Alphabet, NLab

St(k, l, m) == [k |-> k, l |-> l, m |-> m]
C(j) == "c" \o ToString(j)
Stmts == << St("c", "", <<"w", "|-", "&", "!">> \o [j \in 1..NLab |-> C(j)]), St("v", "", <<"x", "y">>),
            St("f", "fx", <<"w", "x">>), St("f", "fy", <<"w", "y">>),
            St("a", "and", <<"w", "&", "x", "y">>), St("a", "tru", <<"|-", "!", "x", "x">>) >>
         \o [j \in 1..NLab |-> St("a", "k" \o ToString(j), <<"w", C(j)>>)]
         \o << St("p", "T", <<"|-", "!", "&", "x", "x", "&", "x", "x">>) >>
D == TLCEval(ReadAll(Stmts))
Labs == <<"and", "tru">> \o [j \in 1..NLab |-> "k" \o ToString(j)]
Base == 1 + Len(Labs)
Asr == 2..Base

VARIABLES chars, st
Init == chars = <<>> /\ st = CInit
Next == /\ Len(chars) < MaxLen /\ ~st.bad
        /\ \E c \in Alphabet : chars' = Append(chars, c) /\ st' = CStep(st, c, Base, Asr, FALSE)
Spec == Init /\ [][Next]_<<chars, st>>

\* the references read so far are exactly the encodings written
RECURSIVE Written(_, _)
Written(s, j) == IF j > Len(s.steps) THEN <<>>
                 ELSE (IF s.steps[j] = 0 THEN <<"?">> ELSE Encode(s.steps[j])) \o Written(s, j + 1)
NoZ == SelectSeq(chars, LAMBDA c : c # "Z")
RoundTrip == (~st.bad /\ st.acc = 0) => Written(st, 1) = NoZ
RefsInRange == \A j \in DOMAIN st.steps : st.steps[j] <= Base + Len(st.saved)
ASSUME \A n \in 1..3200 : LET s == CRun(Encode(n), 4000, {}, FALSE) IN ~s.bad /\ s.steps = <<n>>
ASSUME PrintT("@@" \o ToJson(<<"DB", Stmts, Labs>>))
Emit == PrintT("@@" \o ToJson(<<"CASE", chars, Judge(D, "T", [f |-> "c", ls |-> Labs, cs |-> chars])>>))
=============================================================================
