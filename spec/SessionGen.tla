----------------------------- MODULE SessionGen -----------------------------
(* Every session of N commands after READ, with two theorems and two files,   *)
(* and the promises of MMSession over all of them.                            *)
EXTENDS MMSession, Json
CONSTANTS N

VARIABLES S, hist, kept, n
vars == <<S, hist, kept, n>>

St0 == [a |-> [p |-> <<"0">>, f |-> "n"], b |-> [p |-> <<"0">>, f |-> "n"]]
Files0 == ("db.mm" :> [there |-> TRUE, v |-> 1, st |-> St0]) @@ ("out.mm" :> [there |-> FALSE, v |-> 1, st |-> Nothing])

MM == { [o |-> "read", x |-> [c |-> "read", f |-> "db.mm"]], [o |-> "read2", x |-> [c |-> "read", f |-> "out.mm"]],
        [o |-> "erase-n", x |-> [c |-> "erase", ans |-> ""]], [o |-> "erase-y", x |-> [c |-> "erase", ans |-> "y"]],
        [o |-> "prove", x |-> [c |-> "prove", t |-> "a", ovr |-> FALSE]] }
PA == { [o |-> "edit", x |-> [c |-> "edit", to |-> <<ToString(n)>>, ovr |-> FALSE, hist |-> FALSE]],
        [o |-> "back", x |-> [c |-> "edit", to |-> S.snap, ovr |-> FALSE, hist |-> TRUE]],
        [o |-> "savenew", x |-> [c |-> "savenew", form |-> "n", ovr |-> FALSE]] }
Both == { [o |-> "saveproof", x |-> [c |-> "saveproof", t |-> "b", form |-> "c"]],
          [o |-> "write", x |-> [c |-> "write", f |-> "out.mm", can |-> TRUE]],
          [o |-> "write-no", x |-> [c |-> "write", f |-> "out.mm", can |-> FALSE]],
          [o |-> "exit-n", x |-> [c |-> "exit", ans |-> "", force |-> FALSE, paonly |-> FALSE]],
          [o |-> "exit-y", x |-> [c |-> "exit", ans |-> "y", force |-> FALSE, paonly |-> FALSE]] }

Start == [c |-> "read", f |-> "db.mm"]
Init == /\ S = (CHOOSE o \in Outcomes(SNew(Files0), Start, {}, {}) : TRUE).s
        /\ hist = <<>> /\ kept = TRUE /\ n = 1
Next == /\ Len(hist) < N /\ S.mode # "end"
        /\ \E m \in (IF S.mode = "pa" THEN PA ELSE MM) \cup Both :
             \E o \in Outcomes(S, m.x, {}, {}) :
               /\ S' = o.s /\ hist' = Append(hist, m.o) /\ n' = n + 1
               /\ kept' = (NoSilentLoss(S, o, m.x) /\ FilesByWriteOnly(S, o, m.x))
Spec == Init /\ [][Next]_vars

Promises == /\ kept
            /\ SourceLost(S) => S.dirty
            /\ ProofLost(S) => S.touched
            /\ S.mode = "pa" => S.loaded
Report == (Len(hist) = N \/ S.mode = "end") => PrintT("@@" \o ToJson(<<"HIST", hist>>))
=============================================================================
