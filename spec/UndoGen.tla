------------------------------ MODULE UndoGen ------------------------------
(* All histories of N edits, undos, redos and changes of the limit, and the  *)
(* laws of the undo history over them.  An edit makes a state never seen     *)
(* before ("new") or leaves the proof as it is ("same").                     *)
EXTENDS MMUndo, TLC, Json
CONSTANTS N

VARIABLES U, n, hist, past
vars == <<U, n, hist, past>>
(* past: the states since the last change of the limit, oldest first, along   *)
(* the current line of edits; a plain list without any limit.                 *)
Init == U = UNew(0, 3) /\ n = 0 /\ hist = <<>> /\ past = [all |-> <<0>>, at |-> 1]
Do(op) == hist' = Append(hist, op)
Edit == \E op \in {"new", "same"} :
  LET s == IF op = "new" THEN n + 1 ELSE UCur(U) IN
  /\ Do(op) /\ n' = IF op = "new" THEN n + 1 ELSE n
  /\ U' = UPush(U, s, op)
  /\ past' = [all |-> Append(SubSeq(past.all, 1, past.at), s), at |-> past.at + 1]
Undo == /\ Do("undo") /\ U' = UUndo(U) /\ UNCHANGED n
        /\ past' = IF U.ptr > 1 THEN [past EXCEPT !.at = @ - 1] ELSE past
Redo == /\ Do("redo") /\ U' = URedo(U) /\ UNCHANGED n
        /\ past' = IF U.ptr < Len(U.stk) THEN [past EXCEPT !.at = @ + 1] ELSE past
Resize == \E k \in {0, 1, 2} :
  /\ Do(<<"zero", "one", "two">>[k + 1]) /\ U' = UResize(U, k) /\ UNCHANGED n
  /\ past' = IF k = U.lim THEN past ELSE [all |-> <<UCur(U)>>, at |-> 1]
Next == Len(hist) < N /\ (Edit \/ Undo \/ Redo \/ Resize)
Spec == Init /\ [][Next]_vars

(* the history is a window of the plain list of states *)
Window == LET m == Len(U.stk) k == past.at - U.ptr IN
  /\ UCur(U) = past.all[past.at]
  /\ \A i \in 1..m : U.stk[i].s = past.all[k + i]
  /\ m <= U.lim + 1
  /\ U.ovf = (k > 0)
  /\ Len(past.all) = k + m
Inverse == /\ U.ptr > 1 => URedo(UUndo(U)) = U
           /\ U.ptr < Len(U.stk) => UUndo(URedo(U)) = U
Report == Len(hist) = N => PrintT("@@" \o ToJson(<<"HIST", hist>>))
=============================================================================
