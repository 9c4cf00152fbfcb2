------------------------------- MODULE MMUndo -------------------------------
(* The undo history of the Proof Assistant: stk[ptr].s is the current state, *)
(* stk[i].txt the command that led to stk[i].  lim: how many steps back are  *)
(* kept; ovf: older states were dropped.                                     *)
EXTENDS Naturals, Sequences

UNew(s, lim) == [stk |-> <<[s |-> s, txt |-> ""]>>, ptr |-> 1, lim |-> lim, ovf |-> FALSE]
UCur(U) == U.stk[U.ptr].s
UPush(U, s, txt) ==
  LET b == Append(SubSeq(U.stk, 1, U.ptr), [s |-> s, txt |-> txt]) IN
  IF Len(b) > U.lim + 1 THEN [U EXCEPT !.stk = Tail(b), !.ptr = Len(b) - 1, !.ovf = TRUE]
  ELSE [U EXCEPT !.stk = b, !.ptr = Len(b)]
UUndo(U) == IF U.ptr > 1 THEN [U EXCEPT !.ptr = @ - 1] ELSE U
URedo(U) == IF U.ptr < Len(U.stk) THEN [U EXCEPT !.ptr = @ + 1] ELSE U
UResize(U, n) == IF n = U.lim THEN U ELSE UNew(UCur(U), n)
(* what UNDO and REDO say *)
UndoSays(U) == IF U.ptr > 1 THEN U.stk[U.ptr].txt ELSE IF U.ovf THEN "exceeded" ELSE "nothing"
RedoSays(U) == IF U.ptr < Len(U.stk) THEN U.stk[U.ptr + 1].txt ELSE "nothing"
=============================================================================
