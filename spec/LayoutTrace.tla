----------------------------- MODULE LayoutTrace -----------------------------
(* Sources written by WRITE SOURCE / FORMAT or / REWRAP.  A case: a, b the       *)
(* characters read and written; va, vc, vb the verdicts before, after writing    *)
(* and after reading b; same: WRITE SOURCE afterwards wrote b again; *)
(* e: b written split, read back and written whole (<<>>: b itself); read: both  *)
(* texts were read without error.                                                *)
EXTENDS MMFormat, Json, IOUtils
Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE_FILE))
VARIABLES cs, st
(* the end of an included file may have got a new line *)
SamePieces(p, q) == [i \in DOMAIN p |-> <<p[i].k, p[i].ch>>] = [i \in DOMAIN q |-> <<q[i].k, q[i].ch>>]
Judge(C) ==
  LET pa == Pieces(C.a) pb == Pieces(C.b)
  IN IF ~C.read THEN "reading"
     ELSE IF Lost(pa, pb, C.rewrap, C.width) # {} THEN "piece " \o ToString(CHOOSE i \in Lost(pa, pb, C.rewrap, C.width) : \A j \in Lost(pa, pb, C.rewrap, C.width) : i <= j \/ j = 0)
     ELSE IF C.va # C.vb \/ C.va # C.vc THEN "verdicts"
     ELSE IF ~C.same THEN "written again"
     ELSE IF C.e # <<>> /\ ~SamePieces(pb, Pieces(C.e)) THEN "split and read"
     ELSE "ok"
Init == cs \in 1..Len(Cases) /\ st = <<>>
Next == st = <<>> /\ st' = <<Judge(Cases[cs])>> /\ UNCHANGED cs
Spec == Init /\ [][Next]_<<cs, st>>
Report == st # <<>> => PrintT("@@" \o ToJson(<<IF st[1] = "ok" THEN "ACCEPT" ELSE "REJECT", cs, st[1]>>))
=============================================================================
