----------------------------- MODULE MarkupTrace -----------------------------
(* Audits made by VERIFY MARKUP.  A case: [db, lines, top, width, qs], each q:   *)
(* [pat, date, top, under, box, said, clean]: what the program reported.         *)
(* A behaviour audits the file statement by statement.                           *)
EXTENDS MMMarkup, Json, IOUtils
Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE_FILE))
Data == TLCEval([i \in DOMAIN Cases |-> TLCEval(ReadAll(Cases[i].db))])
NoP == [proving |-> 0, changed |-> {}]

VARIABLES cs, qn, pos, found
vars == <<cs, qn, pos, found>>
C == Cases[cs]
Q == C.qs[qn]
Db == C.db
Sel == {i \in DOMAIN Db : Db[i].c # <<>> /\ Wild(Q.pat, Db[i].c)}

Init == cs \in DOMAIN Cases /\ qn \in DOMAIN Cases[cs].qs /\ pos = 0 /\ found = None
Audit == pos < Len(Db)
  /\ found' = IF pos + 1 \in Sel THEN Both(found, Statement(Data[cs], Db[pos + 1], Q)) ELSE found
File == pos = Len(Db)
  /\ found' = Both(Both(found, Must(Symbols(Db) \cup Lines(C.lines, C.width) \cup IF Q.box THEN Mathboxes(Db) ELSE {})),
                   Top(C.top, {i \in Sel : Db[i].k \in {"a", "p"}}, Db, Q))
Next == (Audit \/ File) /\ pos' = pos + 1 /\ UNCHANGED <<cs, qn>>
Spec == Init /\ [][Next]_vars

Said == {Q.said[i] : i \in DOMAIN Q.said}
Missing == found.must \ Said
Invented == Said \ (found.must \cup found.may)
Twice == Cardinality(Said) # Len(Q.said)
Report == pos = Len(Db) + 1 =>
  PrintT("@@" \o ToJson(<<IF Missing = {} /\ Invented = {} /\ ~Twice /\ (Q.clean <=> Said = {}) THEN "ACCEPT" ELSE "REJECT",
                           cs, qn, Missing, Invented, Cardinality(found.must)>>))
(* an audit never takes a finding back *)
Grows == [][found.must \subseteq found'.must]_vars
=============================================================================
