----------------------------- MODULE FormTrace -----------------------------
(* Trace validation of proof re-encoding.  One line per database:            *)
(* [db |-> statements, obs |-> [theorem |-> << [how |-> format name,         *)
(*   pf |-> a proof text the program produced] >>], said |-> [theorem |->     *)
(*   what VERIFY PROOF said]]; a $p's own pf is the                           *)
(* text the program was given.  A behaviour reads the input proof of one     *)
(* theorem, then takes one transition per text the program produced for it.  *)
EXTENDS MMForms, Json, IOUtils

DBs == TLCEval(ndJsonDeserialize(IOEnv.TRACE_FILE))
Env == TLCEval([e \in 1..Len(DBs) |-> TLCEval(ReadAll(DBs[e].db))])
Thms == {<<d, i>> \in UNION {{<<d, i>> : i \in DOMAIN DBs[d].db} : d \in 1..Len(DBs)} :
            DBs[d].db[i].k = "p"}

VARIABLES d, i, k, meaning
vars == <<d, i, k, meaning>>
T == DBs[d].db[i].l
Obs == DBs[d].obs[T]

Init == \E t \in Thms : d = t[1] /\ i = t[2] /\ k = 0 /\ meaning = BadForm
Given == k = 0 /\ k' = 1 /\ meaning' = Expansion(Env[d], T, DBs[d].db[i].pf) /\ UNCHANGED <<d, i>>
Produced == k > 0 /\ k <= Len(Obs) /\ k' = k + 1 /\ UNCHANGED <<d, i, meaning>>
Next == Given \/ Produced
Spec == Init /\ [][Next]_vars

(* A proof that is no proof at all is never shown and never rewritten: its text stays *)
Verdict2(o) ==
  IF meaning.bad THEN
    (IF o.file THEN (IF o.shown /\ o.pf = DBs[d].db[i].pf THEN "kept" ELSE "altered")
     ELSE IF o.shown THEN "invented" ELSE "refused")
  ELSE IF ~o.shown THEN "missing"
  ELSE
  LET x == TLCEval(Expansion(Env[d], TLCEval(T), TLCEval(o.pf))) IN
  IF x.bad THEN "unreadable"
  ELSE IF x.e # meaning.e THEN "different"
  ELSE IF ~FormOK(o.how, o.pf, x) THEN "form"
  ELSE IF ~PackedOK(o.how, o.fast, x) THEN "not fully packed"
  ELSE "same"
Good == {"same", "kept", "refused"}
Said == DBs[d].said[T]
VerdictReport == k = 1 =>
   LET v == TLCEval(WrittenVerdict(Env[d], TLCEval(T), TLCEval(DBs[d].db[i].pf), TLCEval(meaning))) IN
   PrintT("@@" \o ToJson(<<IF v = Said \/ (v = "any" /\ Said \in {"error", "incomplete"}) THEN "ACCEPT" ELSE "REJECT",
                            d, T, 0, v>>))
Report == k > 1 =>
   LET v == Verdict2(Obs[k - 1]) IN
   PrintT("@@" \o ToJson(<<IF v \in Good THEN "ACCEPT" ELSE "REJECT", d, T, k - 1, v>>))
=============================================================================
