----------------------------- MODULE ProofTrace -----------------------------
(* Trace validation of the verifier.  Input (TRACE_FILE, ndjson): one line   *)
(* per database: [db |-> statements (a $p carries pf), obs |-> [label -> verdict]]. *)
(* One behaviour per (database, theorem): Decode, then one transition per    *)
(* proof step, then Finish compares with what the program said.              *)
EXTENDS MMProof, Json, IOUtils

DBs == TLCEval(ndJsonDeserialize(IOEnv.TRACE_FILE))
Env == TLCEval([e \in 1..Len(DBs) |-> TLCEval(ReadAll(DBs[e].db))])
Thms == {<<d, i>> \in UNION {{<<d, i>> : i \in DOMAIN DBs[d].db} : d \in 1..Len(DBs)} :
            DBs[d].db[i].k = "p"}

VARIABLES d, i, pc, toks, pos, mach, verdict
vars == <<d, i, pc, toks, pos, mach, verdict>>

S == DBs[d].db[i]

Init == \E t \in Thms :
  /\ d = t[1] /\ i = t[2]
  /\ pc = "decode" /\ toks = <<>> /\ pos = 1 /\ mach = PInit /\ verdict = "none"

DecodeProof ==
  /\ pc = "decode"
  /\ IF S.l \notin DOMAIN Env[d].frm
     THEN pc' = "done" /\ verdict' = "unread" /\ UNCHANGED <<toks, mach>>
     ELSE LET x == Decode(Env[d], S.l, S.pf) IN
        /\ IF x.bad THEN pc' = "done" /\ verdict' = "error" /\ toks' = <<>>
                 ELSE pc' = "run" /\ toks' = x.toks /\ verdict' = verdict
        /\ mach' = PInitK(x.keep)
  /\ UNCHANGED <<d, i, pos>>

ProofStep ==
  /\ pc = "run" /\ pos <= Len(toks)
  /\ LET last == IF Len(toks) > 100 /\ pos + 49 < Len(toks) THEN pos + 49
                 ELSE IF Len(toks) > 100 THEN Len(toks) ELSE pos   \* long proofs: 50 steps at a time
     IN mach' = PRun(mach, Env[d], S.l, SubSeq(toks, pos, last)) /\ pos' = last + 1
  /\ UNCHANGED <<d, i, pc, toks, verdict>>

Finish ==
  /\ pc = "run" /\ pos > Len(toks)
  /\ verdict' = Verdict(mach, Env[d], S.l)
  /\ pc' = "done"
  /\ UNCHANGED <<d, i, toks, pos, mach>>

Next == DecodeProof \/ ProofStep \/ Finish
Spec == Init /\ [][Next]_vars

Obs == DBs[d].obs[S.l]
Accept == Obs = verdict \/ (verdict = "any" /\ Obs \in {"error", "incomplete"})
(* Reported once per theorem; the driver demands a report for every theorem. *)
Report == pc = "done" =>
   PrintT("@@" \o ToJson(<<IF Accept THEN "ACCEPT" ELSE "REJECT", d, S.l, verdict, Obs>>))
=============================================================================
