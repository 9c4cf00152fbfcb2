------------------------------ MODULE ListTrace ------------------------------
(* Trace validation of proof listings.  One line per database: [db |->         *)
(* statements, obs |-> [theorem |-> <<observation>>]].  An observation is       *)
(*   [what |-> "list", o |-> options, rows |-> rows]                            *)
(*   [what |-> "new", toks, fml, o, rows]: a proof being written, whose steps    *)
(*        and formulas are those of its full listing                             *)
(*   [what |-> "summary", all |-> .., rows |-> ..]                               *)
(*   [what |-> "detail", k |-> step, row |-> ..] or [.., row |-> "refused"]      *)
(*   [what |-> "error"]: the program found the proof wrong                        *)
(*   [what |-> "size", n |-> said, len |-> length of the text given]             *)
EXTENDS MMListing, Json, IOUtils

DBs == TLCEval(ndJsonDeserialize(IOEnv.TRACE_FILE))
Env == TLCEval([e \in 1..Len(DBs) |-> TLCEval(ReadAll(DBs[e].db))])
Thms == {<<d, i>> \in UNION {{<<d, i>> : i \in DOMAIN DBs[d].db} : d \in 1..Len(DBs)} :
            DBs[d].db[i].k = "p"}

VARIABLES d, i, k, steps
vars == <<d, i, k, steps>>
T == DBs[d].db[i].l
Obs == DBs[d].obs[T]

Init == \E t \in Thms : d = t[1] /\ i = t[2] /\ k = 0 /\ steps = [bad |-> TRUE, st |-> <<>>]
Given == k = 0 /\ k' = 1 /\ steps' = Steps(Env[d], T, DBs[d].db[i].pf) /\ UNCHANGED <<d, i>>
Listed == k > 0 /\ k <= Len(Obs) /\ k' = k + 1 /\ UNCHANGED <<d, i, steps>>
Next == Given \/ Listed
Spec == Init /\ [][Next]_vars

(* a depth the driver could not see is -1; a single row in detail has no set order *)
Same(want, got) ==
  /\ Len(want) = Len(got)
  /\ \A j \in DOMAIN want : [want[j] EXCEPT !.d = 0] = [got[j] EXCEPT !.d = 0]
                            /\ (got[j].d = -1 \/ got[j].d = want[j].d)

Complete == Len(steps.st) > 0 /\ \A j \in DOMAIN steps.st : steps.st[j].l # "?"
SameDetail(want, got) ==
  /\ \A x \in {"f", "ty", "tgt", "src", "from", "loc", "hyps", "up", "asr", "hyp"} : want[x] = got[x]
  /\ want.ssub = Elems(got.ssub) /\ Cardinality(want.ssub) = Len(got.ssub)
  /\ want.tsub = Elems(got.tsub) /\ Cardinality(want.tsub) = Len(got.tsub)

Verdict2(o) ==
  IF o.what = "size" THEN (IF o.n = o.len THEN "same" ELSE "size")
  ELSE IF steps.bad THEN (IF o.what = "error" THEN "same" ELSE "skip")
  ELSE
  CASE o.what = "error" -> "error"
    [] o.what = "list" ->
         LET w == TLCEval(Listing(Env[d], T, steps.st, Said(steps.st), o.o)) IN
         IF Same(w, o.rows) THEN (IF Closed(w, o.o) THEN "same" ELSE "open") ELSE ToString(w)
    [] o.what = "new" ->
         LET S == TLCEval(StepsOf(Env[d], T, [f |-> "t", s |-> o.toks], FALSE))
             w == TLCEval(Listing(Env[d], T, S.st, o.fml, o.o)) IN
         IF Len(S.st) # Len(o.fml) THEN "shape"
         ELSE IF Same(w, o.rows) THEN (IF Closed(w, o.o) THEN "same" ELSE "open") ELSE ToString(w)
    [] o.what = "summary" ->
         LET w == TLCEval(Summary(Env[d], T, steps.st, o.all)) IN IF w = o.rows THEN "same" ELSE ToString(w)
    [] o.what = "detail" ->
         IF ~Complete \/ o.k < 1 \/ o.k > Len(steps.st) THEN (IF o.refused THEN "same" ELSE "not refused")
         ELSE IF o.refused THEN "refused"
         ELSE LET w == TLCEval(Detail(Env[d], T, steps.st, o.k)) IN IF SameDetail(w, o.row) THEN "same" ELSE ToString(w)
    [] OTHER -> "what"
Report == k > 1 =>
   LET v == TLCEval(Verdict2(TLCEval(Obs[k - 1]))) IN
   PrintT("@@" \o ToJson(<<IF v \in {"same", "skip"} THEN "ACCEPT" ELSE "REJECT", d, T, k - 1, v>>))
=============================================================================
