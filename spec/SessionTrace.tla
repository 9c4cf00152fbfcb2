---------------------------- MODULE SessionTrace ----------------------------
(* Trace validation of whole sessions.  Input (TRACE_FILE, ndjson), one line  *)
(* per session: [files, cmt, syntax, tr]; cmt: for each of the two texts, label -> the     *)
(* words of the comment before the statement; tr: commands with what could be seen after each.      *)
EXTENDS MMSession, Json, IOUtils

Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE_FILE))

ProofMark == <<"(Proof", "modification", "is", "discouraged.)">>
UsageMark == <<"(New", "usage", "is", "discouraged.)">>
Has(ws, mark) == \E i \in 1..(Len(ws) - 3) : SubSeq(ws, i, i + 3) = mark

PD == TLCEval([i \in DOMAIN Cases |-> [v \in {1, 2} |-> {l \in DOMAIN Cases[i].cmt[v] : Has(Cases[i].cmt[v][l], ProofMark)}]])
UD == TLCEval([i \in DOMAIN Cases |-> [v \in {1, 2} |-> {l \in DOMAIN Cases[i].cmt[v] : Has(Cases[i].cmt[v][l], UsageMark)}]])

Syn == TLCEval([i \in DOMAIN Cases |-> ToSet(Cases[i].syntax)])

VARIABLES case, k, S, why
vars == <<case, k, S, why>>
C == Cases[case]
Cmd == C.tr[k + 1]

(* what can be seen of a state *)
Labs(st) == [l \in DOMAIN st |-> st[l].p]
Seen(s) == [mode |-> s.mode, store |-> IF s.mode = "end" THEN <<>> ELSE IF s.loaded THEN Labs(s.store) ELSE Labs(Nothing),
            pip |-> IF s.mode = "pa" THEN s.pip ELSE <<>>, files |-> s.files]

(* SHOW DISCOURAGED lists the marked statements and who uses them *)
Users(l) == {t \in DOMAIN S.store : l \in Elems(S.store[t].p)}
Listed ==
  S.loaded =>
    /\ Elems(Cmd.mods) = PD[case][S.v] \cap DOMAIN S.store
    /\ Elems(Cmd.uses) = {[l |-> l, n |-> Cardinality(Users(l))] : l \in UD[case][S.v]}
    /\ Elems(Cmd.by) = UNION {{[l |-> l, t |-> t] : t \in Users(l)} : l \in UD[case][S.v]}

Out == {o \in Outcomes(S, Cmd, PD[case][S.v], UD[case][S.v]) : Seen(o.s) = Cmd.seen /\ o.asked = Cmd.asked}

Init == /\ case \in DOMAIN Cases /\ k = 0 /\ why = ""
        /\ S = SNew(Cases[case].files)

Step ==
  /\ why = "" /\ k < Len(C.tr)
  /\ k' = k + 1
  /\ UNCHANGED case
  /\ IF Cmd.c = "edit" /\ ~EditAllowed(S, Cmd, UD[case][S.v], Syn[case]) THEN why' = "guard-edit" /\ UNCHANGED S
     ELSE IF Cmd.c = "other" /\ "mods" \in DOMAIN Cmd /\ ~Listed
          THEN why' = "discouraged-list" /\ UNCHANGED S
     ELSE IF Out = {} THEN
          /\ why' = IF Cmd.c \in {"prove", "savenew"} /\ (IF Cmd.c = "prove" THEN Cmd.t ELSE S.thm) \in PD[case][S.v] THEN "guard-proof" ELSE Cmd.c
          /\ UNCHANGED S
     ELSE why' = "" /\ S' = (CHOOSE o \in Out : TRUE).s

Spec == Init /\ [][Step]_vars
Over == why # "" \/ k = Len(C.tr)
Report == Over => PrintT("@@" \o ToJson(<<IF why = "" THEN "ACCEPT" ELSE "REJECT", case, k, why>>))
=============================================================================
