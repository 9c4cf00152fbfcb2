----------------------------- MODULE FilesTrace -----------------------------
(* Recorded file operations against MMFiles.  A case is one command (or one   *)
(* command with a failing or killing call):                                   *)
(*   dir   [[name, content]] before, all contents different                   *)
(*   ops   the calls made, in order;  end  [[name, content]] afterwards       *)
(*   reqs  the requests the command stands for, in order                      *)
(*   fault a call was made to fail, or the program was killed at one          *)
(*   free  names the command may use as it likes (its own temporary files)    *)
EXTENDS MMFiles, Json, IOUtils
CONSTANT N
Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE_FILE))
Fn(s) == [n \in {s[e][1] : e \in DOMAIN s} |-> (CHOOSE x \in {s[e] : e \in DOMAIN s} : x[1] = n)[2]]
Start == TLCEval([e \in 1..Len(Cases) |-> Fn(Cases[e].dir)])
End == TLCEval([e \in 1..Len(Cases) |-> Fn(Cases[e].end)])

VARIABLES cs, pos, dir, why
vars == <<cs, pos, dir, why>>
C == Cases[cs]
Reqs == {C.reqs[e] : e \in DOMAIN C.reqs}
NewC(o) == "new " \o o.a          \* what is written over a name is not recorded

Init == cs \in 1..Len(Cases) /\ pos = 0 /\ dir = Start[cs] /\ why = "ok"

Step == /\ why = "ok" /\ pos < Len(C.ops)
        /\ pos' = pos + 1
        /\ dir' = DoOp(dir, C.ops[pos + 1], NewC(C.ops[pos + 1]))
        /\ why' = IF Kept(Start[cs], dir', Reqs, N) THEN "ok" ELSE "content lost at call " \o ToString(pos + 1)
        /\ UNCHANGED cs
\* the directory at the end is the one the calls make and, without a fault, the one the requests ask for
Clean(D) == [n \in DOMAIN D \ {C.free[e] : e \in DOMAIN C.free} |-> D[n]]
Want == FoldLeft(LAMBDA E, r : Request(E, r, N), Start[cs], C.reqs)
Same(D, E) == DOMAIN D = DOMAIN E /\ \A n \in DOMAIN D : D[n] = E[n] \/ (D[n] = "new" /\ E[n] \notin RangeOf(Start[cs]))
Judge == /\ why = "ok" /\ pos = Len(C.ops) /\ pos' = pos + 1
         /\ why' = IF ~Same(End[cs], dir) THEN "calls not accounted for"
                   ELSE IF ~Kept(Start[cs], End[cs], Reqs, N) THEN "content lost"
                   ELSE IF ~C.fault /\ ~Same(Clean(End[cs]), Clean(Want)) THEN "not the directory asked for"
                   ELSE IF C.fault /\ \E r \in Reqs : C.answer = "done" /\ ~Same(Clean(End[cs]), Clean(Want)) THEN "failure not reported"
                   ELSE "done"
         /\ UNCHANGED <<cs, dir>>
Next == Step \/ Judge
Spec == Init /\ [][Next]_vars
Report == (why # "ok") =>
   PrintT("@@" \o ToJson(<<IF why = "done" THEN "ACCEPT" ELSE "REJECT", cs, why>>))
=============================================================================
