----------------------------- MODULE WriteTrace -----------------------------
(* Recorded sessions READ, WRITE SOURCE ..., with the directory after each     *)
(* session.  A case: dir [[name, pieces]], steps; a step:                      *)
(*   [main, writes [[out, split, keep, safe]], end [[name, text]]]       *)
EXTENDS MMWrite, Json, IOUtils
CONSTANT N
Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE_FILE))
Fn(s) == [n \in {s[e][1] : e \in DOMAIN s} |-> (CHOOSE x \in {s[e] : e \in DOMAIN s} : x[1] = n)[2]]
Start == TLCEval([e \in 1..Len(Cases) |-> Fn(Cases[e].dir)])

VARIABLES cs, pos, sub, dir, buf, why
vars == <<cs, pos, sub, dir, buf, why>>
C == Cases[cs]
St == C.steps[pos]
Init == cs \in 1..Len(Cases) /\ pos = 1 /\ sub = 0 /\ dir = Start[cs] /\ buf = <<>> /\ why = ""

ReadF == /\ why = "" /\ pos <= Len(C.steps) /\ sub = 0
         /\ LET X == Read(dir, St.main) IN
            /\ buf' = X.out
            /\ sub' = IF X.miss THEN Len(St.writes) + 1 ELSE 1     \* nothing is written when the source was not read
            /\ why' = ""
         /\ UNCHANGED <<cs, pos, dir>>
WriteF == /\ why = "" /\ pos <= Len(C.steps) /\ sub \in 1..Len(St.writes)
          /\ dir' = Write(dir, buf, St.writes[sub], N)
          /\ sub' = sub + 1 /\ UNCHANGED <<cs, pos, buf, why>>
Names(x) == {x[e][1] : e \in DOMAIN x}
Versions == {Bak(n, v) : n \in DOMAIN dir \cup Names(St.end), v \in 1..10}
Look == /\ why = "" /\ pos <= Len(C.steps) /\ sub = Len(St.writes) + 1
        /\ LET got == Fn(St.end)
               diff == {n \in DOMAIN dir \cup DOMAIN got : n \notin DOMAIN dir \/ n \notin DOMAIN got \/ Str(dir[n]) # got[n]}
           IN why' = IF diff = {} THEN "" ELSE IF diff \subseteq Versions THEN "versions" ELSE "contents of " \o ToString(diff \ Versions)
        /\ pos' = pos + 1 /\ sub' = 0 /\ UNCHANGED <<cs, dir, buf>>
Next == ReadF \/ WriteF \/ Look
Spec == Init /\ [][Next]_vars
Report == (why # "" \/ pos > Len(C.steps)) =>
   PrintT("@@" \o ToJson(<<IF why = "" THEN "ACCEPT" ELSE "REJECT", cs, pos - 1, why>>))
=============================================================================
