------------------------------ MODULE ToolTrace ------------------------------
(* Trace validation of sessions with the text tools.  A case is [dir, steps];   *)
(* a step is [c |-> command, a |-> arguments, dir |-> the directory afterwards,   *)
(* out |-> the lines shown].  A directory is a list of [n |-> name, l, nl].        *)
EXTENDS MMTools, Json, IOUtils
Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE_FILE))
DirOf(q) == [n \in {q[i].n : i \in DOMAIN q} |-> LET x == q[CHOOSE i \in DOMAIN q : q[i].n = n] IN [l |-> x.l, nl |-> x.nl]]

VARIABLES cs, k, D, verdict
vars == <<cs, k, D, verdict>>
S == Cases[cs].steps
Init == \E c \in 1..Len(Cases) : cs = c /\ k = 0 /\ D = DirOf(Cases[c].dir) /\ verdict = "ok"

\* the warning about a file with an odd number of lines is not judged
Heard(q) == SelectSeq(q, LAMBDA s : ~(Has(s, "Warning: file ") /\ Has(s, "has an odd number of lines")))
\* in a line of its own, an error: it begins with ?
Error(q) == \E i \in DOMAIN q : q[i] # "" /\ Ch(q[i], 1) = "?"
Judge(r, s, got) ==
  IF r.refused THEN IF ~Error(s.out) THEN "not refused" ELSE IF got # r.d THEN "refused, but files changed" ELSE "ok"
  ELSE IF r.open THEN IF DOMAIN got # DOMAIN r.d THEN "the names of the files" ELSE "ok"
  ELSE IF got # r.d THEN "the files"
  ELSE IF Heard(s.out) # r.out THEN "what is said"
  ELSE "ok"
Step ==
  /\ k < Len(S) /\ verdict = "ok"
  /\ k' = k + 1
  /\ LET s == S[k + 1]
         got == DirOf(s.dir)
         r == TLCEval(ToolStep(D, s.c, s.a, got))
         v == Judge(r, s, got)
     IN /\ verdict' = IF v = "ok" THEN "ok" ELSE v
        /\ D' = IF v = "ok" THEN got ELSE r.d
        /\ IF v = "ok" THEN TRUE ELSE PrintT("@@" \o ToJson(<<"REJECT", cs, k + 1, v, r.out,
              [n \in {m \in DOMAIN r.d : m \notin DOMAIN got \/ got[m] # r.d[m]} |-> r.d[n].l]>>))
  /\ UNCHANGED cs
Next == Step
Spec == Init /\ [][Next]_vars
\* only the command's own output and its versions differ from the directory before
Frame == [][\A n \in DOMAIN D : n \in DOMAIN D' \/ OutName(n) # n \/ verdict' # "ok"]_vars
Report == (k = Len(S) /\ verdict = "ok") => PrintT("@@" \o ToJson(<<"ACCEPT", cs>>))
=============================================================================
