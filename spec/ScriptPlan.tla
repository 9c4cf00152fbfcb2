------------------------------ MODULE ScriptPlan ------------------------------
(* What each session of the file is to show, to record and to carry out.          *)
EXTENDS MMScripts, Json, IOUtils
Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE_FILE))
VARIABLES cs, st
vars == <<cs, st>>
Init == \E c \in 1..Len(Cases) : cs = c /\ st = Start
\* a session that goes on and on (a file that runs itself at its very end) is given up
Endless == Len(st.ev) > 800
Next == ~st.done /\ ~Endless /\ st' = SStep(Cases[cs], st) /\ UNCHANGED cs
Spec == Init /\ [][Next]_vars
Nesting == NestOk(st)
LogComplete == st.log # 0 => st.ev[Len(st.ev)].lg \in {0, st.log}
SilentQuiet == [][Quiet(st, st')]_vars
Report == st.done \/ Endless => PrintT("@@" \o ToJson(<<"PLAN", cs, [endless |-> Endless, ev |-> st.ev, runs |-> st.runs, logs |-> st.lname]>>))
===============================================================================
