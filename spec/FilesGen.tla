------------------------------ MODULE FilesGen ------------------------------
(* All directories of one file and its numbered versions, all sequences of    *)
(* safe writes and deletions, a crash at every system call, and writing again  *)
(* afterwards.                                                                *)
EXTENDS MMFiles, Json
CONSTANTS N, MaxWrites

VARIABLES dir, start, todo, req, age, crashes, first
vars == <<dir, start, todo, req, age, crashes, first>>
F == "f"
Name(v) == IF v = 0 THEN F ELSE Bak(F, v)
NoReq == [k |-> "none", f |-> F, safe |-> TRUE, c |-> 0]

\* contents are numbers, higher = newer
Init == \E S \in SUBSET (0..(N + 1)) :
  /\ dir = [n \in {Name(v) : v \in S} |-> 100 - (CHOOSE v \in S : n = Name(v))]
  /\ start = dir /\ first = dir /\ todo = <<>> /\ req = NoReq /\ age = 100 /\ crashes = 0

Begin == \E k \in {"w", "d"} :
  /\ req = NoReq /\ age < 100 + MaxWrites
  /\ k = "d" => F \in DOMAIN dir
  /\ age' = age + 1
  /\ req' = [k |-> k, f |-> F, safe |-> TRUE, c |-> age + 1]
  /\ todo' = BackupOps(dir, F, N) \o (IF k = "w" THEN <<[op |-> "write", a |-> F, b |-> "", ok |-> TRUE]>> ELSE <<>>)
  /\ start' = dir /\ UNCHANGED <<dir, crashes, first>>
Call == /\ todo # <<>> /\ dir' = DoOp(dir, Head(todo), req.c) /\ todo' = Tail(todo)
        /\ UNCHANGED <<start, req, age, crashes, first>>
Done == /\ req # NoReq /\ todo = <<>> /\ req' = NoReq /\ UNCHANGED <<dir, start, todo, age, crashes, first>>
Crash == /\ todo # <<>> /\ crashes < 1 /\ crashes' = crashes + 1 /\ todo' = <<>> /\ req' = NoReq
         /\ start' = dir /\ UNCHANGED <<dir, age, first>>
Next == Begin \/ Call \/ Done \/ Crash
Spec == Init /\ [][Next]_vars

NoLoss == Kept(start, dir, {req}, N)
\* the numbered versions stay in order of age
InOrder == \A v, w \in 0..(N + 1) : v < w /\ Name(v) \in DOMAIN dir /\ Name(w) \in DOMAIN dir => dir[Name(v)] > dir[Name(w)]
Finished == req # NoReq /\ todo = <<>> =>
  /\ dir = Request(start, req, N)
  /\ F \in DOMAIN start => dir[Bak(F, 1)] = start[F]
Report == req # NoReq /\ todo = <<>> /\ age = 101 /\ start = first =>
  PrintT("@@" \o ToJson(<<"CASE", req.k, {<<n, start[n]>> : n \in DOMAIN start}, {<<n, dir[n]>> : n \in DOMAIN dir}>>))
=============================================================================
