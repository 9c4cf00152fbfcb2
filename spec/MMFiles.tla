------------------------------- MODULE MMFiles -------------------------------
(* Directories and the rules for replacing a file.                            *)
(* A directory D maps names to contents.  Writing or deleting a file that     *)
(* exists first moves it to name~1, after moving the unbroken run of older    *)
(* versions one place up; only version Versions may disappear, when the run   *)
(* is full.                                                                   *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

Bak(f, v) == f \o "~" \o ToString(v)
RangeOf(f) == {f[x] : x \in DOMAIN f}
Del(D, f) == [n \in DOMAIN D \ {f} |-> D[n]]
Put(D, f, c) == (f :> c) @@ D

(* ----- what one system call does --------------------------------------------- *)
\* o: [op |-> "rename"|"remove"|"write", a, b, ok]
DoOp(D, o, new) ==
  IF ~o.ok THEN D
  ELSE CASE o.op = "rename" -> IF o.a \in DOMAIN D /\ o.a # o.b THEN Put(Del(D, o.a), o.b, D[o.a]) ELSE D
         [] o.op = "remove" -> Del(D, o.a)
         [] o.op = "write"  -> Put(D, o.a, new)

(* ----- the backup discipline --------------------------------------------------- *)
RunLen(D, f, N) == CHOOSE n \in 0..N : (\A v \in 1..n : Bak(f, v) \in DOMAIN D)
                                     /\ (n = N \/ Bak(f, n + 1) \notin DOMAIN D)
Full(D, f, N) == RunLen(D, f, N) = N
BackupOps(D, f, N) ==
  IF f \notin DOMAIN D THEN <<>>
  ELSE LET n == RunLen(D, f, N)
           m == IF n = N THEN N - 1 ELSE n
       IN (IF n = N THEN <<[op |-> "remove", a |-> Bak(f, N), b |-> "", ok |-> TRUE]>> ELSE <<>>)
          \o [i \in 1..m |-> [op |-> "rename", a |-> Bak(f, m + 1 - i), b |-> Bak(f, m + 2 - i), ok |-> TRUE]]
          \o <<[op |-> "rename", a |-> f, b |-> Bak(f, 1), ok |-> TRUE]>>
Backup(D, f, N) == FoldLeft(LAMBDA E, o : DoOp(E, o, ""), D, BackupOps(D, f, N))

(* a request: [k |-> "w"|"d", f, safe, c] - write or delete f, keeping versions if safe *)
Request(D, r, N) ==
  LET E == IF r.safe THEN Backup(D, r.f, N) ELSE D
  IN IF r.k = "w" THEN Put(E, r.f, r.c) ELSE IF r.f \in DOMAIN E THEN Del(E, r.f) ELSE E

(* ----- nothing is lost ------------------------------------------------------------ *)
(* May the content of name n in D disappear (contents are all different) while     *)
(* requests rs are carried out?                                                     *)
MayLose(D, n, rs, N) ==
  \/ \E r \in rs : r.safe /\ n = Bak(r.f, N) /\ r.f \in DOMAIN D /\ Full(D, r.f, N)
  \/ \E r \in rs : ~r.safe /\ n = r.f
Kept(D0, D, rs, N) == \A n \in DOMAIN D0 : D0[n] \in RangeOf(D) \/ MayLose(D0, n, rs, N)
=============================================================================
