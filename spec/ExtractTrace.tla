----------------------------- MODULE ExtractTrace -----------------------------
(* Files written by WRITE SOURCE /EXTRACT.  A case:                              *)
(*   [src, lc |-> label -> characters, q |-> <<[pat, out, was, now]>>]            *)
(* out: what the file holds, in order, as MMExtract writes it; was and now: what   *)
(* the program says of the kept proofs in the whole database and in the extract.   *)
EXTENDS MMExtract, Json, IOUtils
Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE_FILE))
VARIABLES cs, st
vars == <<cs, st>>

Prep(C) ==
  LET D == TLCEval(ReadSrc(C.src))
      ps == {i \in DOMAIN C.src : C.src[i].k = "p"}
      X == TLCEval([l \in {C.src[i].l : i \in ps} |-> Parsed(D, l, C.src[CHOOSE i \in ps : C.src[i].l = l].pf)])
      S == TLCEval([i \in 1..Len(C.src) - 1 |-> [k |-> C.src[i].k, c |-> IF C.src[i].l = "" THEN <<>> ELSE C.lc[C.src[i].l]]])
  IN [D |-> D, X |-> X, S |-> S, ctx |-> TLCEval(Context(C.src))]

Init == \E c \in 1..Len(Cases) : cs = c /\ st = [k |-> 0]
Next == st.k = 0 /\ st' = [k |-> 1, P |-> Prep(Cases[cs])] /\ UNCHANGED cs
Spec == Init /\ [][Next]_vars

NoP == [proving |-> 0, changed |-> {}]
FirstDiff(a, b) == IF \E j \in DOMAIN a : j > Len(b) \/ a[j] # b[j]
                   THEN CHOOSE j \in DOMAIN a : (j > Len(b) \/ a[j] # b[j]) /\ \A h \in 1..j - 1 : a[h] = b[h] ELSE Len(a) + 1
\* the rest of the file: the spare symbols
Rest(out, n, c, v) ==
  LET t == SubSeq(out, n + 1, Len(out))
      need == (IF c = {} THEN <<>> ELSE <<"c">>) \o (IF v = {} THEN <<>> ELSE <<"v">>)
  IN /\ [j \in DOMAIN t |-> t[j].k] = need
     /\ \A j \in DOMAIN t : LET w == IF t[j].k = "c" THEN c ELSE v IN Elems(t[j].b) = w /\ Len(t[j].b) = Cardinality(w)
Verdict1(C, P, q) ==
  LET K == TLCEval(Kept(C.src, P.D, P.X, P.ctx, Select(P.S, NoP, q.pat)))
      W == TLCEval(Extract(C.src, K))
      n == FirstDiff(W, q.out)
  IN IF ~SelfContained(C.src, P.D, K) THEN "the specification is wrong"
     ELSE IF n <= Len(W) THEN "expected " \o ToString(W[n]) \o " at " \o ToString(n) \o " found " \o (IF n > Len(q.out) THEN "the end" ELSE ToString(q.out[n]))
     ELSE IF ~Rest(q.out, Len(W), Spare(C.src, K, "c"), Spare(C.src, K, "v")) THEN "spare symbols " \o ToString(SubSeq(q.out, Len(W) + 1, Len(q.out)))
     ELSE IF q.was # q.now THEN "verdicts"
     ELSE "same"
Report == st.k = 1 =>
  \A j \in DOMAIN Cases[cs].q :
    LET v == TLCEval(Verdict1(Cases[cs], st.P, Cases[cs].q[j])) IN
    PrintT("@@" \o ToJson(<<IF v = "same" THEN "ACCEPT" ELSE "REJECT", cs, j, v>>))
===============================================================================
