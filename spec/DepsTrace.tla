------------------------------ MODULE DepsTrace ------------------------------
(* Recorded answers of SHOW TRACE_BACK, SHOW USAGE and SHOW LABELS.             *)
(* A case: [stmts, q]; labels in queries are strings, patterns characters; lc    *)
(* maps every label to its characters.                                           *)
EXTENDS MMDeps, MMLabels, Json, IOUtils
Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE_FILE))
VARIABLES cs, st
vars == <<cs, st>>

Prep(C) ==
  LET D == TLCEval(ReadAll(C.stmts))
      ps == {i \in DOMAIN C.stmts : C.stmts[i].k = "p"}
      X == TLCEval([l \in {C.stmts[i].l : i \in ps} |-> Parsed(D, l, C.stmts[CHOOSE i \in ps : C.stmts[i].l = l].pf)])
      \* statement order: "{" and the like count as statements
      S == TLCEval([i \in DOMAIN C.stmts |-> [k |-> C.stmts[i].k, c |-> IF C.stmts[i].l = "" THEN <<>> ELSE C.lc[C.stmts[i].l]]])
  IN [D |-> D, X |-> X, S |-> S, C |-> C]

Names(Q, I) == {Q.C.stmts[i].l : i \in I}
Sel(Q, P, p) == IF p = <<>> THEN {} ELSE Select(Q.S, P, p)
InOrder(Q, L) == SelectSeq([i \in DOMAIN Q.C.stmts |-> Q.C.stmts[i].l], LAMBDA l : l \in L)
NoP == [proving |-> 0, changed |-> {}]

TraceOK(Q, q) ==
  LET want == {i \in Sel(Q, NoP, q.pat) : Q.C.stmts[i].k = "p"}
      to == IF q.to = <<>> THEN {} ELSE Names(Q, {i \in Sel(Q, NoP, q.to) : Q.C.stmts[i].k \in {"a", "p"}})
      shown == IF q.match = <<>> THEN DOMAIN Q.D.frm ELSE Names(Q, Sel(Q, NoP, q.match))
      one(g) ==
        LET R == IF q.to # <<>> /\ to = {} THEN {g.T} ELSE Trace(Q.D, Q.X, g.T, q.ess, to)
            L == {l \in R \ {g.T} : l \in shown /\ (q.ax => Q.D.frm[l].k = "a")}
        IN /\ g.got = InOrder(Q, L)
           /\ {g.unp[i] : i \in DOMAIN g.unp} = {l \in R : Gap(Q.X, l, q.ess)}
  IN /\ [i \in DOMAIN q.ans |-> q.ans[i].T] = InOrder(Q, Names(Q, want))
     /\ \A i \in DOMAIN q.ans : one(q.ans[i])

UsageOK(Q, q) ==
  LET want == {i \in Sel(Q, NoP, q.pat) : Q.C.stmts[i].k \in {"a", "p"} \/ q.all \/ ~(Has(q.pat, "*") \/ Has(q.pat, "?"))}
      by(l) == (IF q.rec THEN Affects(Q.D, Q.X, {l}) ELSE Direct(Q.D, Q.X, l)) \ {l}
  IN /\ [i \in DOMAIN q.ans |-> q.ans[i].l] = InOrder(Q, Names(Q, want))
     /\ \A i \in DOMAIN q.ans : q.ans[i].got = InOrder(Q, by(q.ans[i].l)) /\ q.ans[i].cnt = Cardinality(by(q.ans[i].l))

\* the tree: each proof is opened once; its lines name what it uses
TreeOK(Q, q) ==
  LET R == Reach(Q.D, Q.X, {q.T}, DOMAIN Q.D.frm, q.ess)
      opened == R \cap DOMAIN Q.X
      edges == {<<p, c>> : p \in opened, c \in R}
  IN /\ {<<q.edges[i][1], q.edges[i][2]>> : i \in DOMAIN q.edges} = {e \in edges : e[2] \in Uses(Q.D, Q.X, e[1], q.ess)}
     /\ Len(q.edges) = Cardinality({e \in edges : e[2] \in Uses(Q.D, Q.X, e[1], q.ess)})
     /\ {q.unp[i] : i \in DOMAIN q.unp} = {l \in opened : Gap(Q.X, l, q.ess)}

CountOK(Q, q) ==
  LET K == TLCEval(Counts(Q.D, Q.X, q.ess))
      R == Reach(Q.D, Q.X, {q.T}, DOMAIN Q.D.frm, q.ess)
      sub == (R \ {q.T}) \cap DOMAIN Q.X
      occ(l) == FoldLeft(LAMBDA a, T : a + Cardinality({i \in Steps(Q.X, T, q.ess) : Q.X[T].toks[i] = [t |-> "lab", v |-> l]}), 0, SetToSeq(R \cap DOMAIN Q.X))
      many == {l \in sub : occ(l) > 1}
      sum(f(_), A) == FoldLeft(LAMBDA a, l : a + f(l), 0, SetToSeq(A))
      pl(l) == K[l].plen
      less(l) == K[l].plen - 1 - HypCount(Q.D, l, q.ess)
      nx(i) == LabsOf(Q.X, q.path[i], q.ess)
      n == Len(q.num)
      first3 == 100 * q.num[n] + 10 * q.num[n - 1] + q.num[n - 2]
  IN /\ q.num = K[q.T].num
     /\ q.about = IF n < 6 THEN <<>> ELSE <<(first3 + 5) \div 10, n - 1>>
     /\ q.far = K[q.T].far
     /\ q.plen = K[q.T].plen
     /\ q.subs = Cardinality(sub) /\ q.subs2 = Cardinality(many)
     /\ q.tot = pl(q.T) + sum(pl, sub)
     /\ q.tot2 = pl(q.T) + sum(pl, many) + sum(less, sub \ many)
     /\ q.far >= 0 => /\ Len(q.path) = q.far + 1 /\ q.path[1] = q.T
                      /\ \A i \in 1..q.far : q.path[i] \in DOMAIN Q.X /\ q.path[i + 1] \in nx(i)
                      /\ q.path[q.far + 1] \in DOMAIN Q.X => K[q.path[q.far + 1]].far = 0   \* (a path to a gap counts from -2)

LabelsOK(Q, q) ==
  LET P == [proving |-> q.proving, changed |-> {q.changed[i] : i \in DOMAIN q.changed}]
      want == {i \in Select(Q.S, P, q.pat) : Q.C.stmts[i].k \in {"a", "p"} \/ q.all}
  IN /\ {q.ans[i][1] : i \in DOMAIN q.ans} = want /\ Len(q.ans) = Cardinality(want)
     /\ \A i \in DOMAIN q.ans : q.ans[i][1] \in want => q.ans[i][2] = Q.C.stmts[q.ans[i][1]].l /\ q.ans[i][3] = Q.C.stmts[q.ans[i][1]].k
     /\ \A i \in 1..(Len(q.ans) - 1) : q.ans[i][1] < q.ans[i + 1][1]

OK(Q, q) == CASE q.t = "trace" -> TraceOK(Q, q) [] q.t = "usage" -> UsageOK(Q, q) [] q.t = "tree" -> TreeOK(Q, q)
              [] q.t = "count" -> CountOK(Q, q) [] q.t = "labels" -> LabelsOK(Q, q)
Init == cs \in 1..Len(Cases) /\ st = <<>>
Next == /\ st = <<>>
        /\ LET Q == Prep(Cases[cs]) IN st' = <<IF \E l \in DOMAIN Q.X : Q.X[l].odd THEN {}
                                               ELSE {i \in DOMAIN Cases[cs].q : ~OK(Q, Cases[cs].q[i])}>>
        /\ UNCHANGED cs
Spec == Init /\ [][Next]_vars
Report == st # <<>> => PrintT("@@" \o ToJson(<<IF st[1] = {} THEN "ACCEPT" ELSE "REJECT", cs, st[1]>>))
=============================================================================
