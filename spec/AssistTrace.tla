---------------------------- MODULE AssistTrace ----------------------------
(* Trace validation of the Proof Assistant.  Input (TRACE_FILE, ndjson), one *)
(* line per session: [db, thm, truth, W, st, start, tr, lc].  st: the distinct   *)
(* proof states seen; tr: the commands, each with the state after it.        *)
EXTENDS MMMinimize, MMUndo, Json, IOUtils

Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE_FILE))
Bases == TLCEval([i \in DOMAIN Cases |-> TLCEval(ReadAll(Cases[i].db))])

VARIABLES case, k, U, why
vars == <<case, k, U, why>>
cur == UCur(U)

C == Cases[case]
D == Bases[case]
T == C.thm
W == Elems(C.W)
Cmd == C.tr[k + 1]
S(i) == C.st[i]
Truth == C.truth

(* states on track, computed once per session and state *)
Track == TLCEval([i \in DOMAIN Cases |-> TLCEval([j \in DOMAIN Cases[i].st |->
   Cases[i].truth # <<>> /\
   ~Shape(Bases[i], Cases[i].thm, Labels(Cases[i].st[j])).bad /\
   OnTrack(Bases[i], Cases[i].thm, Cases[i].st[j], Cases[i].truth, Elems(Cases[i].W))])])
On(i) == Track[case][i]

(* ----- mathboxes: 0 is the main part, -1 from the statement called "mathbox" to the first heading *)
Box(l) == IF l \in DOMAIN C.mb THEN C.mb[l] ELSE 0
Elsewhere(l) == Box(l) >= 1 /\ Box(l) # Box(T)

(* ----- which step an argument means ---------------------------------------- *)
Resolve(s, a) ==
  IF a.k = "num" THEN IF a.n \in 1..Len(s) THEN a.n ELSE 0
  ELSE LET sh == Shape(D, T, Labels(s))
           E == SetToSortSeq(Essential(D, T, s, sh) \cap Unknowns(s), <)
           n == Len(E) IN
       IF a.n >= n THEN 0
       ELSE IF a.k = "fwd" THEN E[a.n + 1] ELSE E[n - a.n]

(* complete subproofs are fully worked out, unless they prove nothing         *)
Checker == INSTANCE MMProof
NoDv == [D EXCEPT !.frm = [l \in DOMAIN D.frm |-> [D.frm[l] EXCEPT !.dv = {}]]]
KnownDone(s) ==
  LET sh == Shape(D, T, Labels(s)) IN
  \A i \in DOMAIN s : CompleteAt(s, sh, i) =>
     \/ \A j \in sh.first[i]..(i - 1) : s[j].t = s[j].s
     \/ Checker!PRun(Checker!PInit, NoDv, T, [j \in 1..(i - sh.first[i] + 1) |-> Checker!NormalTok(s[sh.first[i] + j - 1].l)]).bad
     \/ \E a \in (i + 1)..Len(s) : sh.first[a] <= i /\ CompleteAt(s, sh, a)

(* ----- the relation each command stands for --------------------------------- *)
Same == Cmd.s = cur
Ground(m) == WIn(m, W) = {}
Congratulated == Cmd.cong = Done(S(Cmd.s))

AssignOk(i) ==
  LET s == S(cur) t == S(Cmd.s) IN
  /\ i # 0
  /\ "note" \in DOMAIN Cmd => Cmd.note = IF Elsewhere(Cmd.l) THEN Box(Cmd.l) ELSE 0
  /\ Assigned(D, T, s, t, i, Cmd.l, W)
  /\ Sound(D, T, t)
  /\ Ground(s[i].t) =>
       IF IsHyp(D, T, Cmd.l) THEN s[i].t = HypFor(D, T, Cmd.l).m
       ELSE MatchAll(D.frm[Cmd.l].m, s[i].t, D.frm[Cmd.l].vars, <<>>) # {}
  /\ On(cur) /\ Cmd.l = TrueLabel(D, T, s, Truth, i) /\ ~Cmd.acc => On(Cmd.s) /\ Settled(t, W)
  /\ Congratulated

AssignNo(i) ==
  /\ Same
  /\ CASE Cmd.w = "range"   -> i = 0
       [] Cmd.w = "already" -> i # 0 /\ S(cur)[i].l # "?"
       [] Cmd.w = "nolabel" -> ~IsHyp(D, T, Cmd.l) /\ ~IsAssert(D, T, Cmd.l)
       [] Cmd.w = "nounify" ->
            /\ i # 0 /\ S(cur)[i].l = "?"
            /\ ~(On(cur) /\ Cmd.l = TrueLabel(D, T, S(cur), Truth, i))
            /\ ~(IsHyp(D, T, Cmd.l) /\ S(cur)[i].t = HypFor(D, T, Cmd.l).m /\ S(cur)[i].u = <<>>)
       [] OTHER -> FALSE

LetStepOk(i) ==
  LET s == S(cur) t == S(Cmd.s) IN
  /\ i # 0
  /\ SameShape(s, t)
  /\ t[i].u # <<>>
  /\ LET s1 == [s EXCEPT ![i].u = Cmd.f] IN Refined(s1, t, W)
  /\ Sound(D, T, t)
  /\ Ground(s[i].t) /\ Ground(Cmd.f) => s[i].t = Cmd.f
  /\ On(cur) /\ Cmd.f = TrueFormula(D, T, s, Truth, i) => On(Cmd.s) /\ Settled(t, W)
  /\ Congratulated
LetStepNo(i) ==
  /\ Same
  /\ \/ i = 0
     \/ ~(On(cur) /\ Cmd.f = TrueFormula(D, T, S(cur), Truth, i))

LetVarOk ==
  LET s == S(cur) t == S(Cmd.s)
      x == (Cmd.v :> Cmd.f)
      s1 == [i \in DOMAIN s |-> [s[i] EXCEPT !.t = Put(@, x), !.s = Put(@, x), !.u = Put(@, x)]]
  IN /\ Refined(s1, t, W)
     /\ Sound(D, T, t)
     /\ Congratulated
     /\ On(cur) /\ Cmd.true => On(Cmd.s) /\ Settled(t, W)
LetVarNo == Same /\ Cmd.v \notin WorkVars(S(cur), W)

(* nothing is left to unify at a step *)
Whole(n) == IF n.u # <<>> THEN n.t = n.u /\ n.s \in {<<>>, n.u} ELSE n.s \in {<<>>, n.t}

UnifyOk ==
  LET s == S(cur) t == S(Cmd.s) IN
  /\ "st" \in DOMAIN Cmd => (Cmd.al <=> Whole(s[Cmd.st]))
  /\ Refined(s, t, W)
  /\ Sound(D, T, t)
  /\ On(cur) /\ ~Cmd.acc => On(Cmd.s) /\ Settled(t, W)

ImproveOk(i) ==
  LET s == S(cur) t == S(Cmd.s) IN
  /\ Improved(D, T, s, t, W, i, Cmd.sub, Cmd.deep)
  /\ Sound(D, T, t)
  /\ Congratulated
  /\ Cmd.nod => \A l \in Used(t) \ Used(s) : l \in DOMAIN D.frm => D.frm[l].dv = {}
  /\ Cmd.inc \/ \A l \in Used(t) \ Used(s) : IsAssert(D, T, l) => ~Elsewhere(l)

(* a step with a definite formula that a hypothesis states, or that statements *)
(* without essential hypotheses prove, is always found                         *)
Easy(s, j) ==
  /\ Ground(s[j].t)
  /\ \/ \E h \in Elems(HypsOf(D, T)) : h.m = s[j].t
     \/ LET sh == Shape(D, T, Labels(s))
            tsh == Shape(D, T, [x \in DOMAIN Truth |-> Truth[x].l])
            A == Aligned(D, T, s, sh, Truth, tsh) IN
        /\ On(cur) /\ j \in DOMAIN A
        /\ \A x \in tsh.first[A[j]]..A[j] :
             LET l == Truth[x].l IN
             IsHyp(D, T, l) \/ /\ \A y \in DOMAIN D.frm[l].hyps : D.frm[l].hyps[y].k = "f"
                               /\ Cmd.nod => D.frm[l].dv = {}
                               /\ Cmd.inc \/ Box(l) \in {0, Box(T)}
AllEasyFound(s, t) ==
  LET A == Carried(s, t, Shape(D, T, Labels(s)), Shape(D, T, Labels(t))) IN
  \A j \in Unknowns(s) : Easy(s, j) => j \notin DOMAIN A \/ t[A[j]].l # "?"

ReplaceOk(i) ==
  LET s == S(cur) t == S(Cmd.s) e == i + Len(t) - Len(s)
      sh == Shape(D, T, Labels(s)) th == Shape(D, T, Labels(t))
      was(j) == IF j < th.first[e] THEN j ELSE j + i - e
      (* a subproof completed by the replacement, or complete but not unified, is worked out afresh *)
      redone == UNION {th.first[x]..x : x \in {y \in DOMAIN t :
                   /\ CompleteAt(t, th, y)
                   /\ \/ y > e /\ th.first[y] <= e
                      \/ \E j \in th.first[y]..y : ~(j \in th.first[e]..e) /\ ~Unified(s[was(j)])}} IN
  /\ i # 0
  /\ KeptBut(s, t, sh.first[i], i, e, W, redone)
  /\ t[e].l = Cmd.l
  /\ Sound(D, T, t)

(* MATCH lists statements that fit, the true one among them, and assigns the choice *)
MatchOk(i) ==
  LET s == S(cur) t == S(Cmd.s) opts == Elems(Cmd.opts) IN
  /\ i # 0 /\ s[i].l = "?"
  /\ \A l \in opts : IsHyp(D, T, l) \/ IsAssert(D, T, l)
  /\ \A e \in {s[i].t, s[i].u} \ {<<>>} : Ground(e) => \A l \in opts :
       IF IsHyp(D, T, l) THEN e = HypFor(D, T, l).m
       ELSE MatchAll(D.frm[l].m, e, D.frm[l].vars, <<>>) # {}
  /\ On(cur) /\ TrueLabel(D, T, s, Truth, i) # "?" => TrueLabel(D, T, s, Truth, i) \in opts
  /\ Len(Cmd.opts) = 1 => Cmd.l # ""
  /\ IF Cmd.l = "" THEN UnifyOk ELSE Cmd.l \in opts /\ AssignOk(i)

(* SAVE stores the steps as they are; the verifier then judges that proof *)
Saved ==
  LET s == S(cur) J == Checker!Judge(D, T, [f |-> "n", s |-> Labels(s)]) IN
  /\ Same
  /\ Cmd.pf = Labels(s) /\ Cmd.npf = Labels(s)
  /\ Cmd.v = J \/ (J = "any" /\ Cmd.v \in {"error", "incomplete"})

(* shortening and expanding; the other theorems' proofs are as they were read *)
Stored == TLCEval([i \in DOMAIN Cases |->
  LET ps == {j \in DOMAIN Cases[i].db : Cases[i].db[j].k = "p" /\ Cases[i].db[j].l # Cases[i].thm} IN
  [l \in {Cases[i].db[j].l : j \in ps} |-> Cases[i].db[CHOOSE j \in ps : Cases[i].db[j].l = l].pf.s]])
Order == TLCEval([i \in DOMAIN Cases |-> Latest(Bases[i], DOMAIN Stored[i])])

MinimizeOk ==
  LET far == IF Cmd.q.inc \/ Box(T) < 1 THEN {} ELSE {l \in DOMAIN C.mb : Box(l) # 0 /\ Box(l) # Box(T)} IN
  /\ Minimized(D, T, Stored[case], Order[case], C.lc, far, Cmd.q, S(cur), S(Cmd.s), W)
  /\ Cmd.q.left => ~Cmd.q.inc /\ "mathbox" \in DOMAIN C.mb
  /\ Box(T) >= 1 /\ ~Cmd.q.inc => Cmd.q.left
  /\ Sound(D, T, S(Cmd.s))
ExpandOk ==
  LET K == {l \in Picks(C.lc, Cmd.pat) : l \in DOMAIN Stored[case] /\ IsAssert(D, T, l)}
      s == S(cur) t == S(Cmd.s) IN
  /\ IF Elems(Labels(s)) \cap K = {} THEN t = s /\ ~Cmd.ok
     ELSE /\ Labels(t) = Expanded(D, T, Stored[case], Labels(s), K)
          /\ Cmd.ok = (Labels(t) # Labels(s))
          /\ Cmd.ok => Sound(D, T, t) /\ KnownDone(t)

(* pushes the new state on the undo stack *)
Pushing ==
  CASE Cmd.c \in {"unify"} -> Cmd.s # cur
    [] Cmd.c = "improve" -> Cmd.ok
    [] Cmd.c \in {"undo", "redo", "setundo", "show", "save"} -> FALSE
    [] OTHER -> Cmd.ok

Legal ==
  LET s == S(cur) t == S(Cmd.s)
      i == IF "a" \in DOMAIN Cmd THEN Resolve(s, Cmd.a) ELSE 0 IN
  CASE Cmd.c = "assign" -> IF Cmd.ok THEN AssignOk(i) ELSE AssignNo(i)
    [] Cmd.c = "delete" -> IF Cmd.ok THEN i # 0 /\ Deleted(D, T, s, t, i)
                           ELSE Same /\ (i = 0 \/ s[i].l = "?")
    [] Cmd.c = "deletefloat" -> IF Cmd.ok THEN t # s /\ FloatDeleted(D, T, s, t) ELSE Same /\ FloatDeleted(D, T, s, s)
    [] Cmd.c = "letstep" -> IF Cmd.ok THEN LetStepOk(i) ELSE LetStepNo(i)
    [] Cmd.c = "letvar" -> IF Cmd.ok THEN LetVarOk ELSE LetVarNo
    [] Cmd.c = "unify" -> UnifyOk
    [] Cmd.c = "initstep" -> IF Cmd.ok THEN i # 0 /\ StepInitialized(D, T, s, t, i, W) /\ Sound(D, T, t) /\ (On(cur) /\ Straight(D, T, s, Truth) => On(Cmd.s)) ELSE Same /\ i = 0
    [] Cmd.c = "initall" -> /\ SameShape(s, t) /\ Sound(D, T, t) /\ KnownDone(t)
                            /\ \A j \in DOMAIN s : s[j].u = t[j].u
                            /\ (On(cur) /\ Straight(D, T, s, Truth) => On(Cmd.s))
    [] Cmd.c = "inituser" -> t = [j \in DOMAIN s |-> [s[j] EXCEPT !.u = <<>>]]
    [] Cmd.c = "improve" -> /\ IF Cmd.ok THEN ImproveOk(i) ELSE Same
                            /\ Cmd.all => AllEasyFound(s, t)
    [] Cmd.c = "replace" -> IF Cmd.ok THEN ReplaceOk(i) ELSE Same
    [] Cmd.c = "minimize" -> MinimizeOk
    [] Cmd.c = "expand" -> ExpandOk
    [] Cmd.c = "undo" -> Cmd.s = UCur(UUndo(U)) /\ Cmd.msg = UndoSays(U)
    [] Cmd.c = "redo" -> Cmd.s = UCur(URedo(U)) /\ Cmd.msg = RedoSays(U)
    [] Cmd.c \in {"setundo", "show"} -> Same
    [] Cmd.c = "save" -> Saved
    [] Cmd.c = "match" -> IF Cmd.ok THEN MatchOk(i) ELSE Same /\ (i = 0 \/ s[i].l # "?")
    [] OTHER -> FALSE

Init ==
  /\ case \in DOMAIN Cases
  /\ k = 0 /\ U = UNew(C.start, C.lim)
  /\ why = IF /\ Sound(D, T, S(C.start)) /\ KnownAssigned(D, T, S(C.start))
              /\ Labels(S(C.start)) = C.proof
           THEN "" ELSE "start"

Step ==
  /\ why = "" /\ k < Len(C.tr)
  /\ IF Legal
     THEN /\ why' = ""
          /\ U' = CASE Pushing -> UPush(U, Cmd.s, Cmd.txt)
                    [] Cmd.c = "undo" -> UUndo(U)
                    [] Cmd.c = "redo" -> URedo(U)
                    [] Cmd.c = "setundo" -> UResize(U, Cmd.n)
                    [] OTHER -> U
     ELSE why' = Cmd.c /\ UNCHANGED U
  /\ k' = k + 1
  /\ UNCHANGED case

Spec == Init /\ [][Step]_vars

Over == why # "" \/ k = Len(C.tr)
Report == Over => PrintT("@@" \o ToJson(<<IF why = "" THEN "ACCEPT" ELSE "REJECT", case, k, why>>))
=============================================================================
