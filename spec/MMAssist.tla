------------------------------ MODULE MMAssist ------------------------------
(* The Proof Assistant.  A proof under construction is a post-order sequence *)
(* of steps [h, l, t, s, u]: h the label of the hypothesis (or theorem) the  *)
(* step has to match, l the label assigned ("?" when unknown), t the target  *)
(* formula, s the formula the assigned statement gives, u a formula demanded *)
(* by the user (LET STEP).  Formulas may contain work variables ($1, $2 ...).*)
EXTENDS MMDatabase

(* ----- what the theorem may use ------------------------------------------- *)
HypsOf(D, T) == D.frm[T].hyps \o D.frm[T].opt
HypFor(D, T, l) == LET H == SelectSeq(HypsOf(D, T), LAMBDA h : h.l = l) IN
                   IF H = <<>> THEN <<>> ELSE H[1]
IsHyp(D, T, l) == \E i \in DOMAIN HypsOf(D, T) : HypsOf(D, T)[i].l = l
IsAssert(D, T, l) == l \in DOMAIN D.frm /\ D.frm[l].pos < D.frm[T].pos
Arity(D, T, l) == IF l \in DOMAIN D.frm THEN Len(D.frm[l].hyps) ELSE 0

(* ----- the shape of the proof --------------------------------------------- *)
(* Kids[i] = the steps proving the hypotheses of step i, in order.           *)
Shape(D, T, ls) ==
  LET Push(st, l) ==
        LET a == IF l = "?" THEN 0 ELSE Arity(D, T, l)
            n == Len(st.stack) IN
        IF st.bad \/ a > n THEN [st EXCEPT !.bad = TRUE]
        ELSE [ stack |-> Append(SubSeq(st.stack, 1, n - a), Len(st.kids) + 1),
               first |-> Append(st.first, IF a = 0 THEN Len(st.kids) + 1 ELSE st.first[st.stack[n - a + 1]]),
               kids  |-> Append(st.kids, SubSeq(st.stack, n - a + 1, n)),
               bad   |-> FALSE ]
      r == FoldLeft(Push, [stack |-> <<>>, first |-> <<>>, kids |-> <<>>, bad |-> FALSE], ls)
  IN [kids |-> r.kids, first |-> r.first, bad |-> r.bad \/ Len(r.stack) # 1]

Labels(s) == [i \in DOMAIN s |-> s[i].l]
Unknowns(s) == {i \in DOMAIN s : s[i].l = "?"}

(* the steps proving essential hypotheses all the way up to the theorem      *)
Essential(D, T, s, sh) ==
  LET Down(E, i) == IF i \notin E THEN E
                    ELSE E \cup {sh.kids[i][j] : j \in {x \in DOMAIN sh.kids[i] : D.frm[s[i].l].hyps[x].k = "e"}}
  IN FoldLeft(Down, {Len(s)}, [i \in 1..Len(s) |-> Len(s) + 1 - i])

(* ----- substitutions -------------------------------------------------------- *)
Put(m, sub) == FlattenSeq([i \in DOMAIN m |-> IF m[i] \in DOMAIN sub THEN sub[m[i]] ELSE <<m[i]>>])

(* every way to match m against pattern p, substituting non-empty sequences   *)
(* for the symbols of V, extending sub                                        *)
RECURSIVE MatchAll(_, _, _, _)
MatchAll(p, m, V, sub) ==
  IF p = <<>> THEN IF m = <<>> THEN {sub} ELSE {}
  ELSE IF Len(m) < Len(p) THEN {}
  ELSE IF p[1] \notin V THEN IF m[1] = p[1] THEN MatchAll(Tail(p), Tail(m), V, sub) ELSE {}
  ELSE IF p[1] \in DOMAIN sub
       THEN LET x == sub[p[1]] n == Len(x) IN
            IF n <= Len(m) /\ SubSeq(m, 1, n) = x THEN MatchAll(Tail(p), SubSeq(m, n + 1, Len(m)), V, sub) ELSE {}
  ELSE IF Len(p) = 1 THEN {sub @@ (p[1] :> m)}
  ELSE UNION {MatchAll(Tail(p), SubSeq(m, n + 1, Len(m)), V, sub @@ (p[1] :> SubSeq(m, 1, n))) :
                n \in 1..(Len(m) - Len(p) + 1)}

WIn(m, W) == {m[i] : i \in DOMAIN m} \cap W

(* Is there one substitution for the work variables that turns every pattern *)
(* into its instance?  P: a set of pairs <<pattern, instance>>.               *)
InstanceBy(P, W, Good(_)) ==
  LET single == {p \in P : Len(p[1]) = 2 /\ p[1][2] \in W}
      pinned == {p[1][2] : p \in single}
      ok1    == \A p \in single : Len(p[2]) >= 2 /\ p[2][1] = p[1][1]
      sub    == [w \in pinned |-> Tail((CHOOSE p \in single : p[1][2] = w)[2])]
      free   == UNION {WIn(p[1], W) : p \in P} \ pinned
      hard   == {p \in P : WIn(p[1], free) # {}}
      easy   == P \ hard
      Fits(p, x) == Put(p[1], x) = p[2]
  IN /\ ok1
     /\ \A w \in pinned : Good(sub[w])
     /\ \A p \in easy : Fits(p, sub)
     /\ hard = {} \/
        \E y \in FoldLeft(LAMBDA S, p : UNION {MatchAll(p[1], p[2], W, x) : x \in S}, {sub}, SetToSeq(hard)) : \A w \in DOMAIN y : Good(y[w])
Instance(P, W) == InstanceBy(P, W, LAMBDA x : TRUE)

(* ----- a proof state that makes sense ------------------------------------- *)
StepOk(D, T, s, sh, i) ==
  LET n == s[i] IN
  IF n.l = "?" THEN n.s = <<>>
  ELSE IF IsHyp(D, T, n.l) THEN n.s = HypFor(D, T, n.l).m
  ELSE /\ IsAssert(D, T, n.l)
       /\ LET f  == D.frm[n.l]
              ks == sh.kids[i]
              fs == {j \in DOMAIN f.hyps : f.hyps[j].k = "f"}
              sub == [v \in {f.hyps[j].m[2] : j \in fs} |->
                        LET j == CHOOSE x \in fs : f.hyps[x].m[2] = v IN Tail(s[ks[j]].t)]
          IN /\ \A j \in DOMAIN f.hyps : s[ks[j]].h = f.hyps[j].l
             /\ \A j \in fs : Len(s[ks[j]].t) >= 2
             /\ \A j \in DOMAIN f.hyps : s[ks[j]].t = Put(f.hyps[j].m, sub)
             /\ n.s = Put(f.m, sub)

Sound(D, T, s) ==
  LET sh == Shape(D, T, Labels(s)) IN
  /\ s # <<>>
  /\ ~sh.bad
  /\ s[Len(s)].h = T
  /\ s[Len(s)].t = D.frm[T].m
  /\ \A i \in DOMAIN s : StepOk(D, T, s, sh, i)

Unified(n) == (n.s # <<>> => n.t = n.s) /\ (n.u # <<>> => n.u = n.t)
AllUnified(s) == \A i \in DOMAIN s : Unified(s[i])
Complete(s) == Unknowns(s) = {}
Done(s) == Complete(s) /\ AllUnified(s)

(* ----- edits --------------------------------------------------------------- *)
(* labels with the subproof at i replaced by the labels x                     *)
Splice(ls, sh, i, x) == SubSeq(ls, 1, sh.first[i] - 1) \o x \o SubSeq(ls, i + 1, Len(ls))
Question(n) == [j \in 1..n |-> "?"]

(* the formulas of old step i and new step j *)
Pairs3(a, b) == {<<a.t, b.t>>}
             \cup (IF a.s # <<>> /\ b.s # <<>> THEN {<<a.s, b.s>>} ELSE {})
             \cup (IF a.u # <<>> /\ b.u # <<>> THEN {<<a.u, b.u>>} ELSE {})

(* Steps outside the subproof at i (old first..i, new first..e) only get more *)
(* specific, and keep their labels and their LET STEPs.                       *)
KeptBut(s, t, f, i, e, W, redone) ==
  LET d == e - i IN
  /\ Len(t) = Len(s) + d
  /\ \A j \in 1..(f - 1) : t[j].h = s[j].h /\ t[j].l = s[j].l /\ (t[j].u = <<>>) = (s[j].u = <<>>)
  /\ \A j \in (i + 1)..Len(s) : t[j + d].h = s[j].h /\ t[j + d].l = s[j].l /\ (t[j + d].u = <<>>) = (s[j].u = <<>>)
  /\ t[e].h = s[i].h
  /\ Instance(UNION {Pairs3(s[j], t[j]) : j \in (1..(f - 1)) \ redone}
              \cup UNION {Pairs3(s[j], t[j + d]) : j \in {x \in (i + 1)..Len(s) : x + d \notin redone}}
              \cup (IF e \in redone THEN {} ELSE {<<s[i].t, t[e].t>>}
                     \cup (IF s[i].u # <<>> THEN {<<s[i].u, t[e].u>>} ELSE {})), W)
OutsideKept(s, t, f, i, e, W) == KeptBut(s, t, f, i, e, W, {})

Assigned(D, T, s, t, i, l, W) ==
  LET a == Arity(D, T, l) IN
  /\ s[i].l = "?"
  /\ IsHyp(D, T, l) \/ IsAssert(D, T, l)
  /\ OutsideKept(s, t, i, i, i + a, W)
  /\ t[i + a].l = l
  /\ \A j \in i..(i + a - 1) : t[j].l = "?" /\ t[j].u = <<>>

(* the step and its subproof become unknown; nothing else changes            *)
Deleted(D, T, s, t, i) ==
  LET sh == Shape(D, T, Labels(s)) f == sh.first[i] IN
  /\ s[i].l # "?"
  /\ t = SubSeq(s, 1, f - 1) \o <<[s[i] EXCEPT !.l = "?", !.s = <<>>]>> \o SubSeq(s, i + 1, Len(s))

FloatDeleted(D, T, s, t) ==
  LET sh == Shape(D, T, Labels(s))
      E == Essential(D, T, s, sh)
      (* highest known floating steps: not essential, known, and their parent is essential *)
      top == {i \in DOMAIN s : i \notin E /\ \E p \in E : \E j \in DOMAIN sh.kids[p] : sh.kids[p][j] = i}
      gone == UNION {sh.first[i]..(i - 1) : i \in top}
      keep == SetToSortSeq(DOMAIN s \ gone, <)
  IN t = [j \in DOMAIN keep |-> IF keep[j] \in top THEN [s[keep[j]] EXCEPT !.l = "?", !.s = <<>>] ELSE s[keep[j]]]

SameShape(s, t) == Len(s) = Len(t) /\ \A j \in DOMAIN s : s[j].h = t[j].h /\ s[j].l = t[j].l

(* formulas only get more specific *)
Refined(s, t, W) == /\ SameShape(s, t)
                    /\ \A j \in DOMAIN s : (s[j].u = <<>>) = (t[j].u = <<>>)
                    /\ Instance(UNION {Pairs3(s[j], t[j]) : j \in DOMAIN s}, W)

(* ----- a known proof of the theorem, to be followed ------------------------ *)
(* truth: post-order [l, f].  A step of s is aligned with a step of the truth *)
(* when all steps above it carry the true labels.                             *)
Aligned(D, T, s, sh, truth, tsh) ==
  LET Down(A, i) ==     \* A: function from aligned steps to steps of the truth
        IF i \notin DOMAIN A \/ s[i].l = "?" \/ s[i].l # truth[A[i]].l THEN A
        ELSE A @@ [c \in {sh.kids[i][j] : j \in DOMAIN sh.kids[i]} |->
                     tsh.kids[A[i]][CHOOSE j \in DOMAIN sh.kids[i] : sh.kids[i][j] = c]]
  IN FoldLeft(Down, (Len(s) :> Len(truth)), [i \in 1..Len(s) |-> Len(s) + 1 - i])

OnTrack(D, T, s, truth, W) ==
  LET sh == Shape(D, T, Labels(s))
      tsh == Shape(D, T, [i \in DOMAIN truth |-> truth[i].l])
      A == Aligned(D, T, s, sh, truth, tsh)
      wrong == {i \in DOMAIN A : s[i].l # "?" /\ s[i].l # truth[A[i]].l}
      (* a different but complete and fully unified subproof of the same formula *)
      fine(i) == /\ s[i].t = truth[A[i]].f
                 /\ \A j \in sh.first[i]..i : s[j].l # "?" /\ Unified(s[j])
      P == UNION { {<<s[i].t, truth[A[i]].f>>}
                   \cup (IF s[i].s # <<>> /\ i \notin wrong THEN {<<s[i].s, truth[A[i]].f>>} ELSE {})
                   \cup (IF s[i].u # <<>> THEN {<<s[i].u, truth[A[i]].f>>} ELSE {}) : i \in DOMAIN A }
      (* work variables stand for what the true proof substitutes *)
      terms == {Tail(truth[i].f) : i \in DOMAIN truth}
  IN (\A i \in wrong : fine(i)) /\ InstanceBy(P, W, LAMBDA x : x \in terms)

(* every aligned step is unknown or carries the true label *)
Straight(D, T, s, truth) ==
  LET sh == Shape(D, T, Labels(s))
      tsh == Shape(D, T, [i \in DOMAIN truth |-> truth[i].l])
      A == Aligned(D, T, s, sh, truth, tsh)
  IN \A i \in DOMAIN A : s[i].l \in {"?", truth[A[i]].l}

TrueLabel(D, T, s, truth, i) ==
  LET sh == Shape(D, T, Labels(s))
      tsh == Shape(D, T, [j \in DOMAIN truth |-> truth[j].l])
      A == Aligned(D, T, s, sh, truth, tsh)
  IN IF i \in DOMAIN A THEN truth[A[i]].l ELSE "?"
TrueFormula(D, T, s, truth, i) ==
  LET sh == Shape(D, T, Labels(s))
      tsh == Shape(D, T, [j \in DOMAIN truth |-> truth[j].l])
      A == Aligned(D, T, s, sh, truth, tsh)
  IN IF i \in DOMAIN A THEN truth[A[i]].f ELSE <<>>

(* ----- what must have been unified ----------------------------------------- *)
(* Two different formulas of a step, one of them without work variables and   *)
(* matching the other in exactly one way, may not be left apart.              *)
Forced(a, b, W) ==
  /\ a # <<>> /\ b # <<>> /\ a # b
  /\ \/ WIn(b, W) = {} /\ WIn(a, W) # {} /\ Cardinality(MatchAll(a, b, W, <<>>)) = 1
     \/ WIn(a, W) = {} /\ WIn(b, W) # {} /\ Cardinality(MatchAll(b, a, W, <<>>)) = 1
Settled(s, W) == \A i \in DOMAIN s : /\ ~Forced(s[i].t, s[i].u, W)
                                     /\ ~Forced(s[i].s, s[i].u, W)
                                     /\ ~Forced(s[i].t, s[i].s, W)

(* ----- initialisation ------------------------------------------------------ *)
CompleteAt(s, sh, i) == \A j \in sh.first[i]..i : s[j].l # "?"
KnownAssigned(D, T, s) ==
  LET sh == Shape(D, T, Labels(s)) IN
  \A i \in DOMAIN s : CompleteAt(s, sh, i) =>
     \A j \in sh.first[i]..(i - 1) : s[j].t = s[j].s

WorkVars(s, W) == UNION {WIn(s[i].t, W) \cup WIn(s[i].s, W) \cup WIn(s[i].u, W) : i \in DOMAIN s}

StepInitialized(D, T, s, t, i, W) ==
  LET sh == Shape(D, T, Labels(s))
      ks == {sh.kids[i][j] : j \in DOMAIN sh.kids[i]}
      new == WIn(t[i].s, W) \cup UNION {WIn(t[k].t, W) : k \in ks}
      (* everything of t but the formulas just made *)
      rest == UNION {(IF j \in ks THEN {} ELSE WIn(t[j].t, W)) \cup (IF j = i THEN {} ELSE WIn(t[j].s, W)) \cup WIn(t[j].u, W) : j \in DOMAIN t}
  IN /\ SameShape(s, t)
     /\ \A j \in DOMAIN s : /\ j \notin ks => t[j].t = s[j].t
                            /\ j # i => t[j].s = s[j].s /\ t[j].u = s[j].u
     /\ t[i].u = <<>>
     /\ IsAssert(D, T, s[i].l) => new \cap rest = {} /\ new \cap WorkVars(s, W) = {}
                                  /\ Len(SetToSeq(new)) = Cardinality(D.frm[s[i].l].vars)

(* ----- improvements: unknown steps get complete, unified subproofs --------- *)
(* steps of s and what became of them in t                                     *)
Carried(s, t, sh, th) ==
  LET Down(A, i) ==
        IF i \notin DOMAIN A \/ s[i].l = "?" \/ s[i].l # t[A[i]].l THEN A
        ELSE A @@ [c \in {sh.kids[i][j] : j \in DOMAIN sh.kids[i]} |->
                     th.kids[A[i]][CHOOSE j \in DOMAIN sh.kids[i] : sh.kids[i][j] = c]]
  IN FoldLeft(Down, (Len(s) :> Len(t)), [i \in 1..Len(s) |-> Len(s) + 1 - i])

Improved(D, T, s, t, W, only, subproofs, deep) ==
  LET sh == Shape(D, T, Labels(s))
      th == Shape(D, T, Labels(t))
      A == Carried(s, t, sh, th)
      new == {i \in DOMAIN A : s[i].l # t[A[i]].l}
      (* (the searches called 2 and 3 guess values of shared work variables and  *)
      (* may leave the new steps to be unified.)                                 *)
      (* A complete subproof that does not unify misleads later searches.        *)
      spoilt == \E i \in DOMAIN s : CompleteAt(s, sh, i) /\ ~Unified(s[i])
      good(j) == \A x \in th.first[j]..j : t[x].l # "?" /\ (deep \/ spoilt \/ Unified(t[x]))
      (* steps that may get another proof: unknown ones; steps above an unknown one that are *)
      (* not unified yet; with subproofs, any step above an unknown one.                     *)
      may == {i \in DOMAIN s : (\E x \in sh.first[i]..i : s[x].l = "?") /\ (s[i].l = "?" \/ subproofs \/ ~Unified(s[i]))}
      redone == UNION {sh.first[r]..r : r \in {x \in may : \E i \in new : s[i].l # "?" /\ i \in sh.first[x]..x}}
      P(X) == UNION {Pairs3(s[i], t[A[i]]) : i \in (DOMAIN A \ new) \ X} \cup {<<s[i].t, t[A[i]].t>> : i \in new \ X}
  IN /\ \A i \in new : /\ \E r \in may : i \in sh.first[r]..r
                       /\ good(A[i])
                       /\ only # 0 => i = only \/ i \in sh.first[only]..only
     (* the rest only gets more specific.  (The searches called 2 and 3 guess   *)
     (* values of work variables shared with other steps.)                      *)
     /\ deep \/ Instance(P(redone), W)
        \/ \E r \in may \cap DOMAIN A : good(A[r]) /\ Instance(P(sh.first[r]..r), W)

Used(s) == {s[i].l : i \in DOMAIN s} \ {"?"}
=============================================================================
