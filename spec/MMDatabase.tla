---------------------------- MODULE MMDatabase ----------------------------
(* The state of a Metamath database while it is being read, statement by    *)
(* statement: declared symbols, nested scopes, active hypotheses, active    *)
(* distinct-variable pairs, and the frame of every assertion read so far.   *)
(* A statement is a record [k, l, m]: keyword, label ("" if none), symbols. *)
(* k is one of "c" "v" "d" "f" "e" "a" "p" "{" "}".                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

Elems(s) == {s[i] : i \in DOMAIN s}

DbInit == [ con   |-> {},      \* every symbol ever declared a constant
            var   |-> {},      \* every symbol ever declared a variable
            av    |-> {},      \* variables active now
            hyps  |-> <<>>,    \* active $f and $e, in order: [k, l, m]
            ds    |-> {},      \* active distinct pairs (two-element sets)
            marks |-> <<>>,    \* one saved [av, nh, ds] per open scope
            labs  |-> {},      \* every label used
            frm   |-> <<>>,    \* label -> frame (see Frame)
            ord   |-> <<>>,    \* assertion labels in order
            bad   |-> {} ]     \* rules broken so far

Declared(D) == D.con \cup D.av
VarsIn(D, m) == {m[i] : i \in {j \in DOMAIN m : m[j] \in D.var}}

FOf(D, x) == {i \in DOMAIN D.hyps : D.hyps[i].k = "f" /\ D.hyps[i].m[2] = x}

(* variables of an assertion m or of any active $e *)
MandVars(D, m) ==
  VarsIn(D, m) \cup
  UNION {VarsIn(D, D.hyps[i].m) : i \in {j \in DOMAIN D.hyps : D.hyps[j].k = "e"}}

(* ----- which rules a statement breaks when read in state D --------------- *)
Labelled(k) == k \in {"f", "e", "a", "p"}

Complaints(D, s) ==
  LET m == s.m IN
  (IF Labelled(s.k) /\ s.l \in D.labs THEN {"label-reused"} ELSE {})
  \cup
  CASE s.k = "{" -> {}
    [] s.k = "}" -> IF D.marks = <<>> THEN {"close-without-open"} ELSE {}
    [] s.k = "c" ->
        (IF D.marks # <<>> THEN {"constant-in-inner-scope"} ELSE {})
        \cup (IF m = <<>> THEN {"empty"} ELSE {})
        \cup (IF Cardinality(Elems(m)) # Len(m) THEN {"declared-twice"} ELSE {})
        \cup (IF Elems(m) \cap (D.con \cup D.var) # {} THEN {"redeclared"} ELSE {})
    [] s.k = "v" ->
        (IF m = <<>> THEN {"empty"} ELSE {})
        \cup (IF Cardinality(Elems(m)) # Len(m) THEN {"declared-twice"} ELSE {})
        \cup (IF Elems(m) \cap (D.con \cup D.av) # {} THEN {"redeclared"} ELSE {})
    [] s.k = "d" ->
        (IF Len(m) < 2 THEN {"d-needs-two"} ELSE {})
        \cup (IF Elems(m) \subseteq D.av THEN {} ELSE {"d-not-active-variable"})
        \cup (IF Cardinality(Elems(m)) # Len(m) THEN {"d-repeats"} ELSE {})
    [] s.k = "f" ->
        (IF Len(m) # 2 THEN {"f-shape"} ELSE
           (IF m[1] \in D.con THEN {} ELSE {"f-typecode"}) \cup
           (IF m[2] \in D.av THEN {} ELSE {"f-variable"}))
    [] s.k \in {"e", "a", "p"} ->
        (IF m = <<>> THEN {"empty"} ELSE
           (IF m[1] \in D.con THEN {} ELSE {"first-not-constant"}) \cup
           (IF Elems(m) \subseteq Declared(D) THEN {} ELSE {"undeclared-symbol"}))
        \cup
        (IF s.k = "e" THEN {} ELSE
           LET mv == MandVars(D, m) IN
           (IF (\A x \in VarsIn(D, m) : FOf(D, x) # {})
               /\ \A i \in DOMAIN D.hyps : D.hyps[i].k = "e" =>     \* the $f comes before the $e
                     \A x \in VarsIn(D, D.hyps[i].m) : \E j \in FOf(D, x) : j < i
            THEN {} ELSE {"variable-without-hypothesis"})
           \cup (IF \A x \in mv : Cardinality(FOf(D, x)) <= 1 THEN {} ELSE {"variable-with-two-hypotheses"}))

(* ----- the frame of an assertion ----------------------------------------- *)
Frame(D, s) ==
  LET mv == MandVars(D, s.m)
      isM(h) == h.k = "e" \/ h.m[2] \in mv
      notM(h) == ~isM(h)
  IN [ k    |-> s.k,
       hyps |-> SelectSeq(D.hyps, isM),        \* mandatory, in database order
       opt  |-> SelectSeq(D.hyps, notM),       \* optional $f
       m    |-> s.m,
       vars |-> mv,
       dv   |-> {p \in D.ds : p \subseteq mv},
       alld |-> D.ds,                           \* usable inside its own proof
       av   |-> D.av,
       pos  |-> Len(D.ord) + 1 ]

Pairs(m) == {{m[i], m[j]} : i, j \in DOMAIN m} \ {{m[i]} : i \in DOMAIN m}

(* ----- one reading step --------------------------------------------------- *)
DbStep(D, s) ==
  LET c == Complaints(D, s)
      D1 == [D EXCEPT !.labs = IF Labelled(s.k) THEN @ \cup {s.l} ELSE @]
  IN IF c # {} THEN [D EXCEPT !.bad = @ \cup c]
     ELSE
     CASE s.k = "{" -> [D1 EXCEPT !.marks = Append(@, [av |-> D.av, nh |-> Len(D.hyps), ds |-> D.ds])]
       [] s.k = "}" -> LET t == D.marks[Len(D.marks)] IN
                       [D1 EXCEPT !.marks = SubSeq(@, 1, Len(@) - 1),
                                  !.av = t.av, !.hyps = SubSeq(@, 1, t.nh), !.ds = t.ds]
       [] s.k = "c" -> [D1 EXCEPT !.con = @ \cup Elems(s.m)]
       [] s.k = "v" -> [D1 EXCEPT !.var = @ \cup Elems(s.m), !.av = @ \cup Elems(s.m)]
       [] s.k = "d" -> [D1 EXCEPT !.ds = @ \cup Pairs(s.m)]
       [] s.k \in {"f", "e"} -> [D1 EXCEPT !.hyps = Append(@, [k |-> s.k, l |-> s.l, m |-> s.m])]
       [] s.k \in {"a", "p"} -> [D1 EXCEPT !.frm = (s.l :> Frame(D, s)) @@ @,
                                           !.ord = Append(@, s.l)]

(* Rules that can only be judged on the whole file. *)
FinalComplaints(D) ==
  (IF D.marks # <<>> THEN {"scope-left-open"} ELSE {}) \cup
  (IF D.labs \cap (D.con \cup D.var) # {} THEN {"label-equals-symbol"} ELSE {})

ReadFrom(D, stmts) == FoldLeft(DbStep, D, stmts)
ReadAll(stmts) == ReadFrom(DbInit, stmts)
=============================================================================
