------------------------------- MODULE MMPages -------------------------------
(* The web page SHOW STATEMENT /HTML (or /ALT_HTML) writes for an assertion:    *)
(* what it is, what it says, how it is proved and what it is connected to.       *)
(* Asked of the page of T: S, the steps of its written proof; X, the proofs of    *)
(* the whole database as MMDeps sees them; C, a derivation, in RPN, that each of   *)
(* its formulas is well formed (the grammar is unambiguous); com, the pieces of    *)
(* its comment.                                                                    *)
EXTENDS MMListing

Dp == INSTANCE MMDeps

PageOpts == [all |-> FALSE, from |-> 0, to |-> 0, depth |-> 0, renumber |-> TRUE, unknown |-> FALSE, notunified |-> FALSE,
             reverse |-> FALSE, lemmon |-> TRUE, norep |-> TRUE, page |-> TRUE]

InOrder(D, L) == SelectSeq(D.ord, LAMBDA l : l \in L)
Starts3(D, l) == D.lab3[l]                        \* the first three characters of a label, given by the driver
Provable(D, l) == D.frm[l].m[1] = "|-"

KindOf(D, T) == IF D.frm[T].k = "p" THEN "Theorem"
                ELSE IF ~Provable(D, T) THEN "Syntax Definition"
                ELSE IF Starts3(D, T) = "ax-" THEN "Axiom" ELSE "Definition"

(* the proofs, for MMDeps *)
DepOf(D, T, S) ==
  LET P == Places(D, T, S) IN
  [toks |-> [k \in DOMAIN S |-> [t |-> IF S[k].r > 0 THEN "sav" ELSE IF S[k].l = "?" THEN "?" ELSE "lab", v |-> S[k].l]],
   all |-> DOMAIN S, ess |-> {k \in DOMAIN S : P[k].ess}, odd |-> FALSE]

(* --- a derivation that a formula is well formed ------------------------------------ *)
Derive(D, T, c) == FoldLeft(LAMBDA m, l : LTok(D, T, m, l, <<>>, TRUE), LInit, c)
Derives(M, m) == ~M.bad /\ Len(M.stk) = 1 /\ M.st[Len(M.st)].e.m = m
(* each part once, where it first occurs, with the parts it is made of *)
Breakdown(D, T, M) ==
  LET st == M.st
      P == TLCEval(Places(D, T, st))
      same(a, b) == st[a].l = st[b].l /\ st[a].e = st[b].e
      first == TLCEval([k \in DOMAIN st |-> CHOOSE j \in 1..k : same(j, k) /\ \A i \in 1..(j - 1) : ~same(i, k)])
      firsts == {k \in DOMAIN st : first[k] = k}
      num(k) == Cardinality({j \in firsts : j <= first[k]})
      order == SetToSortSeq(firsts, <)
  IN [i \in DOMAIN order |-> LET k == order[i] IN
        [n |-> i, refs |-> [a \in DOMAIN st[k].a |-> ToString(num(st[k].a[a]))], src |-> st[k].l, d |-> P[k].d, f |-> st[k].e.m]]

ProofRows(D, T, S) ==
  LET R == Listing(D, T, S, Said(S), PageOpts) IN
  [i \in DOMAIN R |-> [n |-> R[i].n, refs |-> R[i].refs, src |-> R[i].src, d |-> R[i].d, f |-> R[i].f]]

(* --- the parts of the page ------------------------------------------------------------ *)
Syntax(D, l) == l \in DOMAIN D.frm /\ D.frm[l].k = "a" /\ ~Provable(D, l)
Punctuation == {"(", ",", ")", ":"}
MainSymbol(D, l) ==
  LET s == SelectSeq(Tail(D.frm[l].m), LAMBDA x : x \in D.con /\ x \notin Punctuation) IN IF s = <<>> THEN "" ELSE s[1]
Hints(D, S, C) ==
  LET used == {S[k].l : k \in {j \in DOMAIN S : S[j].r = 0}} \cup UNION {Elems(C[i].c) : i \in DOMAIN C}
      o == InOrder(D, {l \in used : Syntax(D, l)})
  IN [i \in DOMAIN o |-> [s |-> MainSymbol(D, o[i]), l |-> o[i]]]

Substitutable(D, T) ==                            \* which set variables may occur in what is put for a variable
  LET F == D.frm[T]
      of(t) == {F.hyps[i].m[2] : i \in {j \in DOMAIN F.hyps : F.hyps[j].k = "f" /\ F.hyps[j].m[1] \in t}}
  IN IF F.dv = {} \/ ~Provable(D, T) THEN {}
     ELSE {r \in {[v |-> v, s |-> {x \in of({"setvar"}) : {v, x} \notin F.dv}] : v \in of({"wff", "class"})} : r.s # {}}
Dummies(D, T, S) ==
  LET F == D.frm[T] IN
  IF ~Provable(D, T) THEN {}
  ELSE {x \in UNION (F.alld \ F.dv) : \E i \in DOMAIN F.opt : F.opt[i].m[2] = x /\ \E k \in DOMAIN S : S[k].l = F.opt[i].l}

FirstUse(D, T) ==                                 \* the first axiom or definition in which the symbols of T occur
  LET con == {x \in Elems(Tail(D.frm[T].m)) : x \in D.con}
      ok(l) == D.frm[l].k = "a" /\ Provable(D, l) /\ D.frm[l].pos > D.frm[T].pos /\ con \subseteq Elems(D.frm[l].m)
      s == SelectSeq(D.ord, ok)
  IN IF s = <<>> THEN "" ELSE s[1]

Described(D, com) == [i \in DOMAIN com |-> [com[i] EXCEPT !.n = IF com[i].t = "l" THEN D.frm[com[i].s].pos ELSE 0]]

(* P: what the page is to say; everything in the order of the database               *)
Page(D, X, T, S, C, com) ==
  LET F == D.frm[T]
      n == Len(D.ord)
      kind == KindOf(D, T)
      thm == kind = "Theorem"
      deps == TLCEval(IF thm THEN Dp!Trace(D, X, T, TRUE, {}) ELSE {})
      like(p) == InOrder(D, {l \in deps : D.frm[l].k = "a" /\ Starts3(D, l) = p})
      shown == SelectSeq(F.hyps, LAMBDA h : h.k = "e" \/ kind = "Syntax Definition")
      main == Derive(D, T, C[1].c)
  IN [kind |-> kind, num |-> F.pos,
      prev |-> IF F.pos = 1 THEN D.ord[n] ELSE D.ord[F.pos - 1], wrapp |-> F.pos = 1,
      next |-> IF F.pos = n THEN D.ord[1] ELSE D.ord[F.pos + 1], wrapn |-> F.pos = n,
      desc |-> Described(D, com),
      hyps |-> [i \in DOMAIN shown |-> [l |-> shown[i].l, m |-> shown[i].m]],
      asr |-> F.m,
      pairs |-> F.dv,
      subst |-> Substitutable(D, T),
      dummies |-> IF thm THEN Dummies(D, T, S) ELSE {},
      rows |-> IF thm THEN ProofRows(D, T, S) ELSE IF kind = "Syntax Definition" THEN <<>> ELSE Breakdown(D, T, main),
      first |-> IF kind = "Syntax Definition" THEN FirstUse(D, T) ELSE "",
      hints |-> IF thm THEN Hints(D, S, C) ELSE <<>>,
      axioms |-> like("ax-"), defs |-> like("df-"),
      gaps |-> {l \in deps : Dp!Gap(X, l, TRUE)},
      refby |-> IF kind = "Syntax Definition" THEN <<>> ELSE InOrder(D, Dp!Direct(D, X, T))]

(* What must hold of any page: a reference leads to an earlier row of the page, the    *)
(* last row states the theorem, and only earlier assertions are used, later ones using *)
Sound(D, T, S, p) ==
  /\ \A i \in DOMAIN p.rows : \A x \in Elems(p.rows[i].refs) : x = "?" \/ \E j \in 1..(i - 1) : ToString(p.rows[j].n) = x
  /\ p.kind = "Theorem" /\ p.rows # <<>> /\ (\A k \in DOMAIN S : S[k].l # "?") => p.rows[Len(p.rows)].f = p.asr
  /\ \A i \in DOMAIN p.rows : p.rows[i].src \in DOMAIN D.frm => D.frm[p.rows[i].src].pos < p.num
  /\ \A l \in Elems(p.axioms) \cup Elems(p.defs) : D.frm[l].pos < p.num
  /\ \A l \in Elems(p.refby) : D.frm[l].pos > p.num
=============================================================================
