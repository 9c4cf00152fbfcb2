------------------------------ MODULE MMListing ------------------------------
(* What SHOW PROOF and SHOW NEW_PROOF list: one row per step that passes the   *)
(* filters, numbered, placed in the tree, with what it refers to and what it   *)
(* says.  The steps are those of the written proof: a step is                  *)
(*   [r |-> number of the step it refers back to, or 0,  l |-> label or "?",   *)
(*    a |-> the steps its hypotheses come from,  e |-> what is known of it].   *)
EXTENDS MMForms, Integers

(* --- the steps ------------------------------------------------------------- *)
LInit == [stk |-> <<>>, st |-> <<>>, nm |-> <<>>, bad |-> FALSE]
LPush(M, s, names) ==
  [M EXCEPT !.stk = Append(@, Len(M.st) + 1), !.st = Append(@, s),
            !.nm = IF names = <<>> THEN @ ELSE [x \in Elems(names) |-> Len(M.st) + 1] @@ @]

LHyp(D, T, M, l) == LPush(M, [r |-> 0, l |-> l, a |-> <<>>, e |-> [u |-> FALSE, m |-> HypOf(D.frm[T], l).m]], <<>>)
LUnk(M) == LPush(M, [r |-> 0, l |-> "?", a |-> <<>>, e |-> Unknown], <<>>)
LRef(M, j) == LPush(M, [r |-> j, l |-> M.st[j].l, a |-> <<>>, e |-> M.st[j].e], <<>>)
(* judge: whether the formulas are worked out and the proof must be right           *)
LApply(D, T, M, l, names, judge) ==
  LET n == Len(D.frm[l].hyps) k == Len(M.stk) IN
  IF k < n THEN [M EXCEPT !.bad = TRUE]
  ELSE LET args == TLCEval(SubSeq(M.stk, k - n + 1, k))
           x == IF judge THEN TLCEval(Apply(D.frm[l], [i \in DOMAIN args |-> M.st[args[i]].e], D.var, D.frm[T].alld))
                ELSE [r |-> "ok", e |-> Unknown]
       IN LPush([M EXCEPT !.stk = SubSeq(@, 1, k - n), !.bad = @ \/ x.r # "ok"],
                [r |-> 0, l |-> l, a |-> args, e |-> x.e], names)
LTok(D, T, M, l, names, judge) ==
  IF M.bad THEN M
  ELSE IF l = "?" THEN LUnk(M)
  ELSE IF l \in DOMAIN M.nm THEN LRef(M, M.nm[l])
  ELSE IF ActiveHyp(D.frm[T], l) THEN LHyp(D, T, M, l)
  ELSE IF l \notin DOMAIN D.frm \/ D.frm[l].pos >= D.frm[T].pos THEN [M EXCEPT !.bad = TRUE]
  ELSE LApply(D, T, M, l, names, judge)

(* ... of a written proof whose hypotheses are written in order *)
StepsOf(D, T, pf, judge) ==
  LET M == IF pf.f = "c"
           THEN LET d == TLCEval(Decode(D, T, pf)) IN
                IF d.bad THEN [LInit EXCEPT !.bad = TRUE]
                ELSE FoldLeft(LAMBDA m, t : IF t.t = "sav" /\ ~m.bad THEN LRef(m, t.v)
                                            ELSE LTok(D, T, m, IF t.t = "?" THEN "?" ELSE t.v, <<>>, judge), LInit, d.toks)
           ELSE LET x == TLCEval(XSteps(pf.s)) IN
                IF x.bad THEN [LInit EXCEPT !.bad = TRUE]
                ELSE FoldLeft(LAMBDA m, s : LTok(D, T, m, s.v, s.loc, judge), LInit, x.steps)
  IN [bad |-> M.bad \/ Len(M.stk) # 1 \/ (judge /\ Len(M.stk) = 1 /\ ~M.st[Len(M.st)].e.u
                                              /\ M.st[Len(M.st)].e.m # D.frm[T].m), st |-> M.st]
Steps(D, T, pf) == StepsOf(D, T, pf, TRUE)

(* --- the place of each step in the tree -------------------------------------- *)
(* up: the step it serves; h: the hypothesis of that step's assertion it is for   *)
Places(D, T, st) ==
  LET n == Len(st)
      top == [up |-> 0, h |-> T, d |-> 0, ess |-> TRUE]
      give(P, k) ==                            \* the step k hands its place down to its arguments
        IF st[k].a = <<>> THEN P
        ELSE LET H == D.frm[st[k].l].hyps IN
             [j \in DOMAIN P |->
                IF \E i \in DOMAIN st[k].a : st[k].a[i] = j
                THEN LET i == CHOOSE i \in DOMAIN st[k].a : st[k].a[i] = j IN
                     [up |-> k, h |-> H[i].l, d |-> P[k].d + 1, ess |-> P[k].ess /\ H[i].k = "e"]
                ELSE P[j]]
  IN FoldLeft(LAMBDA P, i : TLCEval(give(P, n + 1 - i)), [j \in 1..n |-> top], [i \in 1..n |-> i])

(* --- repeated steps ------------------------------------------------------------ *)
(* leaves stated before are referred to instead of being listed again              *)
NoRepeats(D, st) ==
  LET leaf(k) == st[k].r = 0 /\ st[k].l # "?" /\ st[k].a = <<>>
      first(k) == CHOOSE j \in 1..k : leaf(j) /\ st[j].l = st[k].l /\ \A i \in 1..(j - 1) : ~(leaf(i) /\ st[i].l = st[k].l)
      once == TLCEval([k \in DOMAIN st |-> IF leaf(k) /\ first(k) < k THEN [st[k] EXCEPT !.r = first(k)] ELSE st[k]])
  IN [k \in DOMAIN st |-> IF once[k].r > 0 /\ once[once[k].r].r > 0       \* what it refers to is a repetition too
                          THEN [once[k] EXCEPT !.r = once[@].r] ELSE once[k]]

(* a step is worth listing when it serves essential hypotheses only, or when a     *)
(* step worth listing refers to it                                                  *)
Worth(st, P) ==
  LET E == {k \in DOMAIN st : P[k].ess} IN E \cup {st[k].r : k \in {j \in E : st[j].r > 0}}

Kind(D, T, l) == IF l = "?" THEN "?" ELSE IF ActiveHyp(D.frm[T], l) THEN HypOf(D.frm[T], l).k ELSE D.frm[l].k

(* --- the listing ----------------------------------------------------------------- *)
(* o: the options; S: the steps; fml: what each step says, [f, s, u] (the formula,    *)
(* what its source makes of it, what the user said)                                   *)
Listing(D, T, S, fml, o) ==
  LET n == Len(S)
      st == TLCEval(IF o.norep THEN NoRepeats(D, S) ELSE S)
      P == TLCEval(Places(D, T, S))
      worth == TLCEval(IF o.all THEN 1..n ELSE Worth(st, P))
      counted == TLCEval({k \in 1..n : /\ (o.renumber /\ ~o.all) => k \in worth
                                       /\ o.norep => st[k].r = 0 /\ st[k].l # "?"})
      num == TLCEval([k \in 1..n |-> IF k \in counted THEN Cardinality({j \in counted : j <= k}) ELSE 0])
      refd == TLCEval({st[k].r : k \in 1..n} \ {0})
      unk == TLCEval({k \in 1..n : st[k].l = "?" /\ st[k].r = 0})
      shown == {k \in worth :
                 /\ o.from > 0 => k >= o.from
                 /\ o.to > 0 => k <= o.to
                 /\ o.depth > 0 => P[k].d < o.depth
                 /\ o.unknown => k \in unk
                 /\ o.notunified => \/ fml[k].s # <<>> /\ fml[k].s # fml[k].f
                                    \/ fml[k].u # <<>> /\ fml[k].u # fml[k].f
                 /\ o.norep => num[k] > 0}
      seen(k) == IF o.norep /\ st[k].r > 0 THEN st[k].r ELSE k       \* the step that states it
      ref(k) == IF o.norep /\ st[k].l = "?" THEN "?" ELSE ToString(num[seen(k)])
      refs(k) == IF ~o.lemmon \/ st[k].r > 0 \/ st[k].l = "?" THEN <<>>
                 ELSE LET a == st[k].a IN
                      [i \in 1..Len(SelectSeq(a, LAMBDA j : o.all \/ D.frm[st[k].l].hyps[CHOOSE x \in DOMAIN a : a[x] = j].k = "e")) |->
                        ref(SelectSeq(a, LAMBDA j : o.all \/ D.frm[st[k].l].hyps[CHOOSE x \in DOMAIN a : a[x] = j].k = "e")[i])]
      row(k) ==
        [n |-> num[k],
         loc |-> IF k \in refd /\ ~(o.lemmon /\ o.norep) THEN ToString(num[k]) ELSE "",
         tgt |-> IF o.lemmon THEN "" ELSE P[k].h,
         src |-> IF st[k].r > 0 THEN (IF o.lemmon THEN "@" ELSE "") \o ToString(num[st[k].r]) ELSE st[k].l,
         refs |-> refs(k),
         d |-> IF o.lemmon /\ ~o.page THEN 0 ELSE P[k].d,
         rel |-> IF o.unknown /\ ~o.lemmon /\ P[k].ess /\ {j \in unk : j > k /\ P[j].ess} # {}
                 THEN "-" \o ToString(Cardinality({j \in unk : j > k /\ P[j].ess})) ELSE "",
         ty |-> Kind(D, T, st[k].l),
         f |-> fml[k].f,
         s |-> IF fml[k].s # fml[k].f THEN fml[k].s ELSE <<>>,
         u |-> fml[k].u]
      order == SetToSortSeq(shown, LAMBDA a, b : IF o.reverse THEN a > b ELSE a < b)
  IN [i \in DOMAIN order |-> row(order[i])]

Said(S) == [k \in DOMAIN S |-> [f |-> S[k].e.m, s |-> <<>>, u |-> <<>>]]

(* Nothing in an unfiltered listing refers to a step that is not in it, and in a    *)
(* Lemmon listing every reference is to an earlier step                              *)
Unfiltered(o) == o.from = 0 /\ o.to = 0 /\ o.depth = 0 /\ ~o.unknown /\ ~o.notunified
Closed(rows, o) ==
  Unfiltered(o) =>
    LET nums == {ToString(rows[i].n) : i \in DOMAIN rows} IN
    /\ \A i \in DOMAIN rows : Elems(rows[i].refs) \subseteq nums \cup {"?"}
    /\ \A i \in DOMAIN rows : rows[i].n > 0
    /\ o.lemmon => \A i \in DOMAIN rows : \A x \in Elems(rows[i].refs) : x = "?" \/ \E j \in 1..Len(rows) : ToString(rows[j].n) = x /\ rows[j].n < rows[i].n

(* --- the statements a proof uses ---------------------------------------------------- *)
Summary(D, T, S, all) ==
  LET P == TLCEval(Places(D, T, S))
      used == TLCEval({S[k].l : k \in {j \in DOMAIN S : S[j].r = 0 /\ S[j].l \in DOMAIN D.frm /\ (all \/ P[j].ess)}})
      hyps(l) == SelectSeq(D.frm[l].hyps, LAMBDA h : all \/ h.k = "e")
      sel == TLCEval(SelectSeq(D.ord, LAMBDA l : l \in used))
  IN [i \in DOMAIN sel |-> [l |-> sel[i], k |-> D.frm[sel[i]].k, m |-> D.frm[sel[i]].m,
                            hyps |-> [j \in DOMAIN hyps(sel[i]) |->
                              [l |-> hyps(sel[i])[j].l, k |-> hyps(sel[i])[j].k, m |-> hyps(sel[i])[j].m]]]]

(* --- one step in detail ---------------------------------------------------------------- *)
Subs(D, S, k) ==                                \* the substitution made to the assertion of step k
  LET H == D.frm[S[k].l].hyps
      F == {i \in DOMAIN H : H[i].k = "f"}
  IN {[v |-> H[i].m[2], x |-> Tail(S[S[k].a[i]].e.m)] : i \in F}

Detail(D, T, S, k) ==
  LET n == Len(S)
      P == TLCEval(Places(D, T, S))
      refd == TLCEval({S[j].r : j \in 1..n} \ {0})
      used == D.labs
      \* local labels are named by the integers in turn, except those that are labels
      free == SelectSeq([i \in 1..(Cardinality(refd) + Cardinality({l \in used : Len(l) <= 4}) + 1) |-> ToString(i)],
                        LAMBDA x : x \notin used)
      name(j) == free[Cardinality({x \in refd : x <= j})]
      asr == S[k].r = 0 /\ S[k].l \in DOMAIN D.frm
      up == P[k].up
      h(i) == D.frm[S[k].l].hyps[i]
      H == HypOf(D.frm[S[up].l], P[k].h)
  IN [f |-> S[k].e.m, ty |-> Kind(D, T, S[k].l),
      tgt |-> P[k].h,
      src |-> IF S[k].r > 0 THEN name(S[k].r) ELSE S[k].l,
      from |-> S[k].r,
      loc |-> IF k \in refd THEN name(k) ELSE "",
      hyps |-> IF asr THEN [i \in DOMAIN S[k].a |-> [l |-> h(i).l, k |-> h(i).k, n |-> S[k].a[i]]] ELSE <<>>,
      up |-> IF up = 0 THEN [l |-> "", k |-> "", n |-> 0] ELSE [l |-> S[up].l, k |-> D.frm[S[up].l].k, n |-> up],
      asr |-> IF asr THEN D.frm[S[k].l].m ELSE <<>>,
      hyp |-> IF up = 0 THEN <<>> ELSE H.m,
      ssub |-> IF asr THEN {x \in Subs(D, S, k) : x.v \in Elems(D.frm[S[k].l].m)} ELSE {},
      tsub |-> IF up = 0 THEN {} ELSE {x \in Subs(D, S, up) : x.v \in Elems(H.m)}]
=============================================================================
