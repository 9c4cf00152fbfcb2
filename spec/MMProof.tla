------------------------------ MODULE MMProof ------------------------------
(* The proof checker as a stack machine.  A stack entry is                  *)
(* [u |-> BOOLEAN, m |-> symbols]: u means "nothing is known about it".     *)
(* A step token is [t |-> "lab", v |-> label], [t |-> "sav", v |-> step no]  *)
(* or [t |-> "?"].                                                           *)
EXTENDS MMDatabase, MMCompress

(* --- matching a list of (pattern, instance) pairs; all solutions -------- *)
RECURSIVE MatchSym(_, _, _, _)
MatchSym(p, m, sub, vs) ==            \* set of substitutions extending sub
  IF p = <<>> THEN (IF m = <<>> THEN {sub} ELSE {})
  ELSE LET h == Head(p) IN
    IF h \notin vs THEN
       (IF m # <<>> /\ Head(m) = h THEN MatchSym(Tail(p), Tail(m), sub, vs) ELSE {})
    ELSE IF h \in DOMAIN sub THEN
       LET x == sub[h] IN
       (IF Len(x) <= Len(m) /\ SubSeq(m, 1, Len(x)) = x
        THEN MatchSym(Tail(p), SubSeq(m, Len(x) + 1, Len(m)), sub, vs) ELSE {})
    ELSE IF Len(p) = 1 THEN {(h :> m) @@ sub}
    ELSE UNION {MatchSym(Tail(p), SubSeq(m, n + 1, Len(m)),
                         (h :> SubSeq(m, 1, n)) @@ sub, vs) : n \in 0..Len(m)}

RECURSIVE MatchAll(_, _, _, _, _)
MatchAll(ps, is, k, sub, vs) ==
  IF k > Len(ps) THEN {sub}
  ELSE IF is[k].u THEN MatchAll(ps, is, k + 1, sub, vs)
  ELSE UNION {MatchAll(ps, is, k + 1, s2, vs) : s2 \in MatchSym(ps[k].m, is[k].m, sub, vs)}

Subst(m, sub) == FlattenSeq([i \in DOMAIN m |-> IF m[i] \in DOMAIN sub THEN sub[m[i]] ELSE <<m[i]>>])

(* --- distinct-variable obligations --------------------------------------- *)
DvOK(F, sub, allvars, mine) ==
  \A p \in F.dv : \A x \in p : \A y \in p \ {x} :
    \A a \in Elems(sub[x]) \cap allvars : \A b \in Elems(sub[y]) \cap allvars :
       a # b /\ {a, b} \in mine

(* --- one assertion application -------------------------------------------- *)
(* result.r is "ok", "bad", or "open" (judgement depends on unknown steps).   *)
Apply(F, args, allvars, mine) ==
  LET known == {i \in DOMAIN args : ~args[i].u}
      kv == UNION {Elems(F.hyps[i].m) \cap F.vars : i \in known}
      unk == known # DOMAIN args
  IN IF kv # F.vars
     THEN [r |-> IF unk THEN "ok" ELSE "bad", e |-> [u |-> TRUE, m |-> <<>>]]
     ELSE LET sols == MatchAll(F.hyps, args, 1, <<>>, F.vars) IN
       IF sols = {} THEN [r |-> "bad", e |-> [u |-> TRUE, m |-> <<>>]]
       ELSE IF Cardinality(sols) > 1
            THEN [r |-> "open", e |-> [u |-> TRUE, m |-> <<>>]]
            ELSE LET sub == CHOOSE s \in sols : TRUE IN
                 [r |-> IF DvOK(F, sub, allvars, mine) THEN "ok" ELSE "bad",
                  e |-> [u |-> FALSE, m |-> Subst(F.m, sub)]]

(* --- the machine ------------------------------------------------------------ *)
(* M: [stk, n, val, bad, open, inc]; n steps were taken; val maps the steps in    *)
(* keep (those referenced later as saved subproofs) to the entries they produced. *)
PInitK(keep) == [stk |-> <<>>, n |-> 0, val |-> <<>>, keep |-> keep, bad |-> FALSE, open |-> FALSE, inc |-> FALSE]
PInit == PInitK({})

Note(M, e) == [M EXCEPT !.n = @ + 1, !.val = IF M.n + 1 \in M.keep THEN (M.n + 1 :> e) @@ @ ELSE @]
Push(M, e) == [Note(M, e) EXCEPT !.stk = Append(@, e)]
Unknown == [u |-> TRUE, m |-> <<>>]

ActiveHyp(F, l) == (\E i \in DOMAIN F.hyps : F.hyps[i].l = l)
                   \/ (\E i \in DOMAIN F.opt : F.opt[i].l = l)
HypOf(F, l) == IF \E i \in DOMAIN F.hyps : F.hyps[i].l = l
               THEN F.hyps[CHOOSE i \in DOMAIN F.hyps : F.hyps[i].l = l]
               ELSE F.opt[CHOOSE i \in DOMAIN F.opt : F.opt[i].l = l]

(* D: finished database, T: the label being proved, tok: the next step *)
PStep(M, D, T, tok) ==
  LET F == D.frm[T] IN
  IF tok.t = "?" THEN [Push(M, Unknown) EXCEPT !.inc = TRUE]
  ELSE IF tok.t = "sav" THEN
     IF tok.v \in DOMAIN M.val THEN Push(M, M.val[tok.v])
     ELSE [Push(M, Unknown) EXCEPT !.bad = TRUE]
  ELSE IF ActiveHyp(F, tok.v) THEN Push(M, [u |-> FALSE, m |-> HypOf(F, tok.v).m])
  ELSE IF tok.v \notin DOMAIN D.frm \/ D.frm[tok.v].pos >= F.pos
     THEN [Push(M, Unknown) EXCEPT !.bad = TRUE]
  ELSE LET G == D.frm[tok.v]
           n == Len(G.hyps)
           k == Len(M.stk)
       IN IF k < n THEN [Push(M, Unknown) EXCEPT !.bad = TRUE]
          ELSE LET res == Apply(G, SubSeq(M.stk, k - n + 1, k), D.var, F.alld)
               IN [Note(M, res.e) EXCEPT
                            !.stk = Append(SubSeq(@, 1, k - n), res.e),
                            !.bad = @ \/ res.r = "bad",
                            !.open = @ \/ res.r = "open"]

(* "error" the proof is wrong; "incomplete" only unknown steps stand between  *)
(* it and a proof; "ok" it proves the statement; "any" depends on the unknown *)
Verdict(M, D, T) ==
  IF M.bad \/ Len(M.stk) # 1 THEN "error"
  ELSE IF M.open THEN "any"
  ELSE IF M.inc THEN "incomplete"
  ELSE IF M.stk[1].m = D.frm[T].m THEN "ok" ELSE "error"

(* --- decoding the written proof into step tokens -------------------------- *)
(* pf: [f |-> "n", s |-> tokens]  or  [f |-> "c", ls |-> labels, cs |-> chars] *)
NormalTok(x) == IF x = "?" THEN [t |-> "?"] ELSE [t |-> "lab", v |-> x]

CompRefs(F, pf) == [i \in 1..(Len(F.hyps) + Len(pf.ls)) |->
                     IF i <= Len(F.hyps) THEN F.hyps[i].l ELSE pf.ls[i - Len(F.hyps)]]

(* a parenthesised label must be an earlier assertion or an optional $f *)
CompLabelOK(D, F, l) ==
  \/ \E i \in DOMAIN F.opt : F.opt[i].l = l
  \/ l \in DOMAIN D.frm /\ D.frm[l].pos < F.pos

Decode(D, T, pf) ==                    \* [bad, toks, keep, legacy]
  IF pf.f = "n" THEN [bad |-> pf.s = <<>>, lost |-> pf.s = <<>>, keep |-> {}, toks |-> [i \in DOMAIN pf.s |-> NormalTok(pf.s[i])],
                      legacy |-> FALSE]
  ELSE LET F == D.frm[T]
           refs == TLCEval(CompRefs(F, pf))
           base == Len(refs)
           asr == TLCEval({i \in 1..base : refs[i] \in DOMAIN D.frm})
           C == TLCEval(CRun(pf.cs, base, asr, Legacy(pf.cs)))
           one(n) == IF n = 0 THEN [t |-> "?"]
                     ELSE IF n > base THEN [t |-> "sav", v |-> C.saved[n - base]]
                     ELSE [t |-> "lab", v |-> refs[n]]
       IN [bad |-> C.bad \/ \E i \in DOMAIN pf.ls : ~CompLabelOK(D, F, pf.ls[i]),
           \* a listed mandatory hypothesis is an error, but the steps are still known
           lost |-> C.bad \/ \E i \in DOMAIN pf.ls : ~CompLabelOK(D, F, pf.ls[i])
                                                     /\ pf.ls[i] \notin {F.hyps[j].l : j \in DOMAIN F.hyps},
           toks |-> [i \in DOMAIN C.steps |-> one(C.steps[i])],
           keep |-> Elems(C.saved),
           legacy |-> Legacy(pf.cs)]

PRun(M, D, T, toks) == FoldLeft(LAMBDA m, t : PStep(m, D, T, t), M, toks)

Judge(D, T, pf) ==
  LET d == Decode(D, T, pf) IN
  IF d.bad THEN "error" ELSE Verdict(PRun(PInitK(d.keep), D, T, d.toks), D, T)
=============================================================================
