------------------------------ MODULE MMExtract ------------------------------
(* WRITE SOURCE ... /EXTRACT: the part of a database some statements need.      *)
(* A source is a sequence of statements [k, l, m, (pf), b, sec]: sec are the     *)
(* comments written in front of the statement (or after its label), b the words  *)
(* of its body as written.  The last element of a source has k = "": only its     *)
(* sec, the comments after the last statement, counts.  A comment is             *)
(*   [k |-> "h", lev, ti, ps]   heading of level 1..4 (huge, big, small, tiny)    *)
(*   [k |-> "t" | "x" | "n", ti, ps]  definitions; never kept; a note             *)
(* ti are words, ps a sequence of words and references [r |-> label or "", w].     *)
EXTENDS MMDeps, MMLabels

(* ----- what a statement needs besides other assertions ------------------------- *)
CtxInit == [con |-> <<>>, v |-> <<>>, f |-> {}, e |-> {}, d |-> <<>>, open |-> <<>>, saved |-> <<>>,
            close |-> <<>>, decl |-> <<>>, act |-> <<>>]
Decls(X, m) == {IF t \in DOMAIN X.v THEN X.v[t] ELSE X.con[t] : t \in {m[j] : j \in DOMAIN m}}
CtxStep(Src, X, i) ==
  LET s == Src[i]
      X1 == [X EXCEPT !.decl = Append(@, IF s.k \in {"a", "p", "e", "f", "d"} THEN Decls(X, s.m) ELSE {}),
                      !.act = Append(@, IF s.k \in {"a", "p"}
                                        THEN [v |-> X.v, f |-> X.f, e |-> X.e, d |-> X.d, open |-> X.open] ELSE <<>>)]
      Decl(F) == [t \in {s.m[j] : j \in DOMAIN s.m} |-> i] @@ F
  IN CASE s.k = "c" -> [X1 EXCEPT !.con = Decl(@)]
       [] s.k = "v" -> [X1 EXCEPT !.v = Decl(@)]
       [] s.k = "f" -> [X1 EXCEPT !.f = @ \cup {i}]
       [] s.k = "e" -> [X1 EXCEPT !.e = @ \cup {i}]
       [] s.k = "d" -> [X1 EXCEPT !.d = @ @@ [p \in Pairs(s.m) |-> i]]     \* a pair given before stays where it is
       [] s.k = "{" -> [X1 EXCEPT !.open = Append(@, i), !.saved = Append(@, [v |-> X.v, f |-> X.f, e |-> X.e, d |-> X.d])]
       [] s.k = "}" -> LET n == Len(X.open)
                           o == X.saved[n] IN
                       [X1 EXCEPT !.close = (X.open[n] :> i) @@ @, !.open = SubSeq(@, 1, n - 1), !.saved = SubSeq(@, 1, n - 1),
                                  !.v = o.v, !.f = o.f, !.e = o.e, !.d = o.d]
       [] OTHER -> X1
Context(Src) == FoldLeft(LAMBDA X, i : CtxStep(Src, X, i), CtxInit, [i \in DOMAIN Src |-> i])

(* mandatory ones for an axiom, all active ones for a theorem, whose proof may    *)
(* use them                                                                      *)
Around(Src, D, X, i) ==
  LET A == X.act[i]
      mv == D.frm[Src[i].l].vars
      all == Src[i].k = "p"
  IN {A.open[j] : j \in DOMAIN A.open} \cup {X.close[A.open[j]] : j \in DOMAIN A.open}
     \cup A.e \cup {j \in A.f : all \/ Src[j].m[2] \in mv}
     \cup {A.v[x] : x \in {y \in DOMAIN A.v : all \/ y \in mv}}
     \cup {A.d[p] : p \in {q \in DOMAIN A.d : all \/ q \subseteq mv}}

ReadSrc(Src) == ReadAll(SubSeq(Src, 1, Len(Src) - 1))
Kept(Src, D, proofs, X, sel) ==     \* indices of the kept statements
  LET A == {i \in sel : Src[i].k \in {"a", "p"}}
      L == Reach(D, proofs, {Src[i].l : i \in A}, DOMAIN D.frm, FALSE)
      asr == {i \in DOMAIN Src : Src[i].k \in {"a", "p"} /\ Src[i].l \in L}
      N == asr \cup UNION {Around(Src, D, X, i) : i \in asr}
  IN N \cup UNION {X.decl[i] : i \in N}

(* ----- headings ------------------------------------------------------------------ *)
\* of the headings in one place, the last of each level that no higher one follows
Heads(sec) ==
  LET at(lev, from) == {j \in DOMAIN sec : j > from /\ sec[j].k = "h" /\ sec[j].lev = lev}
      last(lev, from) == IF at(lev, from) = {} THEN 0 ELSE CHOOSE j \in at(lev, from) : \A h \in at(lev, from) : h <= j
      up(a, b) == IF b = 0 THEN a ELSE b
      j1 == last(1, 0)
      j2 == last(2, j1)
      j3 == last(3, up(j1, j2))
      j4 == last(4, up(up(j1, j2), j3))
  IN <<j1, j2, j3, j4>>
\* kept when something is kept before the next heading of its level or higher
HeadNeeded(H, K, top, i, lev) ==
  /\ H[i][lev] # 0
  /\ LET stop == {j \in i + 1..top : \E h \in 1..lev : H[j][h] # 0}
         end == IF stop = {} THEN top ELSE (CHOOSE j \in stop : \A h \in stop : j <= h) - 1
     IN \E j \in i..end : j \in K

(* ----- the text ------------------------------------------------------------------- *)
Url(l) == "http://us.metamath.org/mpeuni/" \o l \o ".html"
\* a reference to a statement left behind becomes one to the web
Piece(p, known, kept) ==
  IF p.r = "" THEN p.w
  ELSE IF p.r \in known /\ p.r \notin kept THEN <<p.r, "~", Url(p.r)>>
  ELSE <<"~", p.r>>
Com(x, known, kept) == [k |-> "(", l |-> "", b |-> x.ti \o FlattenSeq([j \in DOMAIN x.ps |-> Piece(x.ps[j], known, kept)])]
Whole(x) == [k |-> "(", l |-> "", b |-> x.ti \o FlattenSeq([j \in DOMAIN x.ps |-> IF x.ps[j].r = "" THEN x.ps[j].w ELSE <<"~", x.ps[j].r>>])]
Bare(s) == [k |-> s.k, l |-> s.l, b |-> s.b]

Extract(Src, K) ==
  LET n == Len(Src)
      top == CHOOSE j \in K \cup {0} : \A h \in K : h <= j
      H == TLCEval([i \in DOMAIN Src |-> Heads(Src[i].sec)])
      known == {Src[i].l : i \in {j \in DOMAIN Src : Src[j].k \in {"a", "p"}}}    \* hypotheses have no page
      kept == {Src[i].l : i \in {j \in K : Src[j].k \in {"a", "p"}}}
      one(i) ==
        LET sec == Src[i].sec
            heads == IF i > top THEN <<>>
                     ELSE FlattenSeq([lev \in 1..4 |-> IF HeadNeeded(H, K, top, i, lev) THEN <<Com(sec[H[i][lev]], known, kept)>> ELSE <<>>])
            defs == FlattenSeq([j \in DOMAIN sec |-> IF sec[j].k = "t" THEN <<Whole(sec[j])>> ELSE <<>>])
            note == IF i \in K /\ sec # <<>> /\ sec[Len(sec)].k = "n" THEN <<Com(sec[Len(sec)], known, kept)>> ELSE <<>>
        IN heads \o defs \o note \o (IF i \in K THEN <<Bare(Src[i])>> ELSE <<>>)
  IN FlattenSeq([i \in 1..n |-> one(i)])

Toks(Src, I, k) == UNION {{Src[i].m[j] : j \in DOMAIN Src[i].m} : i \in {h \in I : Src[h].k = k}}
Spare(Src, K, k) == Toks(Src, DOMAIN Src, k) \ Toks(Src, K, k)      \* symbols no kept statement declares

(* ----- what it is for ---------------------------------------------------------------- *)
(* The kept statements are a database by themselves, and each assertion in it means what *)
(* it did.                                                                              *)
OwnStmts(Src, K) == SelectSeq([i \in DOMAIN Src |-> [i |-> i, s |-> Src[i]]], LAMBDA x : x.i \in K)
SelfContained(Src, D, K) ==
  LET O == OwnStmts(Src, K)
      E == TLCEval(ReadAll([j \in DOMAIN O |-> O[j].s]))
      rest(k) == Spare(Src, K, k)
  IN /\ E.bad = {} /\ FinalComplaints(E) = {}
     /\ DOMAIN E.frm \subseteq DOMAIN D.frm
     /\ \A l \in DOMAIN E.frm :
          /\ E.frm[l].hyps = D.frm[l].hyps /\ E.frm[l].m = D.frm[l].m /\ E.frm[l].dv = D.frm[l].dv
          /\ E.frm[l].k = "p" => E.frm[l].opt = D.frm[l].opt /\ E.frm[l].alld = D.frm[l].alld
     /\ rest("c") \cap (E.con \cup E.var) = {} /\ rest("v") \cap (E.con \cup E.var) = {}
==============================================================================
