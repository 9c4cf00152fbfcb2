------------------------------- MODULE MMWrite -------------------------------
(* What READ keeps of the text and what WRITE SOURCE puts back.                *)
(* A file is a sequence of pieces:                                             *)
(*   [k |-> "t", s]      text (which may contain comments)                     *)
(*   [k |-> "i", f, s]   an inclusion command  $[ f $]  spelled s              *)
(*   [k |-> "b", f, s], [k |-> "e", f, s]  marks around an expanded inclusion  *)
(*   [k |-> "s", f, s]   mark for an inclusion that is not repeated            *)
(*   [k |-> "r", s]      a line end in a foreign convention, read as newline   *)
(*   [k |-> "z", s |-> ""]  the missing newline at the end of a file           *)
(* The buffer is such a sequence without "i", "r", "z" pieces.                 *)
EXTENDS MMFiles

Str(ps) == FoldLeft(LAMBDA a, p : a \o p.s, "", ps)
Norm(p) == IF p.k \in {"r", "z"} THEN [k |-> "t", s |-> "\n"] ELSE p
NStr(ps) == FoldLeft(LAMBDA a, p : a \o Norm(p).s, "", ps)      \* as the program reads it
B(f) == [k |-> "b", f |-> f, s |-> "$( Begin $[ " \o f \o " $] $)\n"]
E(f) == [k |-> "e", f |-> f, s |-> "$( End $[ " \o f \o " $] $)"]
K(f) == [k |-> "s", f |-> f, s |-> "$( Skip $[ " \o f \o " $] $)"]
I(f) == [k |-> "i", f |-> f, s |-> "$[ " \o f \o " $]"]

\* position of the mark that closes the "b" at i: the first end mark of the same file
CloseOf(ps, i) == CHOOSE j \in (i + 1)..Len(ps) : ps[j].k = "e" /\ ps[j].f = ps[i].f
                     /\ \A h \in (i + 1)..(j - 1) : ~(ps[h].k = "e" /\ ps[h].f = ps[i].f)

(* ----- READ: expand D[name]; inc = names already included ---------------------- *)
RECURSIVE Exp(_, _, _, _)
Exp(D, ps, i, X) ==       \* X = [out, inc, miss]
  IF i > Len(ps) THEN X
  ELSE LET p == ps[i] IN
    CASE p.k \in {"t", "r", "z"} -> Exp(D, ps, i + 1, [X EXCEPT !.out = Append(@, Norm(p))])
      [] p.k \in {"i", "s"} ->
           IF p.f \in X.inc
           THEN Exp(D, ps, i + 1, [X EXCEPT !.out = Append(@, IF p.k = "s" THEN p ELSE K(p.f))])
           ELSE IF p.f \notin DOMAIN D THEN [X EXCEPT !.miss = TRUE]
           ELSE LET Y == Exp(D, D[p.f], 1, [X EXCEPT !.out = Append(@, B(p.f)), !.inc = @ \cup {p.f}])
                IN Exp(D, ps, i + 1, [Y EXCEPT !.out = Append(@, E(p.f))])
      [] p.k = "b" ->
           LET j == CloseOf(ps, i)
           IN IF p.f \in X.inc
              THEN Exp(D, ps, j + 1, [X EXCEPT !.out = Append(@, K(p.f))])
              ELSE LET Y == Exp(D, SubSeq(ps, i + 1, j - 1), 1, [X EXCEPT !.out = Append(@, p), !.inc = @ \cup {p.f}])
                   IN Exp(D, ps, j + 1, [Y EXCEPT !.out = Append(@, ps[j])])
      [] p.k = "e" -> Exp(D, ps, i + 1, [X EXCEPT !.out = Append(@, p)])
Read(D, main) ==
  IF main \notin DOMAIN D THEN [out |-> <<>>, inc |-> {}, miss |-> TRUE] ELSE Exp(D, D[main], 1, [out |-> <<>>, inc |-> {main}, miss |-> FALSE])

(* ----- WRITE SOURCE --------------------------------------------------------------- *)
\* names of the expanded inclusions, in order
Included(buf) == SelectSeq(buf, LAMBDA p : p.k = "b")

\* the text of the file itself: expanded inclusions become commands again
RECURSIVE Fold1(_, _, _)
Fold1(ps, i, out) ==
  IF i > Len(ps) THEN out
  ELSE IF ps[i].k = "b" THEN Fold1(ps, CloseOf(ps, i) + 1, Append(out, I(ps[i].f)))
  ELSE IF ps[i].k = "s" THEN Fold1(ps, i + 1, Append(out, I(ps[i].f)))
  ELSE Fold1(ps, i + 1, Append(out, ps[i]))
\* the parts a split writes, inner files before the files that contain them
RECURSIVE Parts(_, _, _)
Parts(ps, i, out) ==
  IF i > Len(ps) THEN out
  ELSE IF ps[i].k = "b"
  THEN LET j == CloseOf(ps, i)
           in == SubSeq(ps, i + 1, j - 1)
       IN Parts(ps, j + 1, Append(Parts(in, 1, out), [f |-> ps[i].f, c |-> Fold1(in, 1, <<>>)]))
  ELSE Parts(ps, i + 1, out)

WriteWhole(D, buf, out, keep, safe, N) ==
  LET D1 == Request(D, [k |-> "w", f |-> out, safe |-> safe, c |-> buf], N)
  IN IF keep THEN D1
     ELSE FoldLeft(LAMBDA X, p : IF p.f \in DOMAIN X THEN Request(X, [k |-> "d", f |-> p.f, safe |-> safe], N) ELSE X,
                   D1, Included(buf))

\* an included file is only replaced when it differs; a missing one comes back from its backup
WritePart(D, p, N) ==
  IF p.f \in DOMAIN D
  THEN IF NStr(D[p.f]) = Str(p.c) THEN D ELSE Request(D, [k |-> "w", f |-> p.f, safe |-> TRUE, c |-> p.c], N)
  ELSE IF Bak(p.f, 1) \in DOMAIN D /\ NStr(D[Bak(p.f, 1)]) = Str(p.c) THEN Put(Del(D, Bak(p.f, 1)), p.f, D[Bak(p.f, 1)])
  ELSE Put(D, p.f, p.c)
WriteSplit(D, buf, out, N) ==
  IF \E p \in ToSet(Included(buf)) \cup ToSet(SelectSeq(buf, LAMBDA q : q.k = "s")) : p.f = out THEN D   \* refused
  ELSE Request(FoldLeft(LAMBDA X, p : WritePart(X, p, N), D, Parts(buf, 1, <<>>)),
               [k |-> "w", f |-> out, safe |-> TRUE, c |-> Fold1(buf, 1, <<>>)], N)

Write(D, buf, q, N) ==
  IF q.split THEN WriteSplit(D, buf, q.out, N) ELSE WriteWhole(D, buf, q.out, q.keep, q.safe, N)
=============================================================================
