------------------------------- MODULE MMTools -------------------------------
(* The text tools.  A file is [l |-> lines, nl |-> it ends with a line end].    *)
(* A command reads lines of files, writes at most one file - the older ones of    *)
(* that name become its versions - and says what it did.                           *)
EXTENDS MMFiles, FiniteSetsExt, Functions, Folds

Ch(s, i) == SubSeq(s, i, i)
Idx(n) == [i \in 1..n |-> i]
Cat(q) == FoldLeft(LAMBDA a, x : a \o x, "", q)
Rep(c, n) == FoldLeft(LAMBDA a, x : a \o c, "", Idx(IF n > 0 THEN n ELSE 0))
Front79(s) == SubSeq(s, 1, IF Len(s) < 79 THEN Len(s) ELSE 79)
Rest(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))

(* the first place at or after b where m is found in s; 0: there is none *)
Find(s, m, b) ==
  LET P == {p \in b..(Len(s) + 1 - Len(m)) : SubSeq(s, p, p + Len(m) - 1) = m}
  IN IF m = "" THEN Len(s) + 1 ELSE IF P = {} THEN 0 ELSE Min(P)
Has(s, m) == Find(s, m, 1) # 0
Places(s, m) == Cardinality({p \in 1..(Len(s) + 1 - Len(m)) : SubSeq(s, p, p + Len(m) - 1) = m})

(* ----- characters ------------------------------------------------------------ *)
Order == "\t\f !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Rank == TLCEval([c \in {Ch(Order, i) : i \in 1..Len(Order)} |-> CHOOSE i \in 1..Len(Order) : Ch(Order, i) = c])
Below(s, t) ==
  LET n == IF Len(s) < Len(t) THEN Len(s) ELSE Len(t)
      D == {i \in 1..n : Ch(s, i) # Ch(t, i)}
  IN IF D = {} THEN Len(s) < Len(t) ELSE Rank[Ch(s, Min(D))] < Rank[Ch(t, Min(D))]
Low == "abcdefghijklmnopqrstuvwxyz"
Upp == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
UpMap == TLCEval([c \in {Ch(Low, i) : i \in 1..26} |-> Ch(Upp, CHOOSE i \in 1..26 : Ch(Low, i) = c)])
LowMap == TLCEval([c \in {Ch(Upp, i) : i \in 1..26} |-> Ch(Low, CHOOSE i \in 1..26 : Ch(Upp, i) = c)])
Through(m, c) == IF c \in DOMAIN m THEN m[c] ELSE c
Up(s) == Cat([i \in 1..Len(s) |-> Through(UpMap, Ch(s, i))])
Digits == "0123456789"
DigVal == TLCEval([c \in {Ch(Digits, i) : i \in 1..10} |-> (CHOOSE i \in 1..10 : Ch(Digits, i) = c) - 1])
Num(s) == FoldLeft(LAMBDA a, i : IF Ch(s, i) \in DOMAIN DigVal THEN 10 * a + DigVal[Ch(s, i)] ELSE a, 0, Idx(Len(s)))
Blank(c) == c \in {" ", "\t"}

(* ----- CLEAN ------------------------------------------------------------------ *)
DropFront(s) == Rest(s, Min({i \in 1..(Len(s) + 1) : i > Len(s) \/ ~Blank(Ch(s, i))}))
DropEnd(s) == SubSeq(s, 1, Max({i \in 0..Len(s) : i = 0 \/ ~Blank(Ch(s, i))}))
\* characters one by one: o = letters asked for; within quotes (the quotes too) nothing is changed
Char1(o, c) ==
  IF "D" \in o /\ Blank(c) THEN "" ELSE IF "G" \in o /\ c = "\f" THEN ""
  ELSE IF "L" \in o THEN Through(LowMap, c) ELSE IF "C" \in o THEN Through(UpMap, c) ELSE c
Chars(o, s) ==
  FoldLeft(LAMBDA a, i : LET c == Ch(s, i)
                             q == IF "Q" \in o /\ c \in {"'", "\""} THEN ~a.q ELSE a.q
                         IN [q |-> q, r |-> a.r \o (IF q THEN c ELSE Char1(o, c))],
           [q |-> FALSE, r |-> ""], Idx(Len(s))).r
\* spaces and tabs in a row become one space; with Q too
Reduce(s) == Cat([i \in 1..Len(s) |-> IF ~Blank(Ch(s, i)) THEN Ch(s, i)
                                      ELSE IF i > 1 /\ Blank(Ch(s, i - 1)) THEN "" ELSE " "])
Untab(s) == FoldLeft(LAMBDA a, i : IF Ch(s, i) = "\t" THEN a \o Rep(" ", 8 - (Len(a) % 8)) ELSE a \o Ch(s, i), "", Idx(Len(s)))
\* two or more spaces before a tab stop inside the line are a tab
Stop(s, b) ==    \* the eight columns from b + 1
  IF b + 8 >= Len(s) THEN SubSeq(s, b + 1, Len(s))
  ELSE LET k == Max({i \in 0..8 : i = 0 \/ Ch(s, b + i) # " "})
       IN IF k <= 6 THEN SubSeq(s, b + 1, b + k) \o "\t" ELSE SubSeq(s, b + 1, b + 8)
Tab(s) == Cat([j \in 1..((Len(s) + 7) \div 8) |-> Stop(s, 8 * (j - 1))])
Clean(o, s) ==
  LET a == IF "B" \in o THEN DropFront(s) ELSE s
      b == Chars(o, a)
      c == IF "E" \in o THEN DropEnd(b) ELSE b
      d == IF "R" \in o THEN Reduce(c) ELSE c
      e == IF "U" \in o \/ "T" \in o THEN Untab(d) ELSE d
  IN IF "T" \in o THEN Tab(e) ELSE e
Letters(s) == {Ch(Up(s), i) : i \in 1..Len(s)}

(* ----- one line in, one line out -------------------------------------------------- *)
\* what the line becomes; c: it counts as changed
Line(s, t) == [s |-> t, c |-> s # t]
Del1(s, a, b) ==
  LET p == IF a = "" THEN 1 ELSE Find(s, a, 1)
      q == IF b = "" THEN Len(s) + 1 ELSE Find(s, b, p)
  IN IF p = 0 \/ q = 0 THEN Line(s, s)
     ELSE [s |-> SubSeq(s, 1, p - 1) \o Rest(s, q + Len(b)), c |-> TRUE]
\* whether the two strings found overlap, which is left open
DelOpen(s, a, b) == LET p == Find(s, a, 1) q == Find(s, b, p) IN a # "" /\ b # "" /\ p # 0 /\ q # 0 /\ q < p + Len(a)
Swap1(s, m) == LET p == Find(s, m, 1) IN IF p = 0 THEN Line(s, s) ELSE Line(s, Rest(s, p + Len(m)) \o m \o SubSeq(s, 1, p - 1))
Ins1(s, x, col) == LET t == s \o Rep(" ", col - 1 - Len(s)) IN Line(s, SubSeq(t, 1, col - 1) \o x \o Rest(t, col))
RECURSIVE SubAll(_, _, _, _)
SubAll(s, old, new, b) ==
  LET p == Find(s, old, b) IN
  IF p = 0 THEN s ELSE SubAll(SubSeq(s, 1, p - 1) \o new \o Rest(s, p + Len(old)), old, new, p + Len(new))
RECURSIVE Nth(_, _, _, _)
Nth(s, m, b, n) == LET p == Find(s, m, b) IN IF p = 0 \/ n = 1 THEN p ELSE Nth(s, m, p + 1, n - 1)
Sub1(s, old, new, occ) ==
  IF occ = 0 THEN SubAll(s, old, new, 1)
  ELSE LET p == Nth(s, old, 1, occ) IN IF p = 0 THEN s ELSE SubSeq(s, 1, p - 1) \o new \o Rest(s, p + Len(old))

(* ----- lists of words -------------------------------------------------------------- *)
Token(sp, s) ==
  LET st == FoldLeft(LAMBDA a, i :
        LET c == Ch(s, i)
            flush == IF a.w = "" THEN a.o ELSE Append(a.o, a.w)
        IN IF Blank(c) THEN [w |-> "", o |-> flush]
           ELSE IF Has(sp, c) THEN [w |-> "", o |-> Append(flush, c)]
           ELSE [w |-> a.w \o c, o |-> a.o], [w |-> "", o |-> <<>>], Idx(Len(s)))
  IN IF st.w = "" THEN st.o ELSE Append(st.o, st.w)
Build(L) ==
  LET st == FoldLeft(LAMBDA a, s :
        IF s = "" THEN a
        ELSE IF a.w = "" THEN [a EXCEPT !.w = s]
        ELSE IF Len(a.w) + Len(s) > 72 THEN [w |-> s, o |-> Append(a.o, a.w)]
        ELSE [a EXCEPT !.w = @ \o " " \o s], [w |-> "", o |-> <<>>], L)
  IN IF st.w = "" THEN st.o ELSE Append(st.o, st.w)

(* ----- SUBSTITUTE across lines -------------------------------------------------------- *)
\* \n in the string sought: a line is joined to the next where the string is found in the two
\* (it counts as changed if it is then another text than its first part)
Join(L, old, new, m) ==
  LET st == FoldLeft(LAMBDA a, i :
        IF a.skip THEN [a EXCEPT !.skip = FALSE]
        ELSE LET two == L[i] \o "\\n" \o L[i + 1]
                 p == Find(two, old, 1)
             IN IF i < Len(L) /\ Has(L[i], m) /\ p # 0
                THEN [skip |-> TRUE, o |-> Append(a.o, Line(L[i], SubSeq(two, 1, p - 1) \o new \o Rest(two, p + Len(old))))]
                ELSE [a EXCEPT !.o = Append(@, Line(L[i], L[i]))], [skip |-> FALSE, o |-> <<>>], Idx(Len(L)))
  IN st.o
\* \n as the replacement: the line is split where the string was
Pieces(s) ==
  LET st == FoldLeft(LAMBDA a, i : IF Ch(s, i) = "\n" THEN [w |-> "", o |-> Append(a.o, a.w)]
                                   ELSE [a EXCEPT !.w = @ \o Ch(s, i)], [w |-> "", o |-> <<>>], Idx(Len(s)))
  IN Append(st.o, st.w)

(* ----- what is said --------------------------------------------------------------------- *)
Pl(n) == IF n = 1 THEN "" ELSE "s"
T(n) == ToString(n)
NoLines(f) == <<"The file " \o f \o " has no lines.">>
SaidNone(f, n, first) == <<"The file " \o f \o " has " \o T(n) \o " line" \o Pl(n) \o "; none were changed.  First line:", first>>
SaidSome(f, n, k, at, first) ==
  <<"The file " \o f \o " has " \o T(n) \o " line" \o Pl(n) \o "; " \o T(k) \o " w" \o (IF k = 1 THEN "as" ELSE "ere")
    \o " changed.  First changed line is " \o T(at) \o ":", first>>
SaidOut(n, m, first) ==
  <<"The input had " \o T(n) \o " line" \o Pl(n) \o ", the output has " \o T(m) \o " line" \o Pl(m) \o "."
    \o (IF m = 0 THEN "" ELSE " First output line:")>> \o (IF m = 0 THEN <<>> ELSE <<first>>)
\* R: the lines, each with whether it counts as changed; g: the name given, f: of the output
Said(g, f, R) ==
  LET C == {i \in DOMAIN R : R[i].c} IN
  IF Len(R) = 0 THEN NoLines(g)
  ELSE IF C = {} THEN SaidNone(f, Len(R), Front79(R[1].s))
  ELSE SaidSome(f, Len(R), Cardinality(C), Min(C), Front79(R[Min(C)].s))
Texts(R) == [i \in DOMAIN R |-> R[i].s]

(* ----- TAG ----------------------------------------------------------------------------------- *)
TagR(L, beg, end, sm, sn, em, en) ==
  FoldLeft(LAMBDA a, s :
    LET st == IF a.s < sn /\ Has(s, sm) THEN a.s + 1 ELSE a.s
        in == st = sn /\ a.e < en
    IN [s |-> st, e |-> IF in /\ Has(s, em) THEN a.e + 1 ELSE a.e,
        o |-> Append(a.o, IF in THEN Line(s, beg \o s \o end) ELSE Line(s, s))],
    [s |-> 0, e |-> 0, o |-> <<>>], L).o

(* ----- sorting ---------------------------------------------------------------------------------- *)
KeyOf(s, key) == IF key = "" \/ Find(s, key, 1) = 0 THEN s ELSE Rest(s, Find(s, key, 1))
Sorted(L) == SortSeq(L, Below)
Times(L, x) == Cardinality({i \in DOMAIN L : L[i] = x})
IsSortOf(M, L, key) ==
  /\ Len(M) = Len(L) /\ \A i \in DOMAIN L : Times(M, L[i]) = Times(L, L[i])
  /\ \A i \in 1..(Len(M) - 1) : ~Below(KeyOf(M[i + 1], key), KeyOf(M[i], key))
\* the lines that occur n times for an n in N, once each, sorted
Pick(L, Good(_)) == SelectSeq(Sorted(SetToSeq({L[i] : i \in DOMAIN L})), LAMBDA x : Good(Times(L, x)))

(* ----- the commands -------------------------------------------------------------------------------- *)
OutName(f) == IF Len(f) > 2 /\ Ch(f, Len(f) - 1) = "~" THEN SubSeq(f, 1, Len(f) - 2) ELSE f
SaidName(f) == IF OutName(f) = f THEN <<>> ELSE <<"The output file will be called " \o OutName(f) \o ".">>
File(L) == [l |-> L, nl |-> TRUE]
Write(D, f, L) == Request(D, [k |-> "w", f |-> f, safe |-> TRUE, c |-> File(L)], 9)
Def(x, d) == IF x = "" THEN d ELSE x
NoFile(f) == "?Sorry, couldn't open the file \"" \o f \o "\"."
Refused(D) == [d |-> D, out |-> <<>>, refused |-> TRUE, open |-> FALSE]
Ok(D, out) == [d |-> D, out |-> out, refused |-> FALSE, open |-> FALSE]
Changed(D, f, R) == Ok(Write(D, OutName(f), Texts(R)), SaidName(f) \o Said(f, OutName(f), R))
ListMade(D, f, M, n, first) == Ok(Write(D, OutName(f), M), SaidName(f) \o SaidOut(n, Len(M), first))
First(M) == IF M = <<>> THEN "" ELSE Front79(M[1])
Resorted(D, f, L, M, count) ==
  Ok(Write(D, OutName(f), M), SaidName(f)
     \o (IF count THEN <<"The input file has " \o T(Len(L)) \o " lines.">> ELSE <<>>)
     \o <<"The output file has " \o T(Len(M)) \o " lines.  The first line is:", First(M)>>)
Split(s) == SelectSeq(LET st == FoldLeft(LAMBDA a, i : IF Ch(s, i) = "," THEN [w |-> "", o |-> Append(a.o, a.w)]
                                   ELSE [a EXCEPT !.w = @ \o Ch(s, i)], [w |-> "", o |-> <<>>], Idx(Len(s)))
                      IN Append(st.o, st.w), LAMBDA x : x # "")
Subst(D, f, L, old, new, occ, m) ==
  IF Has(old, "\\n") THEN
    LET R == Join(L, old, new, m) IN Changed(D, f, R)
  ELSE IF new # "\\n" THEN
    Changed(D, f, [i \in DOMAIN L |-> IF Has(L[i], m) THEN Line(L[i], Sub1(L[i], old, new, occ)) ELSE Line(L[i], L[i])])
  ELSE LET R == [i \in DOMAIN L |-> IF Has(L[i], m) THEN Pieces(Sub1(L[i], old, "\n", occ)) ELSE <<L[i]>>]
           M == FlattenSeq(R)
           C == {i \in DOMAIN R : Len(R[i]) > 1}
           k == FoldLeft(LAMBDA a, x : a + (IF Len(x) > 1 THEN Len(x) ELSE 0), 0, R)
       IN Ok(Write(D, OutName(f), M), SaidName(f) \o
             (IF L = <<>> THEN NoLines(f) ELSE IF C = {} THEN SaidNone(OutName(f), Len(M), Front79(M[1]))
              ELSE SaidSome(OutName(f), Len(M), k, 1, Front79(R[Min(C)][1]))))
Plainly(L) == \A i \in DOMAIN L : ~Has(L[i], ".") /\ ~Has(L[i], "-") /\ Cardinality({j \in 1..Len(L[i]) : Ch(L[i], j) \in DOMAIN DigVal}) < 8
Count(L, m) ==
  LET on == {i \in DOMAIN L : Has(L[i], m)}
      q == IF L = <<>> THEN 0 ELSE Max({Len(L[i]) : i \in DOMAIN L})
      lg == {i \in DOMAIN L : Len(L[i]) = q}
  IN <<"The file has " \o T(Len(L)) \o " lines.  The string \"" \o m \o "\" occurs "
       \o T(FoldLeft(LAMBDA a, s : a + Places(s, m), 0, L)) \o " times on " \o T(Cardinality(on)) \o " lines.">>
     \o (IF on = {} THEN <<>> ELSE <<"The first occurrence is on line " \o T(Min(on)) \o ":", L[Min(on)]>>)
     \o <<"The first longest line (out of " \o T(Cardinality(lg)) \o ") is line "
          \o T(IF L = <<>> THEN 0 ELSE Min(lg)) \o " and has " \o T(q) \o " characters:",
          IF L = <<>> THEN "" ELSE L[Min(lg)],
          "Stripping all but digits, \".\", and \"-\", the sum of lines is " \o (IF Plainly(L) THEN T(FoldLeft(LAMBDA a, s : a + Num(s), 0, L)) ELSE "?")>>

\* a: the arguments; got: the directory found afterwards (looked at only where order is free)
ToolStep(D, c, a, got) ==
  LET f == a[1]
      L == IF f \in DOMAIN D THEN D[f].l ELSE <<>>
      each(G(_)) == [i \in DOMAIN L |-> G(L[i])]
  IN
  IF c \notin {"COPY", "NUMBER"} /\ f \notin DOMAIN D THEN Refused(D)
  ELSE
  CASE c = "ADD" -> Changed(D, f, each(LAMBDA s : Line(s, a[2] \o s \o a[3])))
    [] c = "TAG" -> LET n(x) == IF Num(x) = 0 THEN 1 ELSE Num(x) IN
                    Changed(D, f, TagR(L, a[2], a[3], a[4], n(a[5]), a[6], n(a[7])))
    [] c = "DELETE" -> [Changed(D, f, each(LAMBDA s : Del1(s, a[2], a[3]))) EXCEPT
                         !.open = \E i \in DOMAIN L : DelOpen(L[i], a[2], a[3])]
    [] c = "CLEAN" -> LET o == Letters(Def(a[2], "B,E,R")) IN Changed(D, f, each(LAMBDA s : Line(s, Clean(o, s))))
    [] c = "SUBSTITUTE" -> LET o == Def(a[4], "1") IN
         Subst(D, f, L, a[2], a[3], IF Up(Ch(o, 1)) = "A" THEN 0 ELSE IF Num(o) = 0 THEN 1 ELSE Num(o), a[5])
    [] c = "SWAP" ->
         LET r == Changed(D, f, each(LAMBDA s : Swap1(s, a[2])))
             n == Cardinality({i \in DOMAIN L : Places(L[i], a[2]) > 1})
         IN [r EXCEPT !.out = @ \o (IF n = 0 THEN <<>> ELSE
              <<"Warning:  " \o T(n) \o " line" \o (IF n = 1 THEN " has" ELSE "s have") \o " more than one \"" \o a[2] \o "\".  The first one was used.">>)]
    [] c = "INSERT" -> Changed(D, f, each(LAMBDA s : Ins1(s, Def(a[2], "!"), Num(Def(a[3], "1")))))
    [] c = "RIGHT" -> LET w == Max({0} \cup {Len(L[i]) : i \in DOMAIN L}) IN
                      Changed(D, f, each(LAMBDA s : Line(s, Rep(" ", w - Len(s)) \o s)))
    [] c = "BREAK" -> LET M == FlattenSeq(each(LAMBDA s : Token(Def(a[2], "()[],=:;{}"), s))) IN ListMade(D, f, M, Len(L), First(M))
    [] c = "BUILD" -> LET M == Build(L) IN ListMade(D, f, M, Len(L), IF Len(M) = 1 THEN M[1] ELSE First(M))
    [] c = "MATCH" -> LET M == SelectSeq(L, LAMBDA s : (IF a[2] = "" THEN s # "" ELSE Has(s, a[2])) # (Up(Ch(Def(a[3], "Y"), 1)) = "N"))
                      IN ListMade(D, f, M, Len(L), First(M))
    [] c = "SORT" -> LET G == IF OutName(f) \in DOMAIN got THEN got[OutName(f)].l ELSE <<>>
                         M == IF IsSortOf(G, L, a[2]) THEN G ELSE SortSeq(L, LAMBDA x, y : Below(KeyOf(x, a[2]), KeyOf(y, a[2])))
                     IN Resorted(D, f, L, M, FALSE)
    [] c = "REVERSE" -> Resorted(D, f, L, Reverse(L), FALSE)
    [] c = "UNDUPLICATE" -> Resorted(D, f, L, Pick(L, LAMBDA n : TRUE), TRUE)
    [] c = "DUPLICATE" -> Resorted(D, f, L, Pick(L, LAMBDA n : n > 1), TRUE)
    [] c = "UNIQUE" -> Resorted(D, f, L, Pick(L, LAMBDA n : n = 1), TRUE)
    [] c = "PARALLEL" ->
         IF a[2] \notin DOMAIN D THEN Refused(D)
         ELSE LET R == D[a[2]].l
                  n == IF Len(L) > Len(R) THEN Len(L) ELSE Len(R)
                  at(Q, i) == IF i > Len(Q) THEN "" ELSE Q[i]
                  M == [i \in 1..n |-> at(L, i) \o a[4] \o at(R, i)]
                  o == Def(a[3], f)
              IN Ok(Write(D, o, M),
                   (IF Len(L) = Len(R) THEN <<"The input files each had " \o T(n) \o " lines.  The first output line is:">>
                    ELSE <<"Warning: file \"" \o f \o "\" had " \o T(Len(L)) \o " lines while file \"" \o a[2] \o "\" had " \o T(Len(R)) \o " lines.",
                           "The output file \"" \o o \o "\" has " \o T(n) \o " lines.  The first line is:">>)
                   \o <<IF n = 0 THEN "" ELSE M[1]>>)
    [] c = "NUMBER" ->
         LET lo == Num(Def(a[2], "1")) hi == Num(Def(a[3], "10")) by == Num(Def(a[4], "1")) IN
         IF by = 0 THEN Refused(D)
         ELSE LET n == IF hi < lo THEN 0 ELSE (hi - lo) \div by + 1 IN Ok(Write(D, Def(f, "n.tmp"), [i \in 1..n |-> T(lo + (i - 1) * by)]), <<>>)
    [] c = "COUNT" -> [Ok(D, Count(L, Def(a[2], ";"))) EXCEPT !.open = ~Plainly(L)]
    [] c = "TYPE" -> Ok(D, IF Up(Ch(Def(a[2], "10"), 1)) = "A" THEN L
                           ELSE SubSeq(L, 1, LET n == Num(Def(a[2], "10")) IN IF n < Len(L) THEN n ELSE Len(L)))
    [] c = "COPY" ->
         LET fs == Split(f) IN
         IF \E i \in DOMAIN fs : fs[i] \notin DOMAIN D THEN Refused(D)
         ELSE LET M == FlattenSeq([i \in DOMAIN fs |-> D[fs[i]].l]) IN
              Ok(Write(D, a[2], M),
                (IF ~Has(f, ",") THEN <<>> ELSE [i \in DOMAIN fs |-> "The input file \"" \o fs[i] \o "\" has " \o T(Len(D[fs[i]].l)) \o " lines."])
                \o <<"The output file \"" \o a[2] \o "\" has " \o T(Len(M)) \o " lines.">>)
=============================================================================
