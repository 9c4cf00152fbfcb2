------------------------------- MODULE MMFormat -------------------------------
(* Reformatting a source (WRITE SOURCE / FORMAT and / REWRAP).  A source is a   *)
(* sequence of pieces [k, ch, ws]: k = "t" a token or "c" a whole comment, ch   *)
(* its characters, ws the white space before it; a last piece "z" has the white *)
(* space at the end.                                                            *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

Blank == {" ", "\t", "\n", "\f", "\r"}
LowerCase == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}

(* ----- pieces of a text ----------------------------------------------------- *)
Init0 == [out |-> <<>>, ws |-> <<>>, ch |-> <<>>, word |-> <<>>, com |-> FALSE]
Piece(k, ch, ws) == [k |-> k, ch |-> ch, ws |-> ws]
Scan1(S, c) ==
  IF S.com
  THEN IF c \in Blank
       THEN IF S.word = <<"$", ")">>
            THEN [S EXCEPT !.out = Append(@, Piece("c", S.ch, S.ws)), !.ws = <<c>>, !.ch = <<>>, !.word = <<>>, !.com = FALSE]
            ELSE [S EXCEPT !.ch = Append(@, c), !.word = <<>>]
       ELSE [S EXCEPT !.ch = Append(@, c), !.word = IF Len(@) > 2 THEN @ ELSE Append(@, c)]
  ELSE IF c \in Blank
       THEN IF S.ch = <<>> THEN [S EXCEPT !.ws = Append(@, c)]
            ELSE IF S.ch = <<"$", "(">> THEN [S EXCEPT !.ch = Append(@, c), !.com = TRUE, !.word = <<>>]
            ELSE [S EXCEPT !.out = Append(@, Piece("t", S.ch, S.ws)), !.ws = <<c>>, !.ch = <<>>]
       ELSE [S EXCEPT !.ch = Append(@, c)]
Pieces(text) ==       \* text ends with a blank
  LET S == FoldLeft(Scan1, Init0, text) IN Append(S.out, Piece("z", <<>>, S.ws))

(* ----- words of a comment --------------------------------------------------- *)
Words(ch) ==
  LET Put(S, c) == IF c \in Blank THEN (IF S.w = <<>> THEN S ELSE [o |-> Append(S.o, S.w), w |-> <<>>])
                   ELSE [S EXCEPT !.w = Append(@, c)]
  IN FoldLeft(Put, [o |-> <<>>, w |-> <<>>], Append(ch, " ")).o

(* the same with math marks and label marks standing alone; a doubled mark is   *)
(* an escape and stays in its word                                              *)
Loose(ch) ==
  LET c == Append(ch, " ")
      Lone(i) == c[i] \in {"`", "~"} /\ (i = 1 \/ c[i - 1] # c[i]) /\ c[i + 1] # c[i]
      Put(S, i) == IF c[i] \in Blank THEN (IF S.w = <<>> THEN S ELSE [o |-> Append(S.o, S.w), w |-> <<>>])
                   ELSE IF Lone(i) THEN [o |-> (IF S.w = <<>> THEN S.o ELSE Append(S.o, S.w)) \o <<(<<c[i]>>)>>, w |-> <<>>]
                   ELSE [S EXCEPT !.w = Append(@, c[i])]
  IN FoldLeft(Put, [o |-> <<>>, w |-> <<>>], [i \in DOMAIN c |-> i]).o

(* the words (as above) of a comment that begin a paragraph: those after an      *)
(* empty line or a line of nothing but spaces                                   *)
Breaks(ch) ==
  LET c == Append(ch, " ")
      Lone(i) == c[i] \in {"`", "~"} /\ (i = 1 \/ c[i - 1] # c[i]) /\ c[i + 1] # c[i]
      Gone(S) == [S EXCEPT !.n = @ + 1, !.o = IF S.brk THEN @ \cup {S.n + 1} ELSE @, !.brk = FALSE]
      Put(S, i) == IF c[i] \in Blank
                     THEN LET R == IF S.w THEN Gone(S) ELSE S
                              nl == IF c[i] = "\n" THEN (IF S.w THEN 1 ELSE R.nl + 1) ELSE IF S.w THEN 0 ELSE R.nl
                          IN [R EXCEPT !.w = FALSE, !.nl = nl, !.brk = (~S.w /\ @) \/ nl > 1]
                   ELSE IF Lone(i) THEN [Gone(IF S.w THEN Gone(S) ELSE S) EXCEPT !.w = FALSE, !.nl = 0]
                   ELSE [S EXCEPT !.w = TRUE, !.nl = 0]
      E == FoldLeft(Put, [o |-> {}, n |-> 0, w |-> FALSE, nl |-> 0, brk |-> FALSE], [i \in DOMAIN c |-> i])
  IN E.o \ {1, 2, E.n}           \* not the words $(, the first one and $)

(* a description that ends with a lower-case letter gets a period *)
Ended(w) ==           \* w: the words, the last being $)
  LET n == Len(w) - 1 IN
  IF n > 1 /\ Last(w[n]) \in LowerCase THEN [w EXCEPT ![n] = Append(@, ".")] ELSE w

(* the lines of a comment that are not blank, each with the number of blank     *)
(* lines before it (two at most)                                                *)
Lines(ch) ==
  LET Put(S, c) == IF c = "\n" THEN [o |-> Append(S.o, S.w), w |-> <<>>] ELSE [S EXCEPT !.w = Append(@, c)]
  IN FoldLeft(Put, [o |-> <<>>, w |-> <<>>], Append(ch, "\n")).o
Kept(ch) ==
  LET Put(S, l) == LET w == Words(l) IN
        IF w = <<>> THEN [S EXCEPT !.n = IF @ = 2 THEN 2 ELSE @ + 1]
        ELSE [o |-> Append(S.o, <<S.n, w>>), n |-> 0]
  IN FoldLeft(Put, [o |-> <<>>, n |-> 0], Lines(ch)).o

(* a comment of short words has no line longer than width that could have been  *)
(* broken between two plain words (outside formulas)                            *)
Plain(w) == \A i \in DOMAIN w : w[i] \in LowerCase
TooLong(ch, col, width) ==
  LET L == Lines([i \in 1..col |-> " "] \o ch)
      Marks(l) == Cardinality({i \in DOMAIN l : l[i] = "`"})
      Upto(n) == FoldLeft(LAMBDA a, i : a + Marks(L[i]), 0, [i \in 1..n |-> i])
      short == \A i \in DOMAIN L : \A w \in ToSet(Words(L[i])) : 3 * Len(w) < width
  IN short /\ width >= 60 /\ \E i \in DOMAIN L :
       /\ Len(L[i]) > width
       /\ LET w == Words(L[i]) IN
          \E j \in 1..(Len(w) - 1) :
             /\ Plain(w[j]) /\ Plain(w[j + 1])
             /\ (Upto(i - 1) + FoldLeft(LAMBDA a, k : a + Marks(w[k]), 0, [k \in 1..j |-> k])) % 2 = 0

HasPart(s, p) == \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p
Untouched == <<"<", "H", "T", "M", "L", ">">>

(* ----- the parts of statements ---------------------------------------------- *)
Key(p) == p.k = "t" /\ Len(p.ch) = 2 /\ p.ch[1] = "$"
IsKey(p, c) == Key(p) /\ p.ch[2] = c
(* role of every piece: "pre" before the label or the keyword, "label", "post"   *)
(* between the label and the keyword, "key", "math", "proof" (from $= to $.)     *)
Roles(ps) ==
  LET Step(S, p) ==
        LET r == CASE S.m \in {"math", "proof"} -> IF p.k = "t" /\ IsKey(p, "=") THEN "proof" ELSE S.m
                   [] p.k = "z" -> "pre"
                   [] p.k = "c" -> IF S.lab THEN "post" ELSE "pre"
                   [] Key(p) -> "key"
                   [] OTHER -> "label"
            m == CASE r = "key" -> IF p.ch[2] \in {"{", "}"} THEN "head" ELSE "math"
                   [] r \in {"math", "proof"} -> IF p.k = "t" /\ IsKey(p, ".") THEN "head" ELSE r
                   [] OTHER -> "head"
        IN [o |-> Append(S.o, r), m |-> m, lab |-> IF m # "head" THEN FALSE ELSE IF r = "label" THEN TRUE ELSE IF r = "key" THEN FALSE ELSE S.lab /\ r = "post"]
  IN FoldLeft(Step, [o |-> <<>>, m |-> "head", lab |-> FALSE], ps).o

(* labels of $a and $p statements *)
Described(ps, ro) ==
  {i \in DOMAIN ps : ro[i] = "label" /\ LET k == CHOOSE j \in i..Len(ps) : ro[j] = "key" /\ \A x \in i..(j - 1) : ro[x] # "key"
                                        IN IsKey(ps[k], "a") \/ IsKey(ps[k], "p")}
(* the last comment directly before label i, or 0 *)
Description(ps, i) == IF i > 1 /\ ps[i - 1].k = "c" THEN i - 1 ELSE 0

Dummy == <<"$","("," ","P","L","E","A","S","E"," ","P","U","T"," ","D","E","S","C","R","I","P","T","I","O","N"," ","H","E","R","E","."," ","$",")">>

(* ----- b is a rendered anew ------------------------------------------------- *)
(* the pieces of a that are not (properly) found in b; {0}: too many or too few *)
Column(ws) == IF \E i \in DOMAIN ws : ws[i] = "\n" THEN Len(ws) - (CHOOSE i \in DOMAIN ws : ws[i] = "\n" /\ \A j \in (i + 1)..Len(ws) : ws[j] # "\n") ELSE Len(ws)

Lost(a, b, rewrap, width) ==
  LET ra == Roles(a)
      da == {Description(a, i) : i \in Described(a, ra)} \ {0}
      bare == {i \in Described(a, ra) : Description(a, i) = 0}
      at == [i \in DOMAIN a |-> i + Cardinality({j \in bare : j <= i})]     \* where piece i of a is in b
      Same(i) ==
        LET p == a[i] q == b[at[i]] IN
        /\ q.k = p.k
        /\ ra[i] = "proof" => q = p \/ (IsKey(p, "=") /\ q.ch = p.ch)
        /\ IF p.k = "t" THEN q.ch = p.ch
           ELSE IF i \in da /\ HasPart(p.ch, Untouched) THEN Kept(q.ch) = Kept(p.ch)
           ELSE IF i \in da /\ rewrap THEN Loose(q.ch) = Ended(Loose(p.ch)) /\ Breaks(q.ch) = Breaks(p.ch) /\ ~TooLong(q.ch, Column(q.ws), width)
           ELSE Words(q.ch) = Words(p.ch)
      Here(i) == /\ at[i] <= Len(b) /\ Same(i)
                 /\ i \in bare => b[at[i] - 1].k = "c" /\ Words(b[at[i] - 1].ch) = Words(Dummy)
  IN {i \in DOMAIN a : ~Here(i)} \cup (IF Len(b) = Len(a) + Cardinality(bare) THEN {} ELSE {0})
=============================================================================
