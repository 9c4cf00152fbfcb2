------------------------------ MODULE MMMarkup ------------------------------
(* The conventions VERIFY MARKUP audits.  The state of an audit is the set of   *)
(* findings so far; one step per statement, then one for the lines of the file, *)
(* one for its symbols and one for the top of the file and the mathboxes.       *)
(* A finding is <<kind, about, n>> (n: the n-th of that kind on that line).     *)
(* must: findings the audit has to report; may: those about dates that cannot   *)
(* be read and so cannot be compared.                                           *)
EXTENDS MMDatabase, MMLabels

Sub(s, i, j) == IF i > j THEN "" ELSE SubSeq(s, i, j)
Ch(s, i) == SubSeq(s, i, i)
EndsIn(w, e) == Len(w) >= Len(e) /\ SubSeq(w, Len(w) - Len(e) + 1, Len(w)) = e
StartsWith(w, e) == Len(w) >= Len(e) /\ SubSeq(w, 1, Len(e)) = e
HasChar(w, c) == \E i \in 1..Len(w) : Ch(w, i) = c

(* ----- names of labels ------------------------------------------------------- *)
Lower == "abcdefghijklmnopqrstuvwxyz"
Capital == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Up(c) == IF \E i \in 1..26 : Ch(Lower, i) = c THEN Ch(Capital, CHOOSE i \in 1..26 : Ch(Lower, i) = c) ELSE c
Upper(l) == FoldLeft(LAMBDA a, i : a \o Up(Ch(l, i)), "", [i \in 1..Len(l) |-> i])
Device == {"CON", "PRN", "AUX", "NUL"} \cup {d \o ToString(i) : d \in {"COM", "LPT"}, i \in 1..9}
Reserved(l) == Upper(l) \in Device \/ StartsWith(Upper(l), "MM")

(* ----- dates ------------------------------------------------------------------ *)
Months == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
Digits(s) == s # "" /\ \A i \in 1..Len(s) : Ch(s, i) \in DOMAIN Digit
Val(s) == Num([i \in 1..Len(s) |-> Ch(s, i)])
NoDate == [ok |-> FALSE, exact |-> FALSE, d |-> 0, m |-> 0, y |-> 0]
Date(s) ==
  LET at == {i \in 1..Len(s) : Ch(s, i) = "-"} IN
  IF Cardinality(at) # 2 THEN NoDate ELSE
  LET i == CHOOSE x \in at : \A y \in at : x <= y
      j == CHOOSE x \in at : \A y \in at : x >= y
      d == Sub(s, 1, i - 1) m == Sub(s, i + 1, j - 1) y == Sub(s, j + 1, Len(s)) IN
  IF ~Digits(d) \/ ~Digits(y) \/ m \notin Elems(Months) THEN NoDate ELSE
  LET yy == IF Val(y) < 93 THEN Val(y) + 2000 ELSE IF Val(y) < 100 THEN Val(y) + 1900 ELSE Val(y) IN
  [ok |-> TRUE, d |-> Val(d), m |-> CHOOSE x \in 1..12 : Months[x] = m, y |-> yy,
   exact |-> ToString(Val(d)) = d /\ ToString(yy) = y]
Before(a, b) == a.y < b.y \/ (a.y = b.y /\ (a.m < b.m \/ (a.m = b.m /\ a.d < b.d)))
Valid(a) == a.ok /\ a.d \in 1..31

(* ----- the tags of a description (a sequence of words) -------------------------- *)
Opening == [C |-> <<"(Contributed", "by">>, R |-> <<"(Revised", "by">>, S |-> <<"(Proof", "shortened", "by">>]
Spot(w, p) == {i \in DOMAIN w : i + Len(p) - 1 <= Len(w) /\ SubSeq(w, i, i + Len(p) - 1) = p}
Marked(w, p) == Spot(w, p) # {}
NoProofChange == <<"(Proof", "modification", "is", "discouraged.)">>
NoNewUse == <<"(New", "usage", "is", "discouraged.)">>
Joined(w) == FoldLeft(LAMBDA a, x : IF a = "" THEN x ELSE a \o " " \o x, "", w)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
(* the first (Contributed by, the last of the others *)
Absent == [at |-> 0, end |-> 0, who |-> "", date |-> "", comma |-> FALSE]
Tag(w, t) ==
  LET S == Spot(w, Opening[t]) IN
  IF S = {} THEN Absent ELSE
  LET i == IF t = "C" THEN MinOf(S) ELSE MaxOf(S)
      b == i + Len(Opening[t])
      E == {j \in b..Len(w) : EndsIn(w[j], ".)")} IN
  IF E = {} THEN [Absent EXCEPT !.at = i] ELSE
  LET j == MinOf(E) n == Joined(SubSeq(w, b, j - 1)) IN
  [at |-> i, end |-> j, who |-> Sub(n, 1, Len(n) - 1), date |-> Sub(w[j], 1, Len(w[j]) - 2),
   comma |-> j > b /\ EndsIn(n, ",")]
Tags(w) == [C |-> Tag(w, "C"), R |-> Tag(w, "R"), S |-> Tag(w, "S")]
Kinds == {"C", "R", "S"}
Dates(T) == {T[t].date : t \in Kinds} \ {""}
Readable(T) == \A x \in Dates(T) : Date(x).ok
Latest(T) == IF Dates(T) = {} THEN NoDate      \* no date is before every date
             ELSE LET D == {Date(x) : x \in Dates(T)} IN CHOOSE x \in D : \A y \in D : ~Before(x, y)

DateMust(l, w) ==
  LET T == Tags(w)
      first(t) == MinOf(Spot(w, Opening[t])) IN
  {<<k, l, 1>> : k \in
    (IF T.C.at = 0 THEN {"none"} ELSE {}) \cup
    (IF Cardinality(Spot(w, Opening.C)) > 1 THEN {"many"} ELSE {}) \cup
    {"comma" \o t : t \in {x \in Kinds : T[x].at # 0 /\ ~T[x].comma}} \cup
    {"name" \o t : t \in {x \in Kinds : HasChar(T[x].who, ",")}} \cup
    (IF T.C.at # 0 /\ \E t \in {"R", "S"} : T[t].at # 0 /\ first(t) < T.C.at THEN {"after"} ELSE {}) \cup
    (IF \E t \in Kinds : T[t].at # 0 /\ (T[t].end = 0 \/ T[t].who = "" \/ T[t].date = "") THEN {"form"} ELSE {}) \cup
    {"date" \o t : t \in {x \in Kinds : T[x].date # "" /\ ~Date(T[x].date).exact}}}
DateOrder(l, w) ==
  LET T == Tags(w) IN
  {<<k, l, 1>> : k \in
    (IF T.C.date # "" /\ \E t \in {"R", "S"} : T[t].date # "" /\ ~Before(Date(T.C.date), Date(T[t].date)) THEN {"early"} ELSE {}) \cup
    (IF T.R.date # "" /\ T.S.date # ""
        /\ ((T.R.at < T.S.at /\ Before(Date(T.S.date), Date(T.R.date))) \/ (T.R.at > T.S.at /\ Before(Date(T.R.date), Date(T.S.date))))
     THEN {"order"} ELSE {})}
NeedsDate(s) == s.k = "p" \/ StartsWith(s.l, "df-") \/ StartsWith(s.l, "ax-")

(* ----- findings about one selected statement -------------------------------------- *)
None == [must |-> {}, may |-> {}]
Both(a, b) == [must |-> a.must \cup b.must, may |-> a.may \cup b.may]
Must(S) == [must |-> S, may |-> {}]
May(S) == [must |-> {}, may |-> S]

Names(s, q) ==
  (IF q.under /\ HasChar(s.l, "_") THEN {<<"underscore", s.l, 1>>} ELSE {}) \cup
  (IF s.k \in {"a", "p"} /\ Reserved(s.l) THEN {<<"reserved", s.l, 1>>} ELSE {}) \cup
  (IF s.k = "a" /\ s.m[1] = "|-" /\ ~StartsWith(s.l, "ax-") /\ ~StartsWith(s.l, "df-") THEN {<<"prefix", s.l, 1>>} ELSE {})

(* an axiom ax-x and the theorem axx *)
Twin(l) == "ax" \o Sub(l, 4, Len(l))
Compared(D, l) ==
  LET a == D.frm[l] b == D.frm[Twin(l)] IN
  IF a.m # b.m THEN Must({<<"assertions", l, 1>>})
  ELSE IF Len(a.hyps) # Len(b.hyps) THEN Must({<<"hypothesis count", l, 1>>})
  ELSE IF a.dv # b.dv THEN Must({<<"distinct", l, 1>>})
  ELSE LET e == IF \E i \in DOMAIN a.hyps : a.hyps[i].m # b.hyps[i].m THEN {<<"hypotheses", l, 1>>} ELSE {} IN
       IF Cardinality(a.dv) > 1 THEN May(e \cup {<<"distinct", l, 1>>})     \* the order of the pairs counts too
       ELSE Must(e)
Twins(D, s) == IF s.k = "a" /\ StartsWith(s.l, "ax-") /\ Twin(s.l) \in DOMAIN D.frm THEN Compared(D, s.l) ELSE None

Comment(s, q) ==
  LET T == Tags(s.w)
      who == (IF T.C.who = "?who?" THEN {<<"contributor", s.l, 1>>} ELSE {}) \cup (IF T.R.who = "?who?" THEN {<<"reviser", s.l, 1>>} ELSE {})
      old == EndsIn(s.l, "OLD") \/ EndsIn(s.l, "ALT")
      marks == (IF s.k = "a" /\ Marked(s.w, NoProofChange) THEN {<<"axiom discouraged", s.l, 1>>} ELSE {}) \cup
               (IF old /\ s.k = "p" /\ ~Marked(s.w, NoProofChange) THEN {<<"proof mark", s.l, 1>>} ELSE {}) \cup
               (IF old /\ ~Marked(s.w, NoNewUse) THEN {<<"usage mark", s.l, 1>>} ELSE {})
      dates == IF ~q.date \/ ~NeedsDate(s) THEN None
               ELSE Both(Must(DateMust(s.l, s.w)),
                         IF Readable(T) THEN Must(DateOrder(s.l, s.w)) ELSE May({<<"early", s.l, 1>>, <<"order", s.l, 1>>}))
  IN Both(Must(who \cup marks), dates)

Statement(D, s, q) ==
  Both(Must(Names(s, q)), IF s.k \in {"a", "p"} THEN Both(Twins(D, s), Comment(s, q)) ELSE None)

(* ----- findings about the file -------------------------------------------------------- *)
Symbols(db) ==
  LET S == UNION {Elems(db[i].m) : i \in {j \in DOMAIN db : db[j].k \in {"c", "v"}}} IN
  {<<"at", x, 1>> : x \in {y \in S : HasChar(y, "@")}} \cup {<<"question", x, 1>> : x \in {y \in S : HasChar(y, "?")}}

Tabs(s) == {i \in 1..Len(s) : Ch(s, i) = "\t"}
Lines(ls, width) ==
  UNION {(IF EndsIn(ls[i], " ") THEN {<<"space", ToString(i), 1>>} ELSE {}) \cup
         (IF Len(ls[i]) > width THEN {<<"long", ToString(i) \o ":" \o ToString(Len(ls[i])), 1>>} ELSE {}) \cup
         {<<"tab", ToString(i), n>> : n \in 1..Cardinality(Tabs(ls[i]))} : i \in DOMAIN ls}

(* top: the word after "Version of" in the first comment, or "" *)
Top(top, sel, db, q) ==
  LET T == [i \in sel |-> Tags(db[i].w)]
      D == Date(top)
      known == \A i \in sel : Readable(T[i])
      newer == \E i \in sel : Dates(T[i]) # {} /\ Before(D, Latest(T[i])) IN
  IF ~q.top THEN None
  ELSE IF top = "" THEN Must({<<"no version", "", 1>>})
  ELSE IF ~Valid(D) THEN Must({<<"bad version", top, 1>>})
  ELSE IF ~q.date THEN None
  ELSE IF ~known THEN May({<<"old version", top, 1>>})
  ELSE Must(IF newer THEN {<<"old version", top, 1>>} ELSE {})

(* box: the user named by the last heading "Mathbox for" before a statement, or "" *)
Boxes(db) ==
  LET M == {i \in DOMAIN db : db[i].l = "mathbox"} IN
  IF M = {} THEN {} ELSE {i \in DOMAIN db : i > MinOf(M) /\ db[i].box # ""}
BoxOf(B, i) == LET S == {b \in B : b <= i} IN IF S = {} THEN 0 ELSE MaxOf(S)
Mathboxes(db) ==
  LET B == Boxes(db)
      Num1(l) == CHOOSE j \in DOMAIN db : db[j].l = l
      uses == [i \in {j \in DOMAIN db : db[j].k = "p"} |-> {Num1(x) : x \in Elems(db[i].pf.s) \ {"?"}}] IN
  UNION {{<<"mathbox", db[i].l \o " " \o db[BoxOf(B, i)].box \o " " \o db[j].l \o " " \o db[BoxOf(B, j)].box, 1>> :
             j \in {x \in uses[i] : BoxOf(B, x) # 0 /\ BoxOf(B, x) # BoxOf(B, i)}} :
         i \in {x \in DOMAIN uses : BoxOf(B, x) # 0}}
=============================================================================
