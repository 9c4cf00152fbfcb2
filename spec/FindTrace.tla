------------------------------ MODULE FindTrace ------------------------------
(* Recorded answers of SHOW LABELS and SEARCH in sessions that also save and     *)
(* prove statements.  A case: [stmts, q, lc, cm]; lc: the characters of every    *)
(* label and symbol; cm: per statement the words of the comment before it.       *)
EXTENDS MMLabels, Json, IOUtils
Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE_FILE))
VARIABLES cs, st
vars == <<cs, st>>

Low == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
Upp == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
UpMap == TLCEval([c \in ToSet(Low) |-> Upp[CHOOSE i \in 1..26 : Low[i] = c]])
Upper(s) == [i \in DOMAIN s |-> IF s[i] \in DOMAIN UpMap THEN UpMap[s[i]] ELSE s[i]]

(* A formula as a line: every symbol between two blanks of its own.  $* stands   *)
(* for any part of the line, as a symbol of its own for any symbols; $? for any   *)
(* one character ("zero" characters: a blank); $ and ? are short for them.        *)
Line(M, toks) == FlattenSeq([i \in DOMAIN toks |-> <<" ">> \o M[toks[i]] \o <<" ">>])
Star == "star"
AnyC == "any"
Sym(t) == \* one symbol of the pattern
  FoldLeft(LAMBDA a, c :
     LET n == Len(a)
     IN IF n > 0 /\ a[n] = "$" THEN
             (IF c = "?" THEN [a EXCEPT ![n] = AnyC] ELSE IF c = "*" THEN [a EXCEPT ![n] = Star]
              ELSE IF c = "$" THEN Append([a EXCEPT ![n] = Star], "$") ELSE Append([a EXCEPT ![n] = Star], c))
        ELSE Append(a, IF c = "?" THEN AnyC ELSE c), <<>>, t)
SymEnd(s) == IF s # <<>> /\ s[Len(s)] = "$" THEN [s EXCEPT ![Len(s)] = Star] ELSE s
LinePat(syms) == <<Star>> \o FlattenSeq([i \in DOMAIN syms |->
                    IF syms[i] \in {<<"$">>, <<"$", "*">>} THEN <<Star>> ELSE <<" ">> \o SymEnd(Sym(syms[i])) \o <<" ">>]) \o <<Star>>
RECURSIVE Slip(_, _)
Slip(p, S) == LET T == S \cup {i + 1 : i \in {j \in S : j <= Len(p) /\ p[j] = Star}} IN IF T = S THEN S ELSE Slip(p, T)
Fits(p, s) ==
  (Len(p) + 1) \in FoldLeft(LAMBDA S, c :
       Slip(p, {i + 1 : i \in {j \in S : j <= Len(p) /\ p[j] \in {c, AnyC}}} \cup {j \in S : j <= Len(p) /\ p[j] = Star}),
       Slip(p, {1}), s)
Within(p, s) == \E i \in 0..(Len(s) - Len(p)) : SubSeq(s, i + 1, i + Len(p)) = p

\* logical hypotheses open where statement n stands
Hyps(C, n) == LET M == FoldLeft(LAMBDA a, i :
                    CASE C.stmts[i].k = "{" -> Append(a, <<>>)
                      [] C.stmts[i].k = "}" -> SubSeq(a, 1, Len(a) - 1)
                      [] C.stmts[i].k = "e" -> [a EXCEPT ![Len(a)] = Append(@, i)]
                      [] OTHER -> a, <<<<>>>>, [j \in 1..(n - 1) |-> j])
              IN FlattenSeq(M)
Shown(C, n, join) ==
  LET s == C.stmts[n]
  IN IF ~join \/ s.k \notin {"a", "p"} THEN s.m
     ELSE LET h == Hyps(C, n)
          IN IF h = <<>> THEN s.m
             ELSE FlattenSeq([i \in DOMAIN h |-> <<"$e">> \o C.stmts[h[i]].m]) \o <<"$" \o s.k>> \o s.m
Plain(C, n, join) == LET x == Shown(C, n, join) IN IF Len(x) > Len(C.stmts[n].m) THEN x ELSE <<"$" \o C.stmts[n].k>> \o x

Stm(C) == [i \in DOMAIN C.stmts |-> [k |-> C.stmts[i].k, c |-> IF C.stmts[i].l = "" THEN <<>> ELSE C.lc[C.stmts[i].l]]]
Kind(C, I, all) == {i \in I : C.stmts[i].l # "" /\ (all \/ C.stmts[i].k \in {"a", "p"})}
Thms(C, I) == {i \in I : C.stmts[i].k = "p"}
Head1(C, q) == \A i \in DOMAIN q.ans : C.stmts[q.ans[i][1]].l = q.ans[i][2]
Is(q, want) == /\ {q.ans[i][1] : i \in DOMAIN q.ans} = want
               /\ \A i \in 1..(Len(q.ans) - 1) : q.ans[i][1] < q.ans[i + 1][1]

\* the state of the session: what is proved now, and what was changed
Do(C, S, P, q) ==
  CASE q.t = "prove" -> [P EXCEPT !.proving = CHOOSE i \in DOMAIN C.stmts : C.stmts[i].l = q.T]
    [] q.t = "save" -> [P EXCEPT !.changed = @ \cup Thms(C, Select(S, P, q.pat))]
    [] OTHER -> P
OK(C, S, P, q) ==
  LET I == Select(S, P, q.pat)
  IN CASE q.t = "labels" -> Is(q, Kind(C, I, q.all)) /\ Head1(C, q) /\ \A i \in DOMAIN q.ans : q.ans[i][3] = C.stmts[q.ans[i][1]].k
       [] q.t = "search" ->
            LET p == LinePat(q.sym)
            IN Is(q, {i \in Kind(C, I, q.all) : Fits(p, Line(C.lc, Shown(C, i, q.join)))}) /\ Head1(C, q)
               /\ \A i \in DOMAIN q.ans : q.ans[i][3] = Plain(C, q.ans[i][1], q.join)
       [] q.t = "notes" ->
            LET txt(i) == Upper(FlattenSeq([j \in DOMAIN C.cm[i] |-> (IF j = 1 THEN <<>> ELSE <<" ">>) \o C.cc[C.cm[i][j]]]))
            IN Is(q, {i \in Kind(C, I, q.all) : Within(Upper(q.str), txt(i))}) /\ Head1(C, q)
               /\ \A i \in DOMAIN q.ans : q.ans[i][3] = C.stmts[q.ans[i][1]].k /\ q.ans[i][4] = C.cm[q.ans[i][1]]
       [] q.t = "save" -> LET T == Thms(C, I) IN q.ans = SelectSeq([i \in DOMAIN C.stmts |-> C.stmts[i].l], LAMBDA l : \E i \in T : C.stmts[i].l = l)
       [] OTHER -> TRUE
Judge(C) ==
  LET S == TLCEval(Stm(C))
      R == FoldLeft(LAMBDA a, i : [P |-> Do(C, S, a.P, C.q[i]), bad |-> IF OK(C, S, a.P, C.q[i]) THEN a.bad ELSE a.bad \cup {i}],
                    [P |-> [proving |-> 0, changed |-> {}], bad |-> {}], [j \in DOMAIN C.q |-> j])
  IN R.bad
Init == cs \in 1..Len(Cases) /\ st = <<>>
Next == st = <<>> /\ st' = <<Judge(Cases[cs])>> /\ UNCHANGED cs
Spec == Init /\ [][Next]_vars
Report == st # <<>> => PrintT("@@" \o ToJson(<<IF st[1] = {} THEN "ACCEPT" ELSE "REJECT", cs, st[1]>>))
=============================================================================
