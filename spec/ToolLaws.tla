------------------------------- MODULE ToolLaws -------------------------------
(* Every short file over a few lines: what the text tools promise together, and   *)
(* the commands tried on it in the real program.                                   *)
EXTENDS MMTools, Json
CONSTANTS Alpha, MaxLines, Strs
VARIABLES L, done
vars == <<L, done>>
Init == L = <<>> /\ done = FALSE
Grow == ~done /\ Len(L) < MaxLines /\ \E x \in Alpha : L' = Append(L, x) /\ done' = FALSE
Try == ~done /\ done' = TRUE /\ UNCHANGED L
Next == Grow \/ Try
Spec == Init /\ [][Next]_vars

Map(G(_)) == [i \in DOMAIN L |-> G(L[i])]
Set(M) == {M[i] : i \in DOMAIN M}
Und == Pick(L, LAMBDA n : TRUE)
Dup == Pick(L, LAMBDA n : n > 1)
Unq == Pick(L, LAMBDA n : n = 1)
Lists == Set(Und) = Set(L) /\ Set(Dup) \cup Set(Unq) = Set(Und) /\ Set(Dup) \cap Set(Unq) = {}
         /\ Len(Und) = Cardinality(Set(L)) /\ IsSortOf(Sorted(L), L, "")
         /\ \A i \in 1..(Len(Und) - 1) : Below(Und[i], Und[i + 1])
SortLaw == \A k \in Strs : IsSortOf(SortSeq(L, LAMBDA x, y : Below(KeyOf(x, k), KeyOf(y, k))), L, k)
Brk(M) == FlattenSeq([i \in DOMAIN M |-> Token(";", M[i])])
Words == /\ Brk(Brk(L)) = Brk(L)
         /\ Brk(Build(Brk(L))) = Brk(L)
         /\ Cat(Brk(L)) = Cat(Map(LAMBDA s : Clean({"D"}, s)))
CleanLaw ==
  \A i \in DOMAIN L : LET s == L[i] IN
    /\ \A o \in SUBSET {"B", "E", "R", "D", "C", "L"} : LET r == Clean(o, s) IN Clean(o, r) = r
    /\ Untab(Tab(Untab(s))) = Untab(s) /\ Len(Tab(Untab(s))) <= Len(Untab(s))
    /\ Clean({"B", "E"}, s) = Clean({"B"}, Clean({"E"}, s))
SubLaw ==
  \A i \in DOMAIN L : LET s == L[i] IN \A m \in Strs :
    /\ \A n \in 0..2 : Sub1(s, m, m, n) = s
    /\ Len(Sub1(s, m, "", 1)) = IF Has(s, m) THEN Len(s) - Len(m) ELSE Len(s)
    /\ Cat(Pieces(Sub1(s, m, "\n", 0))) = Sub1(s, m, "", 0) \/ Has(Sub1(s, m, "", 0), m)
    /\ Del1(m \o s, "", m).s = s /\ Del1(s, m, "").s = (IF Has(s, m) THEN SubSeq(s, 1, Find(s, m, 1) - 1) ELSE s)
    /\ Places(s, m) = 1 => Len(Swap1(s, m).s) = Len(s) /\ (Places(Swap1(s, m).s, m) = 1 => Swap1(Swap1(s, m).s, m).s = s)
    /\ \A c \in 1..4 : SubSeq(Ins1(s, m, c).s, c, c + Len(m) - 1) = m
                      /\ Len(Ins1(s, m, c).s) = Len(m) + (IF Len(s) < c - 1 THEN c - 1 ELSE Len(s))
TagLaw == \A s \in 1..3, e \in 1..3 :
  LET R == TagR(L, "<", "", "", s, "", e) IN \A i \in DOMAIN L : R[i].s = (IF i >= s /\ i < s + e THEN "<" \o L[i] ELSE L[i])
JoinLaw == \A n \in {"", "+"} :
  LET R == Join(L, "\\n", n, "") IN Len(R) = (Len(L) + 1) \div 2
     /\ (n = "" => Cat([i \in DOMAIN R |-> R[i].s]) = Cat(L))

Cmds == { <<"ADD", <<"", x>>>> : x \in Strs } \cup { <<"DELETE", <<x, y>>>> : x \in Strs \cup {""}, y \in Strs \cup {""} }
  \cup { <<"CLEAN", <<x>>>> : x \in {"B", "E", "R", "D", "U", "T", "C,Q", "B,R"} }
  \cup { <<"SUBSTITUTE", <<x, y, n, m>>>> : x \in Strs, y \in {"", "\\n", "ba"}, n \in {"2", "A"}, m \in {"", "b"} }
  \cup { <<"SUBSTITUTE", <<x, "+", "1", m>>>> : x \in {"\\n", "a\\n", "\\nb", "a\\na"}, m \in {"", "b"} }
  \cup { <<"SWAP", <<x>>>> : x \in Strs } \cup { <<"INSERT", <<x, y>>>> : x \in Strs, y \in {"1", "3"} }
  \cup { <<c, <<>>>> : c \in {"RIGHT", "BUILD", "REVERSE", "UNDUPLICATE", "DUPLICATE", "UNIQUE"} }
  \cup { <<"BREAK", <<x>>>> : x \in {"", " ", "a"} } \cup { <<"MATCH", <<x, y>>>> : x \in Strs \cup {""}, y \in {"Y", "N"} }
  \cup { <<"SORT", <<x>>>> : x \in Strs \cup {""} } \cup { <<"COUNT", <<x>>>> : x \in Strs }
  \cup { <<"TAG", <<"<", "", x, m, y, n>>>> : x \in {"", "a"}, y \in {"", "b"}, m \in {"1", "2"}, n \in {"1", "2"} }
Emit == done => PrintT("@@" \o ToJson(<<"FILE", L>>))
EmitCmds == (L = <<>> /\ ~done) => PrintT("@@" \o ToJson(<<"CMDS", SetToSeq(Cmds)>>))
=============================================================================
