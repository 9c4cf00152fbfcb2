------------------------------ MODULE LabelGen ------------------------------
(* Every wildcard pattern up to a length, and the labels it selects.            *)
EXTENDS MMLabels, Json
CONSTANTS PatLen, LabLen
VARIABLES pt
Chars == {"a", "b"}
Labels == TLCEval(UNION {[1..n -> Chars] : n \in 1..LabLen})
\* what it means, without a machine
RECURSIVE Means(_, _)
Means(p, s) == IF p = <<>> THEN s = <<>>
               ELSE IF p[1] = "*" THEN \E i \in 0..Len(s) : Means(Tail(p), SubSeq(s, i + 1, Len(s)))
               ELSE s # <<>> /\ p[1] \in {"?", s[1]} /\ Means(Tail(p), Tail(s))
Init == pt = <<>>
Next == Len(pt) < PatLen /\ \E c \in Chars \cup {"*", "?"} : pt' = Append(pt, c)
Spec == Init /\ [][Next]_pt
Agree == \A s \in Labels : Wild(pt, s) = Means(pt, s)
Report == pt # <<>> => PrintT("@@" \o ToJson(<<"CASE", FoldLeft(LAMBDA a, c : a \o c, "", pt), {FoldLeft(LAMBDA a, c : a \o c, "", s) : s \in {x \in Labels : Wild(pt, x)}}>>))
=============================================================================
