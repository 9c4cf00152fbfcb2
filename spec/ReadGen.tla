------------------------------- MODULE ReadGen -------------------------------
(* Every short source over an alphabet, with the specification's verdict.      *)
(* Alphabet "S": whole statements (rules on scopes, symbols, labels);          *)
(* alphabet "T": single tokens (the recogniser and comments).                  *)
EXTENDS MMSource, Json
CONSTANTS Which, MaxLen

Pool == IF Which = "S" THEN
   << <<"$c","a","$.">>, <<"$c","b","x","$.">>, <<"$v","x","$.">>, <<"$v","y","x","$.">>,
      <<"${">>, <<"$}">>, <<"$d","x","y","$.">>, <<"f","$f","a","x","$.">>, <<"g","$f","a","y","$.">>,
      <<"e","$e","a","x","$.">>, <<"p","$a","a","x","$.">>, <<"a","$a","a","$.">> >>
  ELSE << <<"$c">>, <<"$v">>, <<"$a">>, <<"$p">>, <<"$=">>, <<"$.">>, <<"${">>, <<"$}">>, <<"a">>, <<"b">>, <<"$(">>, <<"$)">> >>
Tok(t) == MkTok([t |-> t, ch |-> CASE t \in {"$.", "$=", "$c", "$v", "$a", "$p", "$d", "$f", "$e", "${", "$}", "$(", "$)"} ->
             <<"$", IF t = "$(" THEN "(" ELSE IF t = "$)" THEN ")" ELSE "k">> [] OTHER -> <<t>>])

VARIABLES src, X, T
Prefix == IF Which = "S" THEN <<>> ELSE <<"$c", "a", "$.">>
Feed(XX, TT, toks) ==
  LET X2 == FoldLeft(LAMBDA z, t : XStep(z, Tok(t), <<>>), [XX EXCEPT !.out = <<>>], toks)
  IN <<X2, FoldLeft(TStep, TT, X2.out)>>
Init == LET z == Feed(XInit({}, <<>>), TInit, Prefix) IN src = Prefix /\ X = z[1] /\ T = z[2]
Next == /\ X.bad = {} /\ T.bad = {} /\ Len(src) < 200
        /\ T.D.bad = {}
        /\ \E i \in DOMAIN Pool : LET z == Feed(X, T, Pool[i]) IN src' = src \o Pool[i] /\ X' = z[1] /\ T' = z[2]
Spec == Init /\ [][Next]_<<src, X, T>>
Depth == TLCGet("level") <= MaxLen
OK == LET x == XEnd(X) IN x.bad = {} /\ TEnd(T).bad = {}
Emit == PrintT("@@" \o ToJson(<<"CASE", src, OK>>))
(* design-level facts *)
\* an accepted source leaves no scope open and no statement unfinished
Closed == OK => T.D.marks = <<>> /\ T.mode = "label" /\ X.mode = "text"
\* hypotheses and distinct pairs outside every scope were declared outside every scope
Scoped == (T.D.marks = <<>> /\ T.bad = {}) => \A p \in T.D.ds : p \subseteq T.D.av
\* frames mention only symbols declared at that moment, and are never changed later
FramesWF == \A l \in DOMAIN T.D.frm : T.D.frm[l].vars \subseteq T.D.var
=============================================================================
