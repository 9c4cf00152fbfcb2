------------------------------ MODULE MMSource ------------------------------
(* From characters to statements.  A source is a set of files; a file is a   *)
(* sequence of lines; a line is a sequence of one-character strings.         *)
(*   Lex     characters -> raw tokens                                        *)
(*   Expand  raw tokens of all files -> one token stream without comments    *)
(*   TStep   one token of that stream: the statement recogniser, which       *)
(*           drives DbStep of MMDatabase                                     *)
EXTENDS MMProof

Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
DigitCh == {"0","1","2","3","4","5","6","7","8","9"}
LabelCh == Lower \cup Upper \cup DigitCh \cup {"-", "_", "."}
Punct == {"!","\"","#","%","&","'","(",")","*","+",",","/",":",";","<","=",">","?","@","[","\\","]","^","`","{","|","}","~","$"}
Printable == LabelCh \cup Punct
White == {" ", "\t", "\f", "\r"}

(* ----- lexing --------------------------------------------------------------- *)
NoTok == [t |-> "", ch |-> <<>>]
HasPairIn(s, a, b) == \E i \in 1..(Len(s) - 1) : s[i] = a /\ s[i + 1] = b
MkTok(x) ==
  [ t |-> x.t, ch |-> x.ch,
    dol |-> \E i \in DOMAIN x.ch : x.ch[i] = "$",
    opn |-> HasPairIn(x.ch, "$", "("), cls |-> HasPairIn(x.ch, "$", ")"),
    lab |-> Elems(x.ch) \subseteq LabelCh,
    ill |-> ~(Elems(x.ch) \subseteq Printable) ]
LexStep(S, c) ==
  IF c \in White
  THEN IF S.cur = NoTok THEN S ELSE [S EXCEPT !.out = Append(@, MkTok(S.cur)), !.cur = NoTok]
  ELSE [S EXCEPT !.cur = [t |-> @.t \o c, ch |-> Append(@.ch, c)]]
LexLine(line) == FoldLeft(LexStep, [out |-> <<>>, cur |-> NoTok], Append(line, " ")).out
Lex(lines) == FlattenSeq([i \in DOMAIN lines |-> LexLine(lines[i])])

(* ----- comments and inclusion ------------------------------------------------ *)
(* X: [mode, held, out, inc, bad]: mode "text", "comment", "file" (after $[),   *)
(* "close" (awaiting $]) ; ret: the mode a comment returns to                  *)
XInit(inc, out) == [mode |-> "text", ret |-> "text", fn |-> "", out |-> out, inc |-> inc, bad |-> {}]
XBad(X, w) == [X EXCEPT !.bad = @ \cup {w}]

CommentTok(X, k) ==
  IF k.t = "$)" THEN [X EXCEPT !.mode = X.ret]
  ELSE IF k.cls THEN XBad(X, "comment-end-not-separate")
  ELSE IF k.opn THEN XBad(X, "nested-comment")
  ELSE IF k.ill THEN XBad(X, "illegal-character")
  ELSE X

RECURSIVE Expand(_, _, _, _)
XStep(X, k, files) ==
  IF X.bad # {} THEN X
  ELSE IF X.mode = "comment" THEN CommentTok(X, k)
  ELSE IF k.ill THEN XBad(X, "illegal-character")
  ELSE IF k.t = "$(" THEN [X EXCEPT !.ret = X.mode, !.mode = "comment"]
  ELSE IF X.mode = "file" THEN [X EXCEPT !.mode = "close", !.fn = k.t]
  ELSE IF X.mode = "close" THEN
     IF k.t # "$]" THEN XBad(X, "include-not-closed")
     ELSE IF X.fn \in X.inc THEN [X EXCEPT !.mode = "text"]
     ELSE IF X.fn \notin DOMAIN files THEN XBad(X, "file-missing")
     ELSE LET Y == Expand(files, X.fn, X.inc \cup {X.fn}, X.out) IN
          [X EXCEPT !.mode = "text", !.out = Y.out, !.inc = Y.inc, !.bad = Y.bad]
  ELSE IF k.t = "$[" THEN [X EXCEPT !.mode = "file"]
  ELSE [X EXCEPT !.out = Append(@, k)]
\* a file must not end inside a comment or an inclusion
XEnd(X) == IF X.bad # {} \/ X.mode = "text" THEN X ELSE XBad(X, "file-ends-inside-" \o X.mode)
Expand(files, name, inc, out) ==
  XEnd(FoldLeft(LAMBDA X, k : XStep(X, k, files), XInit(inc, out), files[name]))

Flatten(files, main) ==
  IF main \notin DOMAIN files THEN XBad(XInit({}, <<>>), "file-missing") ELSE Expand(files, main, {main}, <<>>)

(* ----- the statement recogniser --------------------------------------------- *)
Keywords == {"$c", "$v", "$d", "$f", "$e", "$a", "$p", "${", "$}", "$.", "$="}
KwLetter(t) == CASE t = "$c" -> "c" [] t = "$v" -> "v" [] t = "$d" -> "d" [] t = "$f" -> "f"
   [] t = "$e" -> "e" [] t = "$a" -> "a" [] t = "$p" -> "p" [] t = "${" -> "{" [] t = "$}" -> "}"

TInit == [mode |-> "label", labs |-> <<>>, k |-> "", m |-> <<>>, pf |-> <<>>,
          D |-> DbInit, list |-> <<>>, pfs |-> <<>>, bad |-> {}]
TBad(T, w) == [T EXCEPT !.bad = @ \cup {w}]

\* finish a statement: judge its label part, then the database rules
Close(T) ==
  LET named == Len(T.labs) > 0
      l == IF named THEN T.labs[1].t ELSE ""
      w == (IF Labelled(T.k) /\ ~named THEN {"label-missing"} ELSE {})
           \cup (IF ~Labelled(T.k) /\ named THEN {"label-not-allowed"} ELSE {})
           \cup (IF Len(T.labs) > 1 THEN {"two-labels"} ELSE {})
           \cup (IF named /\ ~T.labs[1].lab THEN {"label-characters"} ELSE {})
      s == [k |-> T.k, l |-> l, m |-> T.m]
      D2 == IF w = {} THEN DbStep(T.D, s) ELSE T.D
  IN [T EXCEPT !.mode = "label", !.labs = <<>>, !.m = <<>>, !.pf = <<>>,
               !.D = D2, !.bad = @ \cup w \cup D2.bad,
               !.list = IF T.k \in {"{", "}"} THEN @ ELSE Append(@, s),
               !.pfs = IF T.k = "p" THEN (l :> T.pf) @@ @ ELSE @]

TStep(T, k) ==
  IF T.bad # {} THEN T
  ELSE IF k.dol /\ k.t \notin Keywords THEN TBad(T, "stray-dollar")
  ELSE IF T.mode = "label" THEN
     IF ~k.dol THEN [T EXCEPT !.labs = Append(@, k)]
     ELSE IF k.t \in {"$.", "$="} THEN TBad(T, "keyword-expected")
     ELSE IF k.t \in {"${", "$}"} THEN Close([T EXCEPT !.k = KwLetter(k.t)])
     ELSE [T EXCEPT !.k = KwLetter(k.t), !.mode = "math"]
  ELSE IF T.mode = "math" THEN
     IF ~k.dol THEN [T EXCEPT !.m = Append(@, k.t)]
     ELSE IF T.k = "p" THEN (IF k.t = "$=" THEN [T EXCEPT !.mode = "proof"] ELSE TBad(T, "proof-expected"))
     ELSE IF k.t = "$." THEN Close(T) ELSE TBad(T, "end-expected")
  ELSE IF ~k.dol THEN [T EXCEPT !.pf = Append(@, k)]
     ELSE IF k.t = "$." THEN Close(T) ELSE TBad(T, "end-expected")

TEnd(T) == IF T.bad # {} THEN T
           ELSE IF T.mode # "label" THEN TBad(T, "statement-not-finished")
           ELSE IF T.labs # <<>> THEN TBad(T, "tokens-after-last-statement")
           ELSE [T EXCEPT !.bad = FinalComplaints(T.D)]

Recognise(toks) == TEnd(FoldLeft(TStep, TInit, toks))

(* what READ says of a source: the set of broken rules, {} = accepted           *)
ReadSource(files, main) ==
  LET X == Flatten(files, main)
      T == IF X.bad # {} THEN TBad(TInit, "x") ELSE Recognise(X.out)
  IN [bad |-> X.bad \cup T.bad, T |-> T]

(* ----- proof text to the form MMProof judges (separate tokens) ----------------- *)
RECURSIVE FirstClose(_, _)
FirstClose(p, i) == IF i > Len(p) THEN 0 ELSE IF p[i].t = ")" THEN i ELSE FirstClose(p, i + 1)
ProofForm(p) ==
  IF p # <<>> /\ p[1].t = "("
  THEN LET j == FirstClose(p, 1) IN
       [f |-> "c", ls |-> [i \in 1..(j - 2) |-> p[i + 1].t],
        cs |-> FlattenSeq([i \in 1..(Len(p) - j) |-> p[i + j].ch])]
  ELSE [f |-> "n", s |-> [i \in DOMAIN p |-> p[i].t]]
=============================================================================
