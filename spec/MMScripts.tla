------------------------------ MODULE MMScripts ------------------------------
(* Command lines, however they are given: typed at a prompt, as answers to      *)
(* questions, as arguments of the program, in command files that call others;   *)
(* abbreviated, quoted, with or without spaces.  The machine says which complete *)
(* commands are carried out and in what order, what is shown and what the log    *)
(* records.  What a command itself says is left open: it is whatever the command  *)
(* says when it is typed in full at the prompt (the k-th output, [e |-> "o"]).    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

Ch(s, i) == SubSeq(s, i, i)
Low == "abcdefghijklmnopqrstuvwxyz"
Upp == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
UpMap == TLCEval([c \in {Ch(Low, i) : i \in 1..26} |-> Ch(Upp, CHOOSE i \in 1..26 : Ch(Low, i) = c)])
RECURSIVE Fold(_, _, _, _)
Up(s) == FoldLeft(LAMBDA a, i : a \o (IF Ch(s, i) \in DOMAIN UpMap THEN UpMap[Ch(s, i)] ELSE Ch(s, i)), "", [i \in 1..Len(s) |-> i])
Fold(s, i, a, b) == IF i = 0 THEN a ELSE Fold(s, i - 1, b \o a, b)      \* b repeated i times before a
Blanks(s, n) == FoldLeft(LAMBDA a, i : a \o (IF i <= Len(s) /\ Ch(s, i) = "\t" THEN "\t" ELSE " "), "", [i \in 1..n |-> i])

(* ----- words of a line ----------------------------------------------------------- *)
(* Separated by white space; / and = are words of their own; quotes enclose a word     *)
(* (and an open one is closed by the end of the line); ! in front makes a comment.      *)
LexInit == [mode |-> "between", w |-> "", at |-> 0, out |-> <<>>]
LexEnd(L) == [L EXCEPT !.out = Append(@, [t |-> L.w, at |-> L.at]), !.mode = "between", !.w = ""]
LexStep(L, c, i) ==
  LET M == IF L.mode = "word" /\ c \in {" ", "\t", "/", "=", "'", "\""} THEN LexEnd(L) ELSE L IN
  CASE M.mode \in {"'", "\""} -> IF c = M.mode THEN LexEnd(M) ELSE [M EXCEPT !.w = @ \o c]
    [] c \in {" ", "\t"} -> M
    [] c \in {"/", "="} -> [M EXCEPT !.out = Append(@, [t |-> c, at |-> i])]
    [] c \in {"'", "\""} -> [M EXCEPT !.mode = c, !.at = i + 1, !.w = ""]
    [] M.mode = "word" -> [M EXCEPT !.w = @ \o c]
    [] OTHER -> [M EXCEPT !.mode = "word", !.w = c, !.at = i]
Words(s) ==
  IF s # "" /\ Ch(s, 1) = "!" THEN <<>>
  ELSE LET L == FoldLeft(LAMBDA a, i : LexStep(a, Ch(s, i), i), LexInit, [i \in 1..Len(s) |-> i]) IN
       IF L.mode = "between" THEN L.out ELSE LexEnd(L).out

(* ----- the language of commands ------------------------------------------------------ *)
None == <<>>
\* a keyword out of a list, with what follows each; d: the answer taken for an empty one
Kw(o, d, b) == [t |-> "kw", o |-> o, d |-> d, b |-> b]
Opt(o, b) == [t |-> "opt", o |-> o, d |-> "", b |-> b]       \* a keyword that may be left out
Plain(o, d) == Kw(o, d, <<>>)
Txt(q, d) == [t |-> "any", q |-> q, d |-> d]
Num(q, d) == [t |-> "num", q |-> q, d |-> d]
File(q, d) == [t |-> "file", q |-> q, d |-> d]
Sw(o, d, many, b) == [t |-> "sw", o |-> o, d |-> d, many |-> many, b |-> b]
Need == [t |-> "need"]
NoLog == [t |-> "nolog"]
After(it, x) == IF x \in DOMAIN it.b THEN it.b[x] ELSE <<>>
Open == [t |-> "open"]       \* a command that is not described here
WhatLabels == "What are the labels to match (* = wildcard) <*>?"
WhatStep == "What step number, or FIRST, or LAST <LAST>? "
Column == <<Num("At what column should the formula start <16>? ", "16")>>
From == <<Num("From what step <1>? ", "1")>>
To == <<Num("To what step <9999>? ", "9999")>>
Depth == <<Num("How many indentation levels <999>? ", "999")>>
Label == <<Txt("What statement label? ", "")>>
Pattern == <<Txt("What statement label match pattern? ", "")>>
StmtQ == Txt("@", "@")    \* its question names the statement looked at last: left open
\* a switch that is ON or OFF: the other setting is what an empty answer means
Toggle(now) == <<Plain(<<"ON", "OFF">>, IF now = "ON" THEN "OFF" ELSE "ON")>>
OneOf(o, d) == <<Plain(o, d)>>
NumQ(q, now) == <<Num(q \o " <" \o now \o ">? ", now)>>
PatQ == Txt("What statement label match pattern? ", "")
Forms == <<"NORMAL", "PACKED", "COMPRESSED", "EXPLICIT">>
HelpTopics == <<"LANGUAGE", "PROOF_ASSISTANT", "MM-PA", "BEEP", "EXIT", "QUIT", "READ", "ERASE", "OPEN", "CLOSE", "SHOW", "SEARCH", "SET",
                "VERIFY", "SUBMIT", "SYSTEM", "PROVE", "FILE", "WRITE", "MARKUP", "ASSIGN", "REPLACE", "MATCH", "UNIFY", "LET",
                "INITIALIZE", "DELETE", "IMPROVE", "MINIMIZE_WITH", "EXPAND", "UNDO", "REDO", "SAVE", "DEMO", "INVOKE", "CLI", "EXPLORE",
                "TEX", "LATEX", "HTML", "COMMENTS", "BIBLIOGRAPHY", "MORE", "TOOLS", "MIDI", "nothing">>
HelpOn ==
  ("OPEN" :> OneOf(<<"LOG", "TEX">>, "LOG")) @@ ("CLOSE" :> OneOf(<<"LOG", "TEX">>, "LOG"))
  @@ ("SHOW" :> OneOf(<<"MEMORY", "SETTINGS", "LABELS", "SOURCE", "STATEMENT", "PROOF", "NEW_PROOF", "USAGE", "TRACE_BACK", "ELAPSED_TIME",
                        "DISCOURAGED">>, "MEMORY"))
  @@ ("SET" :> OneOf(<<"ECHO", "SCROLL", "WIDTH", "HEIGHT", "UNDO", "UNIFICATION_TIMEOUT", "DISCOURAGEMENT", "CONTRIBUTOR",
                       "ROOT_DIRECTORY", "EMPTY_SUBSTITUTION", "SEARCH_LIMIT", "JEREMY_HENTY_FILTER">>, "ECHO"))
  @@ ("VERIFY" :> OneOf(<<"PROOF", "MARKUP">>, "PROOF"))
  @@ ("WRITE" :> OneOf(<<"SOURCE", "THEOREM_LIST", "BIBLIOGRAPHY", "RECENT_ADDITIONS">>, "SOURCE"))
  @@ ("FILE" :> OneOf(<<"SEARCH">>, "")) @@ ("SAVE" :> OneOf(<<"PROOF", "NEW_PROOF">>, "PROOF"))

SaveProof == <<Need, StmtQ, Sw(Forms \o <<"FAST", "OLD_COMPRESSION", "TIME">>, "NORMAL", TRUE, <<>>)>>
ShowCmds == <<"SETTINGS", "LABELS", "STATEMENT", "SOURCE", "PROOF", "MEMORY", "TRACE_BACK", "USAGE", "ELAPSED_TIME", "DISCOURAGED">>
ShowRest ==
  ("TRACE_BACK" :> <<Need, StmtQ, Sw(<<"ALL", "ESSENTIAL", "AXIOMS", "TREE", "DEPTH", "COUNT_STEPS", "MATCH", "TO">>, "ALL", TRUE,
                                    ("DEPTH" :> Depth) @@ ("MATCH" :> Label) @@ ("TO" :> Label))>>)
  @@ ("USAGE" :> <<Need, StmtQ, Sw(<<"DIRECT", "RECURSIVE", "ALL">>, "DIRECT", TRUE, <<>>)>>)
  @@ ("LABELS" :> <<Need, Txt(WhatLabels, "*"), Sw(<<"ALL", "LINEAR">>, "ALL", TRUE, <<>>)>>)
  @@ ("STATEMENT" :> <<Need, StmtQ, Sw(<<"FULL", "COMMENT", "TEX", "OLD_TEX", "HTML", "ALT_HTML", "TIME", "BRIEF_HTML",
                                        "BRIEF_ALT_HTML", "MNEMONICS", "NO_VERSIONING">>, "FULL", TRUE, <<>>)>>)
  @@ ("SOURCE" :> <<Need, StmtQ>>)
  @@ ("PROOF" :> <<Need, StmtQ, Sw(<<"ESSENTIAL", "ALL", "UNKNOWN", "FROM_STEP", "TO_STEP", "DEPTH", "REVERSE", "VERBOSE", "NORMAL",
                                    "PACKED", "COMPRESSED", "EXPLICIT", "FAST", "OLD_COMPRESSION", "STATEMENT_SUMMARY",
                                    "DETAILED_STEP", "TEX", "OLD_TEX", "HTML", "LEMMON", "START_COLUMN", "NO_REPEATED_STEPS",
                                    "RENUMBER", "SIZE">>, "ESSENTIAL", TRUE,
                                  ("FROM_STEP" :> From) @@ ("TO_STEP" :> To) @@ ("DEPTH" :> Depth) @@ ("START_COLUMN" :> Column)
                                  @@ ("DETAILED_STEP" :> <<Num("Display details of what step <1>? ", "1")>>))>>)
  @@ ("NEW_PROOF" :> <<Need, Sw(<<"ESSENTIAL", "ALL", "UNKNOWN", "FROM_STEP", "TO_STEP", "DEPTH", "REVERSE", "VERBOSE", "NORMAL",
                                  "PACKED", "COMPRESSED", "EXPLICIT", "OLD_COMPRESSION", "NOT_UNIFIED", "TEX", "HTML", "LEMMON",
                                  "START_COLUMN", "NO_REPEATED_STEPS", "RENUMBER">>, "ESSENTIAL", TRUE,
                                ("FROM_STEP" :> From) @@ ("TO_STEP" :> To) @@ ("DEPTH" :> Depth) @@ ("START_COLUMN" :> Column))>>)
SetCmds == <<"WIDTH", "HEIGHT", "UNDO", "ECHO", "SCROLL", "DEBUG", "MEMORY_STATUS", "SEARCH_LIMIT", "UNIFICATION_TIMEOUT",
             "DISCOURAGEMENT", "CONTRIBUTOR", "ROOT_DIRECTORY", "EMPTY_SUBSTITUTION", "JEREMY_HENTY_FILTER">>
\* pa: in the Proof Assistant; v: the settings in force
Commands(pa, v) ==
  Kw(IF ~pa THEN <<"DBG", "HELP", "READ", "WRITE", "PROVE", "SHOW", "SEARCH", "SAVE", "SUBMIT", "OPEN", "CLOSE", "SET", "FILE", "BEEP",
                   "EXIT", "QUIT", "ERASE", "VERIFY", "MARKUP", "MORE", "TOOLS", "MIDI">>
     ELSE <<"DBG", "HELP", "WRITE", "SHOW", "SEARCH", "SAVE", "SUBMIT", "OPEN", "CLOSE", "SET", "FILE", "BEEP", "EXIT", "_EXIT_PA", "QUIT",
            "VERIFY", "INITIALIZE", "ASSIGN", "REPLACE", "LET", "UNIFY", "IMPROVE", "MINIMIZE_WITH", "EXPAND", "MATCH", "DELETE",
            "UNDO", "REDO", "MARKUP", "MORE", "TOOLS", "MIDI">>, "HELP",
     ([x \in {"DBG", "WRITE", "FILE", "BEEP", "MARKUP", "MORE", "TOOLS", "MIDI", "MATCH"}
       |-> <<Open>>]) @@ ("READ" :> <<File("What is the name of the source input file? ", ""), Sw(<<"VERIFY">>, "VERIFY", FALSE, <<>>)>>)
     @@ ("SHOW" :> <<Kw(IF pa THEN <<"NEW_PROOF">> \o ShowCmds ELSE ShowCmds, "SETTINGS", ShowRest)>>)
     @@ ("SEARCH" :> <<Need, Txt(WhatLabels, "*"), Txt("Search for what math symbol string? ", ""),
                       Sw(<<"ALL", "COMMENTS", "JOIN">>, "ALL", TRUE, <<>>)>>)
     @@ ("PROVE" :> <<Need, StmtQ, Sw(<<"OVERRIDE">>, "OVERRIDE", FALSE, <<>>)>>)
     @@ ("SUBMIT" :> <<File("What is the name of command file to run <mm.cmd>? ", "mm.cmd"), Sw(<<"SILENT">>, "SILENT", FALSE, <<>>)>>)
     @@ ("OPEN" :> <<Kw(<<"LOG", "TEX">>, "LOG", ("LOG" :> <<NoLog, Txt("What is the name of logging output file? ", "")>>))>>)
     @@ ("CLOSE" :> <<Plain(<<"LOG", "TEX">>, "LOG")>>)
     @@ ("EXIT" :> <<Sw(<<"FORCE">>, "FORCE", FALSE, <<>>)>>) @@ ("QUIT" :> <<Sw(<<"FORCE">>, "FORCE", FALSE, <<>>)>>)
     @@ ("_EXIT_PA" :> <<Sw(<<"FORCE">>, "FORCE", FALSE, <<>>)>>)
     @@ ("SET" :> <<Kw(SetCmds, "WIDTH",
           [x \in {"DEBUG", "MEMORY_STATUS", "ROOT_DIRECTORY"} |-> <<Open>>]
           @@ [x \in {"ECHO", "DISCOURAGEMENT", "EMPTY_SUBSTITUTION", "JEREMY_HENTY_FILTER"} |-> Toggle(v[x])]
           @@ ("SCROLL" :> OneOf(<<"CONTINUOUS", "PROMPTED">>, IF v["SCROLL"] = "PROMPTED" THEN "CONTINUOUS" ELSE "PROMPTED"))
           @@ ("SEARCH_LIMIT" :> NumQ("What is search limit for IMPROVE command", v["SEARCH_LIMIT"]))
           @@ ("UNIFICATION_TIMEOUT" :> NumQ("What is maximum number of unification trials", v["UNIFICATION_TIMEOUT"]))
           @@ ("WIDTH" :> NumQ("What is maximum line length on your screen", v["WIDTH"]))
           @@ ("HEIGHT" :> NumQ("What is number of lines your screen displays", v["HEIGHT"]))
           @@ ("UNDO" :> NumQ("What is the maximum number of UNDOs", v["UNDO"]))
           @@ ("CONTRIBUTOR" :> <<Txt("What is the contributor name for SAVE (NEW_)PROOF <" \o v["CONTRIBUTOR"] \o ">? ", v["CONTRIBUTOR"])>>))>>)
     @@ ("HELP" :> <<Opt(HelpTopics, HelpOn)>>)
     @@ ("SAVE" :> <<IF pa THEN Kw(<<"NEW_PROOF", "PROOF">>, "NEW_PROOF",
                                   ("PROOF" :> SaveProof) @@ ("NEW_PROOF" :> <<Need, Sw(Forms \o <<"OLD_COMPRESSION", "OVERRIDE">>, "NORMAL", TRUE, <<>>)>>))
                     ELSE Kw(<<"PROOF">>, "PROOF", ("PROOF" :> SaveProof))>>)
     @@ ("EXPAND" :> Label)
     @@ ("MINIMIZE_WITH" :> Label \o <<Sw(<<"VERBOSE", "MAY_GROW", "EXCEPT", "OVERRIDE", "INCLUDE_MATHBOXES", "ALLOW_NEW_AXIOMS",
                                             "NO_NEW_AXIOMS_FROM", "FORBID", "TIME">>, "VERBOSE", TRUE,
                                           [x \in {"EXCEPT", "ALLOW_NEW_AXIOMS", "NO_NEW_AXIOMS_FROM", "FORBID"} |-> <<PatQ>>])>>)
     @@ ("REPLACE" :> <<Txt(WhatStep, "LAST"), Txt("With what statement label? ", ""), Sw(<<"OVERRIDE">>, "OVERRIDE", FALSE, <<>>)>>)
     @@ ("VERIFY" :> <<Kw(<<"PROOF", "MARKUP">>, "PROOF", ("PROOF" :> <<Need, Txt(WhatLabels, "*"), Sw(<<"SYNTAX_ONLY">>, "SYNTAX_ONLY", FALSE, <<>>)>>))>>)
     @@ ("INITIALIZE" :> <<Kw(<<"STEP", "ALL", "USER">>, "ALL", ("STEP" :> <<Num("What step number? ", "")>>))>>)
     @@ ("IMPROVE" :> <<Txt("What step number, or FIRST, or LAST, or ALL <ALL>? ", "ALL"),
                        Sw(<<"DEPTH", "NO_DISTINCT", "1", "2", "3", "SUBPROOFS", "OVERRIDE", "INCLUDE_MATHBOXES">>, "DEPTH", TRUE,
                           ("DEPTH" :> <<Num("What is maximum depth for searching statements with $e hypotheses <0>? ", "0")>>))>>)
     @@ ("UNIFY" :> <<Kw(<<"STEP", "ALL">>, "ALL", ("STEP" :> <<Num("What step number? ", "")>>)
                         @@ ("ALL" :> <<Sw(<<"INTERACTIVE">>, "INTERACTIVE", FALSE, <<>>)>>))>>)
     @@ ("DELETE" :> <<Kw(<<"STEP", "ALL", "FLOATING_HYPOTHESES">>, "STEP", ("STEP" :> <<Num("What step number? ", "")>>))>>)
     @@ ("LET" :> <<Kw(<<"STEP", "VARIABLE">>, "STEP", ("STEP" :> <<Txt(WhatStep, "LAST")>>)
                       @@ ("VARIABLE" :> <<Txt("Assign what variable (format $nn)? ", "")>>)),
                    Plain(<<"=">>, "="), Txt("With what math symbol string? ", "")>>)
     @@ ("ASSIGN" :> <<Txt(WhatStep, "LAST"), Txt("With what statement label? ", ""), Sw(<<"NO_UNIFY", "OVERRIDE">>, "NO_UNIFY", TRUE, <<>>)>>))

Join(o) == IF Len(o) = 1 THEN o[1] ELSE IF Len(o) = 2 THEN o[1] \o " or " \o o[2]
           ELSE FoldLeft(LAMBDA a, x : a \o x \o ", ", "", SubSeq(o, 1, Len(o) - 1)) \o "or " \o o[Len(o)]
Starts(x, w) == Len(w) <= Len(x) /\ SubSeq(x, 1, Len(w)) = w
\* the keywords of a list a word stands for: itself or all it begins
Meant(o, w) == LET u == Up(w) IN IF u \in ToSet(o) THEN <<u>> ELSE SelectSeq(o, LAMBDA x : Starts(x, u))
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
IsNum(w) == w # "" /\ \A i \in 1..Len(w) : Ch(w, i) \in Digits
RECURSIVE Trim0(_)
Trim0(w) == IF Len(w) > 1 /\ Ch(w, 1) = "0" THEN Trim0(SubSeq(w, 2, Len(w))) ELSE w
\* FIRST, LAST and ALL may be abbreviated by anything with their first letter
Spelt(q, w) ==
  LET has(x) == \E i \in 1..Len(q) : i + Len(x) - 1 <= Len(q) /\ SubSeq(q, i, i + Len(x) - 1) = x
      f == IF w = "" THEN "" ELSE Up(Ch(w, 1)) IN
  CASE f = "F" /\ has(" FIRST") -> "FIRST" [] f = "L" /\ has(" LAST") -> "LAST" [] f = "A" /\ has(" ALL") -> "ALL" [] OTHER -> w

(* ----- the machine ---------------------------------------------------------------------- *)
(* C: [files |-> name -> lines, srcs |-> database -> labels of its theorems, args, stdin]    *)
Idle == [raw |-> <<>>, full |-> <<>>, q |-> FALSE, todo |-> <<>>, line |-> ""]
Defaults == ("ECHO" :> "OFF") @@ ("DISCOURAGEMENT" :> "ON") @@ ("EMPTY_SUBSTITUTION" :> "OFF") @@ ("JEREMY_HENTY_FILTER" :> "ON")
            @@ ("SCROLL" :> "PROMPTED") @@ ("SEARCH_LIMIT" :> "50000") @@ ("UNIFICATION_TIMEOUT" :> "100000") @@ ("WIDTH" :> "79")
            @@ ("HEIGHT" :> "24") @@ ("UNDO" :> "19") @@ ("CONTRIBUTOR" :> "?who?")
Start == [fr |-> <<>>, ai |-> 1, si |-> 1, pa |-> FALSE, rd |-> "", set |-> Defaults, log |-> 0, lname |-> <<>>, k |-> 0, runs |-> <<>>,
          ev |-> <<>>, cmd |-> Idle, done |-> FALSE]
MaxNest == 10
Silent(S) == S.fr # <<>> /\ S.fr[Len(S.fr)].sil
\* shown unless silent, recorded in the log if there is one
Say(S, x) == [S EXCEPT !.ev = Append(@, [e |-> "t", s |-> x, k |-> 0, vis |-> ~Silent(S), lg |-> S.log])]
Out(S) == [S EXCEPT !.ev = Append(@, [e |-> "o", s |-> "", k |-> S.k, vis |-> ~Silent(S), lg |-> S.log])]
Shown(S, x) == [S EXCEPT !.ev = Append(@, [e |-> "t", s |-> x, k |-> 0, vis |-> TRUE, lg |-> 0])]
Kept(S, x) == [S EXCEPT !.ev = Append(@, [e |-> "t", s |-> x, k |-> 0, vis |-> FALSE, lg |-> S.log])]
Prompt(S) == IF S.pa THEN "MM-PA> " ELSE "MM> "

\* the next line, asked for with ask; main: at the prompt
RECURSIVE Typed(_, _, _, _)
Typed(C, S, ask, main) ==
  LET S1 == Shown(S, ask) IN
  IF S.si > Len(C.stdin) THEN [s |-> Kept(Shown(S1, "EXIT\n"), ask \o "EXIT\n"), x |-> "EXIT"]
  ELSE LET x == C.stdin[S.si]
           S2 == [S1 EXCEPT !.si = @ + 1] IN
       IF x = "" /\ main THEN Typed(C, S2, ask, main) ELSE [s |-> Kept(S2, ask \o x \o "\n"), x |-> x]
Line(C, S, ask, main) ==
  LET n == Len(S.fr) IN
  IF n = 0
  THEN IF main /\ S.ai <= Len(C.args)
       THEN LET x == IF Len(C.args) = 1 /\ \A i \in 1..Len(C.args[1]) : Ch(C.args[1], i) # " "
                     THEN "READ \"" \o C.args[1] \o "\"" ELSE C.args[S.ai]
            IN [s |-> Say([S EXCEPT !.ai = @ + 1], ask \o x \o "\n"), x |-> x]
       ELSE Typed(C, S, ask, main)
  ELSE LET f == S.fr[n] IN
       IF f.at > Len(C.files[f.nm])       \* the end of a command file stands for an empty line
       THEN [s |-> [Say(S, ask \o "[End of command file \"" \o f.nm \o "\".]\n") EXCEPT !.fr = SubSeq(@, 1, n - 1)], x |-> ""]
       ELSE [s |-> Say([S EXCEPT !.fr[n].at = @ + 1], ask \o C.files[f.nm][f.at] \o "\n"), x |-> C.files[f.nm][f.at]]

Fail(S, errline, i, msg) ==    \* a complaint about word i
  LET r == S.cmd.raw[i] IN
  [Say(Say(S, Blanks(errline, r.at - 1) \o Fold("", Len(r.t), "", "^") \o "\n"), msg \o "\n") EXCEPT !.cmd = Idle]
FailPlain(S, msg) == [Say(S, msg \o "\n") EXCEPT !.cmd = Idle]
Give(S, x, todo) == [S EXCEPT !.cmd.full = Append(@, x), !.cmd.todo = todo]
ErrLine(S) == Prompt(S) \o S.cmd.line

\* ask for the word that is missing
Ask(C, S, q, d) ==
  LET L == Line(C, S, q, FALSE)
      x == IF L.x = "" THEN d ELSE L.x
  IN [s |-> [L.s EXCEPT !.cmd.q = TRUE], x |-> x]
Put(S, x, q) == [S EXCEPT !.cmd.raw = Append(@, [t |-> x, at |-> Len(q) + 1])]

\* a keyword; K(S, x) goes on with it
KwArg(C, S, o, d, K(_, _), Nothing(_)) ==
  LET i == Len(S.cmd.full) + 1
      missing == Len(S.cmd.raw) < i
      opt == o[Len(o)] = "nothing"
      q == Join(o) \o (IF d = "" THEN "" ELSE " <" \o d \o ">") \o "? "
      asked == missing /\ (~opt \/ S.cmd.q)
      A == IF ~asked THEN [s |-> S, x |-> ""]
           ELSE IF Len(o) = 1 THEN [s |-> [S EXCEPT !.cmd.q = TRUE], x |-> d]
           ELSE Ask(C, S, q, d)
      S1 == IF asked /\ ~(opt /\ A.x = "nothing") THEN Put(A.s, A.x, q) ELSE A.s
      err == IF asked THEN q ELSE ErrLine(S)
      m == Meant(o, S1.cmd.raw[i].t)
  IN IF Len(S1.cmd.raw) < i THEN Nothing(S1)
     ELSE IF m = <<>> THEN Fail(S1, err, i, "?Expected " \o Join(o) \o ".")
     ELSE IF Len(m) > 1 THEN Fail(S1, err, i, "?Ambiguous keyword - please specify " \o Join(m) \o ".")
     ELSE K(S1, m[1])

\* the next argument of the command under way
ArgStep(C, S) ==
  LET it == Head(S.cmd.todo)
      rest == Tail(S.cmd.todo)
      i == Len(S.cmd.full) + 1
      missing == Len(S.cmd.raw) < i
      word(A) == IF missing THEN Put(A.s, A.x, it.q) ELSE A.s
      err == IF missing THEN it.q ELSE ErrLine(S)
  IN CASE it.t = "open" -> FailPlain(S, "@")
       [] it.t = "need" -> IF S.rd # "" THEN [S EXCEPT !.cmd.todo = rest] ELSE FailPlain(S, "?No source file has been read in.  Use READ first.")
       [] it.t = "nolog" -> IF S.log = 0 THEN [S EXCEPT !.cmd.todo = rest]
                            ELSE FailPlain(S, "?Sorry, the log file \"" \o S.lname[S.log] \o "\" is currently open.  Type CLOSE LOG to close the current log if you want to open another one.")
       [] it.t = "kw" -> KwArg(C, S, it.o, it.d, LAMBDA T, x : Give(T, x, After(it, x) \o rest), LAMBDA T : T)
       [] it.t = "opt" -> KwArg(C, S, it.o, "nothing", LAMBDA T, x : Give(T, x, After(it, x) \o rest), LAMBDA T : [T EXCEPT !.cmd.todo = rest])
       [] it.t = "sw" ->
            KwArg(C, S, <<"/", "nothing">>, "nothing",
                  LAMBDA T, x : Give(T, "/", <<Kw(it.o, it.d, it.b)>> \o (IF it.many THEN <<it>> ELSE <<>>) \o rest),
                  LAMBDA T : [T EXCEPT !.cmd.todo = rest])
       [] it.t = "num" ->
            LET A == IF missing THEN Ask(C, S, it.q, it.d) ELSE [s |-> S, x |-> ""]
                S1 == word(A)
                w == IF S1.cmd.raw[i].t = "" THEN it.d ELSE S1.cmd.raw[i].t
            IN IF IsNum(w) THEN Give(S1, Trim0(w), rest) ELSE Fail(S1, err, i, "?A number was expected here.")
       [] it.t \in {"any", "file"} ->
            LET A == IF missing THEN Ask(C, S, it.q, it.d) ELSE [s |-> S, x |-> ""]
                S1 == word(A)
                w0 == IF it.t = "any" THEN Spelt(it.q, S1.cmd.raw[i].t) ELSE S1.cmd.raw[i].t
                w == IF w0 = "" THEN it.d ELSE w0
            IN IF it.t = "file" /\ \E j \in 1..Len(w) : Ch(w, j) = "/" THEN FailPlain(S1, "@")      \* other directories
               ELSE IF it.t = "file" /\ w \notin DOMAIN C.files \cup DOMAIN C.srcs
               THEN Fail(S1, err, i, "?Sorry, couldn't open the file \"" \o w \o "\".")
               ELSE IF w = "" THEN FailPlain(S1, "?No default answer is available - please be explicit.")
               ELSE Give(S1, w, rest)

Quoted(x) ==
  LET has(c) == \E i \in 1..Len(x) : Ch(x, i) = c IN
  IF x = "" \/ has(" ") \/ has("\t") \/ has("\"") \/ has("'") THEN (IF has("\"") THEN "'" \o x \o "'" ELSE "\"" \o x \o "\"") ELSE x
Full(f) == FoldLeft(LAMBDA a, x : a \o (IF a = "" THEN "" ELSE " ") \o Quoted(x), "", f)
HasSwitch(f, x) == \E i \in 1..Len(f) - 1 : f[i] = "/" /\ f[i + 1] = x

Date == "@"
CloseLog(S) == LET S1 == Say(S, "The log file \"" \o S.lname[S.log] \o "\" was closed " \o Date \o "\n") IN [S1 EXCEPT !.log = 0]
\* a complete command
Do(C, S0) ==
  LET f == S0.cmd.full
      S == [(IF S0.set["ECHO"] = "ON" THEN Say(S0, "!" \o Full(f) \o "\n") ELSE S0) EXCEPT !.cmd = Idle]
      run == Out([S EXCEPT !.k = @ + 1, !.runs = Append(@, f)])      \* as if typed in full
      two == Len(f) >= 2
  IN CASE f[1] = "SUBMIT" ->
            IF Len(S.fr) = MaxNest THEN Say(S, "?The SUBMIT nesting level has been exceeded.\n")
            ELSE LET sil == HasSwitch(f, "SILENT") \/ Silent(S)
                     T == [S EXCEPT !.fr = Append(@, [nm |-> f[2], at |-> 1, sil |-> sil])]
                 IN IF sil THEN T ELSE Say(T, "Taking command lines from file \"" \o f[2] \o "\"...\n")
       [] two /\ f[1] = "OPEN" /\ f[2] = "LOG" ->
            IF \E i \in 1..Len(f[3]) : Ch(f[3], i) = "/" THEN FailPlain(S, "@") ELSE      \* other directories
            LET T == [S EXCEPT !.lname = Append(@, f[3]), !.log = Len(S.lname) + 1] IN
            Say(T, "The log file \"" \o f[3] \o "\" was opened " \o Date \o "\n")
       [] two /\ f[1] = "CLOSE" /\ f[2] = "LOG" ->
            IF S.log = 0 THEN Say(S, "?Sorry, there is no log file currently open.\n") ELSE CloseLog(S)
       [] two /\ f[1] = "SET" /\ f[2] = "ECHO" ->
            IF f[3] = "ON" THEN Say(Say([S EXCEPT !.set["ECHO"] = "ON"], "!SET ECHO ON\n"), "Command line echoing is now turned on.\n")
            ELSE Say([S EXCEPT !.set["ECHO"] = "OFF"], "Command line echoing is now turned off.\n")
       [] f[1] \in {"EXIT", "QUIT", "_EXIT_PA"} ->
            IF S.pa THEN [run EXCEPT !.pa = FALSE]
            ELSE LET T == IF S.log # 0 THEN CloseLog(run) ELSE run IN [T EXCEPT !.done = TRUE]
       [] two /\ f[1] = "SET" -> [run EXCEPT !.set = (f[2] :> IF f[2] = "HEIGHT" /\ f[3] \in {"0", "1"} THEN "2" ELSE f[3]) @@ @]
       [] f[1] = "READ" -> IF f[2] \notin DOMAIN C.srcs THEN FailPlain(S, "@") ELSE [run EXCEPT !.rd = IF @ = "" /\ f[2] \in DOMAIN C.srcs THEN f[2] ELSE @]
       [] f[1] = "ERASE" -> [run EXCEPT !.rd = ""]
       [] f[1] = "PROVE" -> [run EXCEPT !.pa = f[2] \in ToSet(C.srcs[S.rd])]
       [] OTHER -> run

SStep(C, S) ==
  IF S.cmd.raw = <<>>
  THEN LET L == Line(C, S, Prompt(S), TRUE)
           w == Words(L.x)
       IN IF w = <<>> THEN L.s
          ELSE [L.s EXCEPT !.cmd = [raw |-> [j \in DOMAIN w |-> [t |-> w[j].t, at |-> w[j].at + Len(Prompt(S))]], full |-> <<>>,
                                    q |-> FALSE, todo |-> <<Commands(S.pa, S.set)>>, line |-> L.x]]
  ELSE IF S.cmd.todo # <<>> THEN ArgStep(C, S)
  ELSE IF Len(S.cmd.full) < Len(S.cmd.raw)
  THEN Fail(S, ErrLine(S), Len(S.cmd.full) + 1, "?Too many arguments.  Use quotes around arguments with special characters and around Unix file names with \"/\"s.")
  ELSE Do(C, S)

(* ----- what holds of every run ------------------------------------------------------------- *)
\* while a log is open it records everything said, silent or not
Recorded(S) == \A j \in DOMAIN S.ev : S.ev[j].e = "o" /\ S.log # 0 /\ j = Len(S.ev) => S.ev[j].lg = S.log
\* a silent file shows nothing
Quiet(S, T) == Silent(S) /\ Silent(T) => \A j \in Len(S.ev) + 1..Len(T.ev) : ~T.ev[j].vis
NestOk(S) == Len(S.fr) <= MaxNest
==============================================================================
