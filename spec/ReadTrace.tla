------------------------------ MODULE ReadTrace ------------------------------
(* Sources and what READ said about each: [files |-> [name, lines]*, main, ok], *)
(* plus, when vd is present, the verdict of every theorem.                      *)
EXTENDS MMSource, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES n, pc, toks, T, bad
vars == <<n, pc, toks, T, bad>>

Files(c) == LET fs == Cases[c].files IN
  [x \in {fs[i].name : i \in DOMAIN fs} |-> Lex(fs[CHOOSE i \in DOMAIN fs : fs[i].name = x].lines)]

Init == n \in 1..Len(Cases) /\ pc = "flatten" /\ toks = <<>> /\ T = TInit /\ bad = {}
DoFlatten ==
  /\ pc = "flatten"
  /\ LET X == Flatten(Files(n), Cases[n].main) IN
     IF X.bad # {} THEN pc' = "done" /\ bad' = X.bad /\ toks' = <<>>
                   ELSE pc' = "stmt" /\ bad' = {} /\ toks' = X.out
  /\ UNCHANGED <<n, T>>
\* one transition per recognised chunk: up to the next statement end
Cut == LET i == SelectInSeq(toks, LAMBDA k : k.t \in {"$.", "${", "$}"}) IN IF i = 0 THEN Len(toks) ELSE i
Statement ==
  /\ pc = "stmt" /\ toks # <<>> /\ T.bad = {}
  /\ T' = FoldLeft(TStep, T, SubSeq(toks, 1, Cut)) /\ toks' = SubSeq(toks, Cut + 1, Len(toks))
  /\ UNCHANGED <<n, pc, bad>>
Finish ==
  /\ pc = "stmt" /\ (toks = <<>> \/ T.bad # {})
  /\ T' = TEnd(T) /\ bad' = T'.bad /\ pc' = "done" /\ toks' = <<>>
  /\ UNCHANGED n
Next == DoFlatten \/ Statement \/ Finish
Spec == Init /\ [][Next]_vars

C == Cases[n]
WantVd == [l \in DOMAIN C.vd |-> Judge(T.D, l, ProofForm(T.pfs[l]))]
VdOK == bad # {} \/ "vd" \notin DOMAIN C \/
        (DOMAIN C.vd = DOMAIN T.pfs /\
         \A l \in DOMAIN C.vd : WantVd[l] = C.vd[l] \/ (WantVd[l] = "any" /\ C.vd[l] \in {"error", "incomplete"}))
(* what SHOW STATEMENT * / FULL printed, in order *)
PairSet(ps) == {Elems(ps[i]) : i \in DOMAIN ps}
EntryOK(x, s) ==
  /\ x.k = s.k /\ x.l = s.l /\ x.m = s.m
  /\ s.k \in {"a", "p"} =>
     LET F == T.D.frm[s.l]
         isOpt(h) == h.k = "f" /\ h.m[2] \notin F.vars
     IN /\ x.hyps = F.hyps
        /\ PairSet(x.dv) = F.dv
        /\ Elems(x.vars) = F.vars
        /\ s.k = "p" => /\ x.opt = [i \in DOMAIN F.opt |-> F.opt[i].l]
                        /\ Elems(x.add) = F.av \ F.vars
                        /\ PairSet(x.odv) = F.alld \ F.dv
Labels == SelectSeq(T.list, LAMBDA s : Labelled(s.k))
ListOK == bad # {} \/ "list" \notin DOMAIN C \/
          (Len(C.list) = Len(Labels) /\ \A i \in DOMAIN Labels : EntryOK(C.list[i], Labels[i]))
FirstOff == IF bad # {} \/ "list" \notin DOMAIN C THEN "" ELSE
   LET off == {i \in DOMAIN Labels : i > Len(C.list) \/ ~EntryOK(C.list[i], Labels[i])} IN
   IF off = {} THEN "" ELSE Labels[CHOOSE i \in off : \A j \in off : i <= j].l
Accept == (C.ok = (bad = {})) /\ VdOK /\ ListOK
Report == pc = "done" =>
   PrintT("@@" \o ToJson(<<IF Accept THEN "ACCEPT" ELSE "REJECT", n, C.ok, bad,
                            IF bad # {} \/ Accept THEN "" ELSE IF ~VdOK THEN "verdicts" ELSE FirstOff>>))
=============================================================================
